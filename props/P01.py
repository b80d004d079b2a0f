from spec import *
P = Prop('P01')
dims = {'X': 'n d', 'y': 'n', 'W': 'd'}
def parts(X, y, W, lam):
    n, d = X.rows, X.cols
    res = lambda i: sub(dot(d, lambda k: X.f(c(i), k), V_(W)), y.f(c(i), ZERO))
    return n, d, res
def ens_eval(r, X, y, W, lam):
    n, d, res = parts(X, y, W, lam)
    yield 'objective', eq(r, add(div(Sum(n, lambda i: mul(res(i), res(i))), mul(c(2), n)), div(mul(lam, Sum(d, lambda k: mul(W.f(k, ZERO), W.f(k, ZERO)))), mul(c(2), n))))
def ens_grad(r, X, y, W, lam):
    n, d, res = parts(X, y, W, lam)
    yield from vec_is(r, d, lambda k: div(add(Sum(n, lambda i: mul(X.f(i, k), res(i))), mul(lam, W.f(k, ZERO))), n))
P.fn('double mse_evaluate(const M& X, const V& y, const V& W, double lam)', '{ openml::loss::MSE<double> l(lam); return l.evaluate(X, y, W); }', dims=dims, ens=ens_eval)
P.fn('V mse_gradient(const M& X, const V& y, const V& W, double lam)', '{ openml::loss::MSE<double> l(lam); return l.gradient(X, y, W); }', dims=dims, ens=ens_grad)
