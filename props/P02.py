from spec import *
P = Prop('P02')
dims = {'X': 'n d', 'y': 'n', 'W': 'd'}
def sig(z): return inv(add(ONE, exp(-z)))
def score(X, W): return lambda i: dot(X.cols, lambda k: X.f(c(i), k), V_(W))
def sqn(W): return Sum(W.rows, lambda k: mul(W.f(k, ZERO), W.f(k, ZERO)))
def ens_eval(r, X, y, W, lam):
    n = X.rows; z = score(X, W)
    nll = lambda i: add(mul(y.f(c(i), ZERO), log(sig(z(i)))), mul(sub(ONE, y.f(c(i), ZERO)), log(sub(ONE, sig(z(i))))))
    yield 'objective', eq(r, add(div(-Sum(n, nll), n), div(mul(lam, sqn(W)), mul(c(2), n))))
def ens_grad(r, X, y, W, lam):
    n = X.rows; z = score(X, W)
    yield from vec_is(r, X.cols, lambda k: div(add(Sum(n, lambda i: mul(X.f(i, k), sub(sig(z(i)), y.f(c(i), ZERO)))), mul(lam, W.f(k, ZERO))), n))
small = lambda g: g.r.choice([-1.0, -0.5, 0.0, 0.25, 0.5, 1.0])
vals = {'W': small, 'y': lambda g: g.r.choice([0.0, 1.0, 0.0, 1.0, 0.5])}
P.fn('double log_evaluate(const M& X, const V& y, const V& W, double lam)', '{ openml::loss::LogLoss<double> l(lam); return l.evaluate(X, y, W); }', dims=dims, ens=ens_eval, vals=vals)
P.fn('V log_gradient(const M& X, const V& y, const V& W, double lam)', '{ openml::loss::LogLoss<double> l(lam); return l.gradient(X, y, W); }', dims=dims, ens=ens_grad, vals=vals)
P.fn('V sigmoid_vec(const V& x)', '{ return openml::math::sigmoid<V>(x); }', dims={'x': 'n'}, ens=lambda r, x: vec_is(r, x.rows, lambda i: sig(x.f(c(i), ZERO))))
