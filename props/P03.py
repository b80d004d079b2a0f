from spec import *
P = Prop('P03')
dims = {'X': 'n d', 'y': 'n', 'W': 'd'}
def score(X, W): return lambda i: dot(X.cols, lambda k: X.f(c(i), k), V_(W))
def sqn(W): return Sum(W.rows, lambda k: mul(W.f(k, ZERO), W.f(k, ZERO)))
def ens_eval(r, X, y, W, lam, thr):
    n = X.rows; z = score(X, W)
    m = lambda i: sub(thr, mul(z(i), y.f(c(i), ZERO)))
    yield 'objective', eq(r, add(Sum(n, lambda i: ite(lt(ZERO, m(i)), m(i), ZERO)), div(mul(lam, sqn(W)), mul(c(2), n))))
def ens_grad(r, X, y, W, lam, thr):
    n = X.rows; z = score(X, W)
    yield from vec_is(r, X.cols, lambda k: add(Sum(n, lambda i: ite(le(mul(z(i), y.f(c(i), ZERO)), thr), -mul(y.f(c(i), ZERO), X.f(i, k)), ZERO)), div(mul(lam, W.f(k, ZERO)), n)))
vals = {'y': [-1.0, 1.0, -1.0, 1.0, 0.5], 'X': [-1., 0., 1., .5, 2.], 'W': [-1., 0., 1., .5, 2., -.5], 'thr': [1.0, 1.0, 0.0, 0.5, 2.0, -0.5]}
P.fn('double hinge_evaluate(const M& X, const V& y, const V& W, double lam, double thr)', '{ openml::loss::HingeLoss<double> l(lam, thr); return l.evaluate(X, y, W); }', dims=dims, ens=ens_eval, vals=vals)
P.fn('V hinge_gradient(const M& X, const V& y, const V& W, double lam, double thr)', '{ openml::loss::HingeLoss<double> l(lam, thr); return l.gradient(X, y, W); }', dims=dims, ens=ens_grad, vals=vals)
P.fn('V hinge_gradient_default(const M& X, const V& y, const V& W)', '{ openml::loss::HingeLoss<double> l; return l.gradient(X, y, W); }', dims=dims, ens=lambda r, X, y, W: ens_grad(r, X, y, W, ZERO, ONE), vals=vals)
