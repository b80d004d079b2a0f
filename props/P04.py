from spec import *
P = Prop('P04')
dims = {'X': 'n d', 'y': 'n', 'W': 'd k'}
def sc(X, W): return lambda i, j: dot(X.cols, lambda k: X.f(c(i), k), lambda k: W.f(k, c(j)))
def sqn(W): return Sum(W.rows, lambda a: Sum(W.cols, lambda b: mul(W.f(a, b), W.f(a, b))))
def prob(X, W):
    z = sc(X, W)
    return lambda i, j: div(exp(z(i, j)), Sum(W.cols, lambda l: exp(z(i, l))))
def req(X, y, W, lam): return [Forall(X.rows, lambda i: and_(le(ZERO, y.f(i, ZERO)), lt(y.f(i, ZERO), W.cols)))]
def ens_eval(r, X, y, W, lam):
    n = X.rows; p = prob(X, W)
    yield 'objective', eq(r, add(div(-Sum(n, lambda i: log(p(i, floor(y.f(c(i), ZERO))))), n), div(mul(lam, sqn(W)), mul(c(2), n))))
def ens_grad(r, X, y, W, lam):
    n = X.rows; p = prob(X, W)
    yield from mat_is(r, X.cols, W.cols, lambda a, b: div(add(Sum(n, lambda i: mul(X.f(i, a), sub(p(i, b), br(eq(floor(y.f(c(i), ZERO)), b))))), mul(lam, W.f(a, b))), n))
def gen(g):
    n, d, k = g.dim(), g.dim(1, 4), g.dim(1, 4)
    return [g.mat(n, d), [float(g.r.randrange(k)) for _ in range(n)], g.mat(d, k, [-1., -.5, 0., .25, .5, 1., 1.5]), g.r.choice([0., .5, 1., 2., -1.])]
def big(g):
    # scores with a huge common offset: only the shifted exponential stays finite
    for off in (800., 1000., -1000., 3000.):
        n, d, k = g.r.randint(1, 3), g.r.randint(1, 3), g.r.randint(2, 3)
        X = [[1.0] + [g.r.choice([0., 1., .5, -1.]) for _ in range(d)] for _ in range(n)]
        W = [[off] * k] + [[g.r.choice([0., .5, 1., -1.]) for _ in range(k)] for _ in range(d)]
        yield [{'r': n, 'c': d + 1, 'e': X}, [float(g.r.randrange(k)) for _ in range(n)], {'r': d + 1, 'c': k, 'e': W}, 0.0]
P.fn('double softmax_evaluate(const M& X, const V& y, const M& W, double lam)', '{ openml::loss::SoftmaxLoss<double> l(lam); return l.evaluate(X, y, W); }', dims=dims, req=req, ens=ens_eval, gen=gen, cases=big)
P.fn('M softmax_gradient(const M& X, const V& y, const M& W, double lam)', '{ openml::loss::SoftmaxLoss<double> l(lam); return l.gradient(X, y, W); }', dims=dims, req=req, ens=ens_grad, gen=gen, cases=big)
