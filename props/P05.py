from spec import *
P = Prop('P05')
def sig(z): return inv(add(ONE, exp(-z)))
PI_ = Fraction(repr(math.pi))
def big(g):
    for off in (0., 800., 1000., -1000., 5000.):
        n, m = g.r.randint(2, 4), g.r.randint(2, 4)
        yield [{'r': n, 'c': m, 'e': [[off + g.r.choice([0., 1., 2., .5]) for _ in range(m)] for _ in range(n)]}]
mid = lambda g: g.r.choice([-3., -1., -.5, 0., 0., .25, 1., 2., 4., 30., -30., 900., -900.])
P.fn('M sigmoid(const M& x)', '{ return openml::math::sigmoid<M>(x); }', dims={'x': 'n d'},
     ens=lambda r, x: mat_is(r, x.rows, x.cols, lambda i, j: sig(x.f(i, j))), vals={'x': mid})
def grp(x, axis):
    if axis == 0: return lambda i, j: Sum(x.rows, lambda k: exp(x.f(k, c(j))))
    if axis == 1: return lambda i, j: Sum(x.cols, lambda k: exp(x.f(c(i), k)))
    return lambda i, j: Sum(x.rows, lambda a: Sum(x.cols, lambda b: exp(x.f(a, b))))
for axis, nm in ((0, 'cols'), (1, 'rows'), (-1, 'all')):
    def ens(r, x, axis=axis):
        s = grp(x, axis)
        yield from mat_is(r, x.rows, x.cols, lambda i, j: div(exp(x.f(i, j)), s(i, j)))
        yield 'positive', Forall(x.rows, lambda i: Forall(x.cols, lambda j: lt(ZERO, r.f(i, j))))
        if axis == 0: yield 'each column sums to one', Forall(x.cols, lambda j: eq(Sum(x.rows, lambda i: r.f(i, j)), ONE))
        if axis == 1: yield 'each row sums to one', Forall(x.rows, lambda i: eq(Sum(x.cols, lambda j: r.f(i, j)), ONE))
        if axis == -1: yield 'sums to one', eq(Sum(x.rows, lambda i: Sum(x.cols, lambda j: r.f(i, j))), ONE)
    P.fn('M softmax_%s(const M& x)' % nm, '{ return openml::math::softmax<M>(x, %d); }' % axis, dims={'x': 'n d'}, ens=ens,
         throws=lambda x: or_(eq(x.rows, ONE), eq(x.cols, ONE)), vals={'x': lambda g: g.r.choice([-3., -1., -.5, 0., 0., .25, 1., 2., 4.])}, cases=big)
    def ensl(r, x, axis=axis):
        s = grp(x, axis)
        if axis == 0: yield from vec_is(r, x.cols, lambda j: log(s(ZERO, j)))
        elif axis == 1: yield from vec_is(r, x.rows, lambda i: log(s(i, ZERO)))
        else: yield from vec_is(r, 1, lambda i: log(s(ZERO, ZERO)))
    P.fn('V logsumexp_%s(const M& x)' % nm, '{ return openml::math::logsumexp<M, V>(x, %d); }' % axis, dims={'x': 'n d'}, ens=ensl, cases=big)
P.fn('double logpdf(double x, double u, double v)', '{ return openml::math::gaussian_fn<double>(x, u, v); }',
     req=lambda x, u, v: [lt(ZERO, v)], vals={'v': [.25, .5, 1., 2., 3., 10.]},
     ens=lambda r, x, u, v: [('value', eq(r, sub(-div(mul(sub(x, u), sub(x, u)), mul(c(2), v)), log(sqrt(mul(c(2), c(PI_), v))))))])
