from spec import *
P = Prop('P06')
D = {'x': 'n d'}
def colsum(x, g=lambda v: v): return lambda j: Sum(x.rows, lambda i: g(x.f(i, c(j))))
def rowsum(x, g=lambda v: v): return lambda i: Sum(x.cols, lambda j: g(x.f(c(i), j)))
def allsum(x, g=lambda v: v): return Sum(x.rows, lambda i: Sum(x.cols, lambda j: g(x.f(i, j))))
sq = lambda v: mul(v, v)
def reducer(kind):
    """textbook value of each reduction for axis 0 (per column), 1 (per row), -1 (all)"""
    def ens(r, x, axis):
        n, d = x.rows, x.cols
        if kind == 'sum': f0, f1, f2 = colsum(x), rowsum(x), allsum(x)
        elif kind == 'mean': f0, f1, f2 = (lambda j: div(colsum(x)(j), n)), (lambda i: div(rowsum(x)(i), d)), div(allsum(x), mul(n, d))
        else:
            m0 = lambda j: div(colsum(x)(j), n); m1 = lambda i: div(rowsum(x)(i), d); m2 = div(allsum(x), mul(n, d))
            f0 = lambda j: div(Sum(n, lambda i: sq(sub(x.f(i, c(j)), m0(j)))), n)
            f1 = lambda i: div(Sum(d, lambda j: sq(sub(x.f(c(i), j), m1(i)))), d)
            f2 = div(Sum(n, lambda i: Sum(d, lambda j: sq(sub(x.f(i, j), m2)))), mul(n, d))
        if axis == 0: yield from mat_is(r, 1, d, lambda i, j: f0(j))
        elif axis == 1: yield from mat_is(r, n, 1, lambda i, j: f1(i))
        else: yield from mat_is(r, 1, 1, lambda i, j: f2)
    return ens
for kind in ('sum', 'mean', 'var'):
    for axis, nm in ((0, 'cols'), (1, 'rows'), (-1, 'all')):
        P.fn('M %s_%s(const M& x)' % (kind, nm), '{ return openml::math::%s<M>(x, %d); }' % (kind, axis), dims=D,
             ens=lambda r, x, kind=kind, axis=axis: reducer(kind)(r, x, axis))
    P.fn('M %s_default(const M& x)' % kind, '{ return openml::math::%s<M>(x); }' % kind, dims=D, ens=lambda r, x, kind=kind: reducer(kind)(r, x, -1))
    P.fn('M %s_axis(const M& x, int axis)' % kind, '{ return openml::math::%s<M>(x, axis); }' % kind, dims=D,
         throws=lambda x, axis: not_(or_(eq(axis, 0), eq(axis, 1), eq(axis, -1))), vals={'axis': [0, 1, -1, 2, 3, -2, 5]})
def med(n, f):
    h = idiv(n, c(2))
    return ite(eq(imod(n, c(2)), ZERO), div(add(Ksm(n, f, h), Ksm(n, f, sub(h, ONE))), c(2)), Ksm(n, f, h))
def ens_med(axis):
    def ens(r, x):
        n, d = x.rows, x.cols
        if axis == 0: yield from vec_is(r, d, lambda j: med(n, lambda i: x.f(i, c(j))))
        elif axis == 1: yield from vec_is(r, n, lambda i: med(d, lambda j: x.f(c(i), j)))
        else: yield from vec_is(r, 1, lambda i: med(mul(n, d), lambda k: x.f(idiv(k, d), imod(k, d))))
    return ens
for axis, nm in ((0, 'cols'), (1, 'rows'), (-1, 'all')):
    P.fn('V median_%s(const M& x)' % nm, '{ return openml::math::median<M, V>(x, %d); }' % axis, dims=D, ens=ens_med(axis))
    def enscum(r, x, axis=axis):
        n, d = x.rows, x.cols
        if axis == 0: yield from mat_is(r, n, d, lambda i, j: Sum(add(i, 1), lambda k: x.f(k, c(j))))
        elif axis == 1: yield from mat_is(r, n, d, lambda i, j: Sum(add(j, 1), lambda k: x.f(c(i), k)))
        else: yield from mat_is(r, mul(n, d), 1, lambda i, j: Sum(add(i, 1), lambda k: x.f(idiv(k, d), imod(k, d))))
    P.fn('M cumsum_%s(const M& x)' % nm, '{ return openml::math::cumsum<M, V>(x, %d); }' % axis, dims=D, ens=enscum)
P.fn('V norm2_cols(const M& x)', '{ return openml::math::norm2<M, V>(x, 0); }', dims=D, ens=lambda r, x: vec_is(r, x.cols, lambda j: sqrt(colsum(x, sq)(j))))
P.fn('V norm2_rows(const M& x)', '{ return openml::math::norm2<M, V>(x, 1); }', dims=D, ens=lambda r, x: vec_is(r, x.rows, lambda i: sqrt(rowsum(x, sq)(i))))
P.fn('M row_norms(const M& x)', '{ return openml::math::row_norms<M, V>(x); }', dims=D, ens=lambda r, x: mat_is(r, x.rows, 1, lambda i, j: sqrt(rowsum(x, sq)(i))))
P.fn('M row_norms_sq(const M& x)', '{ return openml::math::row_norms<M, V>(x, true); }', dims=D, ens=lambda r, x: mat_is(r, x.rows, 1, lambda i, j: rowsum(x, sq)(i)))
for o, nm in (('1', 'l1'), ('2', 'l2'), ('Eigen::Infinity', 'inf')):
    def val(x, o):
        if o == '1': return (lambda j: colsum(x, abs_)(j)), (lambda i: rowsum(x, abs_)(i))
        if o == '2': return (lambda j: sqrt(colsum(x, sq)(j))), (lambda i: sqrt(rowsum(x, sq)(i)))
        return (lambda j: Max(x.rows, lambda i: abs_(x.f(i, c(j))))), (lambda i: Max(x.cols, lambda j: abs_(x.f(c(i), j))))
    P.fn('M norm_cols_%s(const M& x)' % nm, '{ return openml::common::norm<M>(x, 0, %s); }' % o, dims=D, ens=lambda r, x, o=o: mat_is(r, 1, x.cols, lambda i, j: val(x, o)[0](j)))
    P.fn('M norm_rows_%s(const M& x)' % nm, '{ return openml::common::norm<M>(x, 1, %s); }' % o, dims=D, ens=lambda r, x, o=o: mat_is(r, x.rows, 1, lambda i, j: val(x, o)[1](i)))
def ens_cov(r, x):
    n = x.rows; m = lambda j: div(colsum(x)(j), n)
    yield from mat_is(r, x.cols, x.cols, lambda a, b: div(Sum(n, lambda i: mul(sub(x.f(i, a), m(a)), sub(x.f(i, b), m(b)))), sub(n, ONE)))
P.fn('M cov(const M& x)', '{ return openml::math::cov<M>(x); }', dims=D, min={'n': 2}, ens=ens_cov)
P.fn('M center(const M& x)', '{ return openml::math::center<M>(x); }', dims=D, ens=lambda r, x: mat_is(r, x.rows, x.cols, lambda i, j: sub(x.f(i, j), div(colsum(x)(j), x.rows))))
def ens_mode(axis):
    def ens(r, x):
        n, d = x.rows, x.cols
        md, ct = r.xs
        cnt = (lambda v, j: Count(n, lambda i: eq(x.f(i, c(j)), v))) if axis == 0 else (lambda v, j: Count(d, lambda i: eq(x.f(c(j), i), v)))
        at = (lambda i, j: x.f(i, c(j))) if axis == 0 else (lambda i, j: x.f(c(j), i))
        L, K = (n, d) if axis == 0 else (d, n)
        m = (lambda j: md.f(ZERO, j)) if axis == 0 else (lambda j: md.f(j, ZERO))
        k = (lambda j: ct.f(ZERO, j)) if axis == 0 else (lambda j: ct.f(j, ZERO))
        yield from [('mode shape', and_(eq(md.rows, ONE if axis == 0 else n), eq(md.cols, d if axis == 0 else ONE))), ('count shape', and_(eq(ct.rows, md.rows), eq(ct.cols, md.cols)))]
        yield 'count is the frequency of the mode', Forall(K, lambda j: eq(k(j), cnt(m(j), j)))
        yield 'no element is more frequent', Forall(K, lambda j: Forall(L, lambda i: le(cnt(at(i, j), j), k(j))))
        yield 'all distinct: smallest element', Forall(K, lambda j: implies(eq(k(j), ONE), eq(m(j), Min(L, lambda i: at(i, j)))))
    return ens
for axis, nm in ((0, 'cols'), (1, 'rows')):
    P.fn('tuple<M, M> mode_%s(const M& x)' % nm, '{ return openml::math::mode<M>(x, %d); }' % axis, dims=D, ens=ens_mode(axis), prove=False, note='mode: bounded (running-maximum over a hash map is outside the loop solver)',
         vals={'x': [0., 1., 2., 3., 1., -1., 5., 7., 8.]})
