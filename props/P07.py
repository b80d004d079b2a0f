from spec import *
P = Prop('P07')
D = {'x': 'n d'}
P.fn('M hstack(const M& x, const M& y)', '{ return openml::common::hstack<M>(x, y); }',
     throws=lambda x, y: not_(eq(x.rows, y.rows)), dims={'x': 'n d', 'y': 'm e'},
     gen=lambda g: (lambda n, m: [g.mat(n, g.dim()), g.mat(n if g.r.random() < .8 else m, g.dim())])(g.dim(), g.dim()),
     ens=lambda r, x, y: mat_is(r, x.rows, add(x.cols, y.cols), lambda i, j: ite(lt(j, x.cols), x.f(i, j), y.f(i, sub(j, x.cols)))))
P.fn('M vstack(const M& x, const M& y)', '{ return openml::common::vstack<M>(x, y); }',
     throws=lambda x, y: not_(eq(x.cols, y.cols)), dims={'x': 'n d', 'y': 'm e'},
     gen=lambda g: (lambda d, m: [g.mat(g.dim(), d), g.mat(g.dim(), d if g.r.random() < .8 else m)])(g.dim(), g.dim()),
     ens=lambda r, x, y: mat_is(r, add(x.rows, y.rows), x.cols, lambda i, j: ite(lt(i, x.rows), x.f(i, j), y.f(sub(i, x.rows), j))))
P.fn('V flatten_mat(const M& x)', '{ return openml::common::flatten<M, V>(x); }', dims=D,
     ens=lambda r, x: vec_is(r, mul(x.rows, x.cols), lambda k: x.f(idiv(k, x.cols), imod(k, x.cols))))
P.fn('vector<double> flatten_list(const vector<vector<double>>& v)', '{ return openml::common::flatten(v); }',
     gen=lambda g: [[g.vec(g.r.randint(0, 4)) for _ in range(g.r.randint(0, 5))]],
     oracle=lambda r, v: None if r == [x for w in v for x in w] else 'not the concatenation of the lists in order', prove=False, note='concatenation of ragged lists: executed contract only')
P.fn('M repeat_rows(const M& x, int k)', '{ return openml::common::repeat<M>(x, k, 0); }', dims=D, vals={'k': [1, 2, 3, 4]}, req=lambda x, k: [le(ONE, k)],
     ens=lambda r, x, k: mat_is(r, mul(k, x.rows), x.cols, lambda i, j: x.f(imod(i, x.rows), j)))
P.fn('M repeat_cols(const M& x, int k)', '{ return openml::common::repeat<M>(x, k, 1); }', dims=D, vals={'k': [1, 2, 3, 4]}, req=lambda x, k: [le(ONE, k)],
     ens=lambda r, x, k: mat_is(r, x.rows, mul(k, x.cols), lambda i, j: x.f(i, imod(j, x.cols))))
def ens_arg(which, axis):
    better = (lambda a, b: le(a, b)) if which == 'max' else (lambda a, b: le(b, a))
    def ens(r, x):
        n, d = x.rows, x.cols
        ix = lambda j: r.f(c(j), ZERO)
        if axis == 0:
            yield 'length', eq(r.rows, d)
            yield 'in range', Forall(d, lambda j: and_(le(ZERO, ix(j)), lt(ix(j), n)))
            yield 'extreme', Forall(d, lambda j: Forall(n, lambda i: better(x.f(i, j), x.f(ix(j), j))))
        elif axis == 1:
            yield 'length', eq(r.rows, n)
            yield 'in range', Forall(n, lambda i: and_(le(ZERO, ix(i)), lt(ix(i), d)))
            yield 'extreme', Forall(n, lambda i: Forall(d, lambda j: better(x.f(i, j), x.f(i, ix(i)))))
        else:
            k = ix(ZERO)
            yield 'length', eq(r.rows, ONE)
            yield 'in range', and_(le(ZERO, k), lt(k, mul(n, d)))
            yield "extreme", Forall(mul(n, d), lambda q: better(x.f(idiv(q, d), imod(q, d)), x.f(idiv(k, d), imod(k, d))))
    return ens
for w in ('max', 'min'):
    for axis, nm in ((0, 'cols'), (1, 'rows'), (-1, 'all')):
        P.fn('I arg%s_%s(const M& x)' % (w, nm), '{ return openml::common::arg%s<M, V, I>(x, %d); }' % (w, axis), dims=D, ens=ens_arg(w, axis))
    P.fn('I arg%s_axis(const M& x, int axis)' % w, '{ return openml::common::arg%s<M, V, I>(x, axis); }' % w, dims=D, vals={'axis': [0, 1, -1, 2, -2, 7]},
         throws=lambda x, axis: not_(or_(eq(axis, 0), eq(axis, 1), eq(axis, -1))))
P.fn('M fmin(const M& x, double y)', '{ return openml::common::fmin<M>(x, y); }', dims=D, ens=lambda r, x, y: mat_is(r, x.rows, x.cols, lambda i, j: ite(lt(x.f(i, j), y), x.f(i, j), y)))
P.fn('M clip(const M& x, double hi, double lo)', '{ return openml::common::clip<M>(x, hi, lo); }', dims=D, req=lambda x, hi, lo: [le(lo, hi)],
     ens=lambda r, x, hi, lo: mat_is(r, x.rows, x.cols, lambda i, j: ite(lt(x.f(i, j), lo), lo, ite(lt(hi, x.f(i, j)), hi, x.f(i, j)))))
P.fn('M list_to_matrix(const vector<vector<double>>& v)', '{ return openml::common::vec2mat<M>(v); }', dims={'v': 'n d'},
     ens=lambda r, v: mat_is(r, v.n, v.f(ZERO).n, lambda i, j: v.f(i).f(j)))
P.fn('M ragged_to_matrix(const vector<vector<double>>& v)', '{ return openml::common::vec2mat<M>(v); }', prove=False, note='ragged nested lists: executed contract only',
     gen=lambda g: [[g.vec(g.r.choice([2, 2, 2, 3])) for _ in range(g.r.randint(1, 5))]],
     throws=lambda v: not_(Forall(v.n, lambda i: eq(v.f(i).n, v.f(ZERO).n))))
P.fn('V list_to_vector(const vector<double>& v)', '{ return openml::common::vec2mat<V>(v); }', ens=lambda r, v: vec_is(r, v.n, lambda i: v.f(i)))
def ens_where(r, x):
    hit = lambda i: not_(eq(x.f(i, ZERO), ZERO))
    yield 'count', eq(r.rows, Count(x.rows, hit))
    yield 'the k-th entry is the k-th selected position', Forall(r.rows, lambda k: eq(r.f(k, ZERO), Nth(hit, k)))
P.fn('I where(const V& x)', '{ return openml::common::where<V, I>(x); }', dims={'x': 'n'}, ens=ens_where, vals={'x': [0., 0., 1., 2.]})
P.fn('M diagmat(const V& x)', '{ return openml::math::diagmat<M, V>(x); }', dims={'x': 'n'}, ens=lambda r, x: mat_is(r, x.rows, x.rows, lambda i, j: ite(eq(i, j), x.f(i, ZERO), ZERO)))
P.fn('M absolute(const M& x)', '{ return openml::math::abs<M>(x); }', dims=D, ens=lambda r, x: mat_is(r, x.rows, x.cols, lambda i, j: abs_(x.f(i, j))))
P.fn('M sign(const M& x)', '{ return openml::math::sign<M>(x); }', dims=D, ens=lambda r, x: mat_is(r, x.rows, x.cols, lambda i, j: ite(lt(ZERO, x.f(i, j)), ONE, ite(lt(x.f(i, j), ZERO), c(-1), ZERO))))
P.fn('M square(const M& x)', '{ return openml::math::power<M>(x, 2); }', dims=D, ens=lambda r, x: mat_is(r, x.rows, x.cols, lambda i, j: mul(x.f(i, j), x.f(i, j))))
P.fn('M cube(const M& x)', '{ return openml::math::power<M>(x, 3); }', dims=D, ens=lambda r, x: mat_is(r, x.rows, x.cols, lambda i, j: mul(x.f(i, j), x.f(i, j), x.f(i, j))))
