from spec import *
P = Prop('P10')
D = {'x': 'n d'}
def is_perm(n, f):  # indices in range and pairwise distinct
    return [('indices in range', Forall(n, lambda i: and_(le(ZERO, f(i)), lt(f(i), n)))),
            ('indices distinct', Forall(n, lambda i: Forall(i, lambda k: not_(eq(f(k), f(i))))))]
tie = [0., 0., 1., 1., 2., -1., .5]
P.fn('vector<size_t> argsort_list(const vector<double>& x)', '{ return openml::common::argsort<double>(x); }', vals={'x': tie},
     ens=lambda r, x: [('length', eq(r.n, x.n))] + is_perm(x.n, r.f) + [('ascending', Forall(sub(x.n, ONE), lambda i: le(x.f(r.f(i)), x.f(r.f(add(i, 1))))))])
P.fn('vector<size_t> argsort_list_desc(const vector<double>& x)', '{ return openml::common::argsort<double>(x, true); }', vals={'x': tie},
     ens=lambda r, x: [('length', eq(r.n, x.n))] + is_perm(x.n, r.f) + [('descending', Forall(sub(x.n, ONE), lambda i: le(x.f(r.f(add(i, 1))), x.f(r.f(i)))))])
for axis, nm in ((0, 'cols'), (1, 'rows')):
    for rev in (False, True):
        le2 = (lambda a, b: le(b, a)) if rev else le
        def ens(r, x, axis=axis, le2=le2):
            n, d = x.rows, x.cols
            L, K = (n, d) if axis == 0 else (d, n)
            at = (lambda k, j: x.f(k, j)) if axis == 0 else (lambda k, j: x.f(j, k))
            ix = (lambda k, j: r.f(c(k), c(j))) if axis == 0 else (lambda k, j: r.f(c(j), c(k)))
            yield 'shape', and_(eq(r.rows, n), eq(r.cols, d))
            yield 'in range', Forall(K, lambda j: Forall(L, lambda k: and_(le(ZERO, ix(k, j)), lt(ix(k, j), L))))
            yield 'distinct', Forall(K, lambda j: Forall(L, lambda k: Forall(k, lambda q: not_(eq(ix(q, j), ix(k, j))))))
            yield 'monotone', Forall(K, lambda j: Forall(sub(L, ONE), lambda k: le2(at(ix(k, j), j), at(ix(add(k, 1), j), j))))
        P.fn('Eigen::Matrix<Idx,-1,-1> argsort_%s%s(const M& x)' % (nm, '_desc' if rev else ''), '{ return openml::common::argsort<M, Eigen::Matrix<Idx,-1,-1>, I>(x, %d, %s); }' % (axis, 'true' if rev else 'false'),
             dims=D, vals={'x': tie}, ens=ens)
        def ens2(r, x, axis=axis, le2=le2, rev=rev):
            n, d = x.rows, x.cols
            k = (lambda L, i: sub(sub(L, ONE), i)) if rev else (lambda L, i: c(i))
            if axis == 0: yield from mat_is(r, n, d, lambda i, j: Ksm(n, lambda q: x.f(q, c(j)), k(n, i)))
            else: yield from mat_is(r, n, d, lambda i, j: Ksm(d, lambda q: x.f(c(i), q), k(d, j)))
        P.fn('M sort_%s%s(const M& x)' % (nm, '_desc' if rev else ''), '{ return openml::common::sort<M>(x, %d, %s); }' % (axis, 'true' if rev else 'false'), dims=D, vals={'x': tie}, ens=ens2)
P.fn('M sort_axis(const M& x, int axis)', '{ return openml::common::sort<M>(x, axis); }', dims=D, vals={'axis': [0, 1, -1, 2, 5]}, throws=lambda x, axis: not_(or_(eq(axis, 0), eq(axis, 1))))
small = [0., 1., 2., 1.]
rows = lambda g: [[g.vec(d, small) for _ in range(g.r.randint(1, 7))] for d in [g.r.randint(1, 3)]]
LL = 'vector<vector<double>>'
def srt(rev=False): return lambda r, x: None if r == sorted(x, reverse=rev) else 'not the lexicographically sorted rows'
for rev in (False, True):
    s = '_desc' if rev else ''; b = 'true' if rev else 'false'
    P.fn('%s sortrows%s(const %s& x)' % (LL, s, LL), '{ return openml::common::sortrows<double>(x, %s); }' % b, gen=rows, oracle=srt(rev), prove=False, note='lexicographic row sort: executed contract only (comparator contains a loop)')
    P.fn('%s sort_list_cols%s(const %s& x)' % (LL, s, LL), '{ return openml::common::sort<double>(x, 0, %s); }' % b, gen=rows, prove=False, note='executed contract only',
         oracle=lambda r, x, rev=rev: None if r == [list(t) for t in zip(*[sorted(cl, reverse=rev) for cl in zip(*x)])] else 'columns not sorted')
    P.fn('%s sort_list_rows%s(const %s& x)' % (LL, s, LL), '{ return openml::common::sort<double>(x, 1, %s); }' % b, gen=rows, prove=False, note='executed contract only',
         oracle=lambda r, x, rev=rev: None if r == [sorted(w, reverse=rev) for w in x] else 'rows not sorted')
def uniq(r, x):
    e = []
    for w in x:
        if w not in e: e.append(w)
    return None if r == e else 'expected the distinct rows in first-occurrence order'
P.fn('%s remove_duplicate_rows(const %s& x)' % (LL, LL), '{ return openml::common::remove_duplicate_rows<double>(x); }', gen=rows, oracle=uniq, prove=False, note='executed contract only', ncases=4)
import itertools
P.fn('%s combinations(const vector<double>& x, size_t k)' % LL, '{ return openml::common::combinations<double>(x, k); }', gen=lambda g: [g.vec(g.r.randint(0, 6)), g.r.randint(0, 7)], prove=False, note='executed contract only',
     oracle=lambda r, x, k: None if sorted(r) == sorted(list(t) for t in itertools.combinations(x, k)) else 'not the k-subsets')
ab = {'a': small + [3.], 'b': small + [3.]}
P.fn('bool contains(const vector<double>& a, const vector<double>& b)', '{ return openml::common::contains<double>(a, b); }', vals=ab, ncases=3,
     ens=lambda r, a, b: [('every element of the first list occurs in the second', eq(r, Forall(a.n, lambda i: Exists(b.n, lambda k: eq(a.f(i), b.f(k))))))])
P.fn('bool is_equal(const vector<double>& a, const vector<double>& b)', '{ return openml::common::is_equal<double>(a, b); }', vals={'a': [0., 1.], 'b': [0., 1.]}, ncases=3,
     ens=lambda r, a, b: [('equality', eq(r, and_(eq(a.n, b.n), Forall(a.n, lambda i: eq(a.f(i), b.f(i))))))])
def mg(r, a, b):
    e = []
    for i in range(max(len(a), len(b))): e += a[i:i + 1] + b[i:i + 1]
    return None if r == e else 'not the interleaving of both lists'
P.fn('vector<double> merge(const vector<double>& a, const vector<double>& b)', '{ return openml::common::merge<double>(a, b); }', oracle=mg,
     ens_proof_only=True, ens=lambda r, a, b: [('length', eq(r.n, add(a.n, b.n))),
        ('interleaved', Forall(ite(lt(a.n, b.n), a.n, b.n), lambda i: and_(eq(r.f(mul(2, i)), a.f(i)), eq(r.f(add(mul(2, i), 1)), b.f(i))))),
        ('rest of the first', Forall(sub(a.n, b.n), lambda i: eq(r.f(add(mul(2, b.n), i)), a.f(add(b.n, i))))),
        ('rest of the second', Forall(sub(b.n, a.n), lambda i: eq(r.f(add(mul(2, a.n), i)), b.f(add(a.n, i)))))])
P.fn('vector<double> difference(const vector<double>& a, const vector<double>& b)', '{ return openml::common::difference<double>(a, b, true); }', vals=ab, prove=False, note='executed contract only', ncases=2,
     oracle=lambda r, a, b: None if r == sorted(set(a) - set(b)) else 'not the set difference')
P.fn('vector<double> difference_sorted(const vector<double>& a, const vector<double>& b)', '{ return openml::common::difference<double>(a, b); }', gen=lambda g: [sorted(g.vec(g.dim(0), ab['a'])), sorted(g.vec(g.dim(0), ab['b']))], prove=False, note='executed contract only', ncases=2,
     oracle=lambda r, a, b: None if r == sorted(set(a) - set(b)) else 'not the set difference')
P.fn('vector<double> slice1(const vector<double>& x, size_t a, size_t b)', '{ return openml::common::slice<double>(x, a, b); }', throws=lambda x, a, b: or_(lt(b, a), le(x.n, b)),
     ens=lambda r, x, a, b: list_is(r, add(sub(b, a), 1), lambda i: x.f(add(a, i))))
P.fn('%s slice2(const %s& x, size_t a, size_t b, size_t p, size_t q)' % (LL, LL), '{ return openml::common::slice<double>(x, a, b, p, q); }', dims={'x': 'n d'},
     throws=lambda x, a, b, p, q: or_(lt(b, a), le(x.n, b), lt(q, p), le(x.f(ZERO).n, q)), ncases=3,
     ens=lambda r, x, a, b, p, q: [('row count', eq(r.n, add(sub(b, a), 1))), ('row lengths', Forall(r.n, lambda i: eq(r.f(i).n, add(sub(q, p), 1)))),
        ('elements', Forall(r.n, lambda i: Forall(add(sub(q, p), 1), lambda j: eq(r.f(i).f(j), x.f(add(a, i)).f(add(p, j))))))])
for _f in P.fns:  # bounded until the engine can carry the induction through stable_sort inside a row/column range-for
    if _f.name.startswith('argsort_') or _f.name in ('merge', 'is_equal'):
        _f.prove = False; _f.note = _f.note or 'executed contract only'
