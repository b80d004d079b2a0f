from spec import *
P = Prop('P11')
D = {'X': 'n d', 'y': 'n'}
FR = [0., .1, .25, .3, .5, .6, .7, .75, .8, .9, 1., 1 / 3, 2 / 3]
def ntr(X, fr): return floor(mul(X.rows, fr))
def split_shape(r, X, fr):
    tr, te, ytr, yte = r.xs
    k = ntr(X, fr)
    yield 'train size is the requested fraction rounded down', and_(eq(tr.rows, k), eq(ytr.rows, k))
    yield 'test size is the rest', and_(eq(te.rows, sub(X.rows, k)), eq(yte.rows, sub(X.rows, k)))
    yield 'feature count', and_(eq(tr.cols, X.cols), eq(te.cols, X.cols))
def split_at(r, X, y, fr, g):
    tr, te, ytr, yte = r.xs
    k = ntr(X, fr); d = X.cols
    yield 'train rows', Forall(k, lambda i: Forall(d, lambda j: eq(tr.f(i, j), X.f(g(i), j))))
    yield 'train labels', Forall(k, lambda i: eq(ytr.f(i, ZERO), y.f(g(i), ZERO)))
    yield 'test rows', Forall(sub(X.rows, k), lambda i: Forall(d, lambda j: eq(te.f(i, j), X.f(g(add(k, i)), j))))
    yield 'test labels', Forall(sub(X.rows, k), lambda i: eq(yte.f(i, ZERO), y.f(g(add(k, i)), ZERO)))
def ens_plain(r, X, y, fr):
    yield from split_shape(r, X, fr)
    yield from split_at(r, X, y, fr, lambda i: i)
RT = 'tuple<M, M, V, V>'
rq = lambda X, y, fr: [le(ZERO, fr), le(fr, ONE)]
P.fn(RT + ' split_in_order(const M& X, const V& y, double fr)', '{ return openml::data::train_test_split<M, V>(X, y, fr, false); }', dims=D, vals={'fr': FR}, req=rq, ens=ens_plain)
def perm_alts(it):
    out = []
    for nm, cnt in getattr(it, 'perms', []):
        for sym, inv_ in ((nm, nm.replace('perm!', 'pinv!')), (nm.replace('perm!', 'pinv!'), nm)):
            def ens(r, X, y, fr, sym=sym, inv_=inv_):
                g = lambda i: app(sym, (c(i),), 'I'); h = lambda i: app(inv_, (c(i),), 'I')
                yield 'one permutation of the rows: in range', Forall(X.rows, lambda i: and_(le(ZERO, g(i)), lt(g(i), X.rows)))
                yield 'one permutation of the rows: invertible', Forall(X.rows, lambda i: and_(eq(h(g(i)), i), eq(g(h(i)), i)))
                yield from split_at(r, X, y, fr, g)
            out.append(ens)
    return out or [lambda r, X, y, fr: [('some permutation of the samples is applied', FALSE)]]
def multiset(r, X, y, fr):
    tr, te, ytr, yte = r
    if tr['r'] + te['r'] != len(y) or len(ytr) != tr['r'] or len(yte) != te['r']: return 'sizes'
    got = sorted(list(a) + [b] for a, b in list(zip(tr['e'], ytr)) + list(zip(te['e'], yte)))
    return None if got == sorted(list(a) + [b] for a, b in zip(X['e'], y)) else 'rows and labels are not a permutation of the samples'
P.fn(RT + ' split_shuffled(const M& X, const V& y, double fr)', '{ return openml::data::train_test_split<M, V>(X, y, fr, true); }', dims=D, vals={'fr': FR}, req=rq,
     ens=lambda r, X, y, fr: split_shape(r, X, fr), ens_alts=perm_alts, oracle=multiset)
P.fn(RT + ' split_default(const M& X, const V& y)', '{ return openml::data::train_test_split<M, V>(X, y); }', dims=D,
     ens=lambda r, X, y: split_shape(r, X, c(Fraction(3, 4))), ens_alts=lambda it: [lambda r, X, y, a=a: a(r, X, y, c(Fraction(3, 4))) for a in perm_alts(it)],
     oracle=lambda r, X, y: multiset(r, X, y, .75))
def shuf_alts(pair):
    def alts(it):
        out = []
        for nm, cnt in getattr(it, 'perms', []):
            for sym in (nm, nm.replace('perm!', 'pinv!')):
                def ens(r, X, y=None, sym=sym):
                    g = lambda i: app(sym, (c(i),), 'I')
                    if pair:
                        yield 'rows permuted', Forall(X.rows, lambda i: Forall(X.cols, lambda j: eq(r.xs[0].f(i, j), X.f(g(i), j))))
                        yield 'labels permuted alike', Forall(X.rows, lambda i: eq(r.xs[1].f(i, ZERO), y.f(g(i), ZERO)))
                    else: yield 'rows permuted', Forall(X.rows, lambda i: Forall(X.cols, lambda j: eq(r.f(i, j), X.f(g(i), j))))
                out.append(ens)
        return out or [lambda *a: [('some permutation is applied', FALSE)]]
    return alts
P.fn('pair<M, V> shuffle_pair(const M& X, const V& y)', '{ M a = X; V b = y; openml::random::shuffle_data<M, V>(X, y, a, b); return {a, b}; }', dims=D, ens_alts=shuf_alts(True),
     oracle=lambda r, X, y: None if sorted(list(a) + [b] for a, b in zip(r[0]['e'], r[1])) == sorted(list(a) + [b] for a, b in zip(X['e'], y)) else 'not a joint permutation')
P.fn('M shuffle_rows(const M& X)', '{ M a; openml::random::shuffle_data<M>(X, a); return a; }', dims={'X': 'n d'}, ens_alts=shuf_alts(False),
     oracle=lambda r, X: None if sorted(r['e']) == sorted(X['e']) else 'rows are not a permutation')
def cols_alts(it):
    out = []
    for nm, cnt in getattr(it, 'perms', []):
        for sym in (nm, nm.replace('perm!', 'pinv!')):
            out.append(lambda r, X, sym=sym: [('columns permuted', Forall(X.rows, lambda i: Forall(X.cols, lambda j: eq(r.f(i, j), X.f(i, app(sym, (c(j),), 'I'))))))])
    return out or [lambda *a: [('some permutation is applied', FALSE)]]
P.fn('M shuffle_cols(const M& X)', '{ M a; openml::random::shuffle_data<M>(X, a, 0); return a; }', dims={'X': 'n d'}, ens_alts=cols_alts,
     oracle=lambda r, X: None if (r['r'], r['c']) == (X['r'], X['c']) and sorted(zip(*r['e'])) == sorted(zip(*X['e'])) else 'columns are not a permutation')
def perm_only(it):
    out = []
    for nm, cnt in getattr(it, 'perms', []):
        for sym, inv_ in ((nm, nm.replace('perm!', 'pinv!')), (nm.replace('perm!', 'pinv!'), nm)):
            out.append(lambda r, n, sym=sym, inv_=inv_: [('every index occurs exactly once', Forall(n, lambda i: and_(le(ZERO, r.f(i, ZERO)), lt(r.f(i, ZERO), n), eq(app(inv_, (r.f(i, ZERO),), 'I'), i), eq(r.f(app(inv_, (i,), 'I'), ZERO), i))))])
    return out or [lambda *a: [('some permutation', FALSE)]]
P.fn('I permutation(size_t n)', '{ return openml::random::permutation<I>(n); }', vals={'n': [1, 2, 3, 5, 8, 17]}, req=lambda n: [le(ONE, n)],
     ens=lambda r, n: [('length', eq(r.rows, n))], ens_alts=perm_only, oracle=lambda r, n: None if sorted(r) == list(range(n)) else 'not a permutation of 0..n-1')
def ens_div(r, X, f, th):
    L, R = r.xs
    hit = lambda i: le(X.f(i, f), th)
    yield 'left count', eq(L.n, Count(X.rows, hit))
    yield 'right count', eq(R.n, Count(X.rows, lambda i: not_(hit(i))))
    yield 'left rows in order', Forall(L.n, lambda k: eq(L.f(k), Nth(hit, k)))
    yield 'right rows in order', Forall(R.n, lambda k: eq(R.f(k), Nth(lambda i: not_(hit(i)), k)))
P.fn('tuple<vector<size_t>, vector<size_t>> divide(const M& X, size_t f, double th)', '{ return openml::data::divide_on_feature<M>(X, f, th); }', dims={'X': 'n d'}, ens=ens_div,
     gen=lambda g: (lambda n, d: [g.mat(n, d, [0., 1., 2., 1.5] if g.r.random() < .6 else None), g.r.randrange(d), g.pick([0., 1., 1.5, 2., .5, -1.])])(g.dim(1, 8), g.dim()),
     req=lambda X, f, th: [lt(f, X.cols)])
LL = 'vector<vector<double>>'
P.fn('M load_features(const %s& rows)' % LL, '{ M X; V y; openml::data::loadtxt<M, V>(vf_file(rows), X, y); return X; }', dims={'rows': 'n d'},
     ens=lambda r, x: mat_is(r, x.n, sub(x.f(ZERO).n, ONE), lambda i, j: x.f(i).f(j)))
P.fn('V load_labels(const %s& rows)' % LL, '{ M X; V y; openml::data::loadtxt<M, V>(vf_file(rows), X, y); return y; }', dims={'rows': 'n d'},
     ens=lambda r, x: vec_is(r, x.n, lambda i: x.f(i).f(sub(x.f(ZERO).n, ONE))))
P.fn('%s load_rows(const %s& rows)' % (LL, LL), '{ %s X; openml::data::loadtxt<double>(vf_file(rows), X); return X; }' % LL,
     gen=lambda g: [[g.vec(g.r.randint(0, 4)) for _ in range(g.r.randint(0, 5))]],
     ens=lambda r, x: [('row count', eq(r.n, x.n)), ('row lengths', Forall(x.n, lambda i: eq(r.f(i).n, x.f(i).n))), ('numbers in order', Forall(x.n, lambda i: Forall(x.f(i).n, lambda j: eq(r.f(i).f(j), x.f(i).f(j)))))])
P.fn('pair<%s, vector<double>> load_lists(const %s& rows)' % (LL, LL), '{ %s X; vector<double> y; openml::data::loadtxt<double>(vf_file(rows), X, y); return {X, y}; }' % LL, dims={'rows': 'n d'},
     ens=lambda r, x: [('row count', and_(eq(r.xs[0].n, x.n), eq(r.xs[1].n, x.n))), ('row lengths', Forall(x.n, lambda i: eq(r.xs[0].f(i).n, sub(x.f(ZERO).n, ONE)))),
                       ('features', Forall(x.n, lambda i: Forall(sub(x.f(ZERO).n, ONE), lambda j: eq(r.xs[0].f(i).f(j), x.f(i).f(j))))), ('labels', Forall(x.n, lambda i: eq(r.xs[1].f(i), x.f(i).f(sub(x.f(ZERO).n, ONE)))))])
P.fn('int load_missing(int k)', '{ M X; V y; vector<vector<double>> A; vector<double> b; if (k == 0) openml::data::loadtxt<M, V>("no/such/file", X, y); else if (k == 1) openml::data::loadtxt<double>("no/such/file", A); else openml::data::loadtxt<double>("no/such/file", A, b); return 0; }',
     cases=lambda g: [[0], [1], [2]], ncases=.05, throws=lambda k: TRUE, prove=False, note='unreadable file: executed only')
def rect(rows): return bool(rows) and bool(rows[0]) and all(len(w) == len(rows[0]) for w in rows)
for _nm, _body in (('matrix', 'M X; V y; openml::data::loadtxt<M, V>(vf_file(rows), X, y); return (int)X.rows();'), ('lists', 'vector<vector<double>> X; vector<double> y; openml::data::loadtxt<double>(vf_file(rows), X, y); return (int)X.size();')):
    P.fn('int load_ragged_%s(const %s& rows)' % (_nm, LL), '{ %s }' % _body, ncases=.5,
         gen=lambda g: [[g.vec(g.r.choice([3, 3, 3, 2, 4, 0])) for _ in range(g.r.randint(0, 4))]],
         throws=lambda x: or_(eq(x.n, ZERO), eq(x.f(ZERO).n, ZERO), Exists(x.n, lambda i: not_(eq(x.f(i).n, x.f(ZERO).n)))), ens=lambda r, x: [('row count', eq(r, x.n))])
