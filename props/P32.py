from spec import *
P = Prop('P32')
P.include('methods/neighbors/k_nearest_neighbors.hpp')
P.code('using KN = openml::neighbors::KNearestNeighbors<double>; using RV = Eigen::Matrix<double, 1, -1>; inline KN* vf_make(KN*) { return new KN(); }')
NOTE = 'sorting of (distance, label) pairs and tree search are executed against brute force; the tree search itself is P25'
MET = {'euclidean': lambda a, b: sum((x - z) ** 2 for x, z in zip(a, b)) ** .5, 'manhattan': lambda a, b: sum(abs(x - z) for x, z in zip(a, b)), 'chebyshev': lambda a, b: max(abs(x - z) for x, z in zip(a, b))}
def mk_mat(X): return {'r': len(X), 'c': len(X[0]), 'e': X}
def gen(g):
    n, d = g.r.randint(1, 14), g.r.randint(1, 3); f = g.r.choice([lambda: float(g.r.randint(0, 3)), lambda: float(g.r.randint(-9, 9)), lambda: round(g.r.uniform(-4, 4), 3)])
    X = [[f() for _ in range(d)] for _ in range(n)]
    labs = g.r.choice([[0., 1.], [1., 2.], [0., 1., 2.], [-1., 1.], [3., 7., 7.5]])
    Q = [list(X[g.r.randrange(n)]) if g.r.random() < .3 else [f() for _ in range(d)] for _ in range(g.r.randint(1, 5))]
    return [mk_mat(X), [g.r.choice(labs) for _ in range(n)], mk_mat(Q), g.r.randint(1, n), g.r.choice([1, 2, 3, 10])]
def votes(D, y, k):
    """labels that win the vote of k nearest samples, for some choice among equally distant ones"""
    import itertools
    o = sorted(range(len(D)), key=lambda i: D[i]); cut = D[o[k - 1]]; e = 1e-9 * (1 + cut)
    sure = [i for i in o if D[i] < cut - e]; tie = [i for i in o if abs(D[i] - cut) <= e]; need = k - len(sure)
    cnt = lambda L, v: sum(1 for i in L if y[i] == v); labs = sorted(set(y)); out = set()
    T = {v: cnt(tie, v) for v in labs}; S = {v: cnt(sure, v) for v in labs}
    for c in itertools.product(*[range(T[v] + 1) for v in labs]):
        if sum(c) != need: continue
        tot = [S[v] + m for v, m in zip(labs, c)]; out |= {v for v, t in zip(labs, tot) if t == max(tot)}
    return out
def oracle(metric):
    def o(r, X, y, Q, k, leaf=10):
        if len(r) != Q['r']: return 'one label per query'
        for p, q in zip(r, Q['e']):
            w = votes([MET[metric](x, q) for x in X['e']], y, k)
            if p not in w: return 'query %s: the nearest %d samples vote for %s, predicted %s' % (q, k, sorted(w), p)
    return o
for s, ms in (('brute', ('euclidean', 'manhattan')), ('kdtree', ('euclidean', 'manhattan', 'chebyshev'))):
    for m in ms:
        P.fn('V vote_%s_%s(const M& X, const V& y, const M& Q, size_t k, size_t leaf)' % (s, m), '{ KN t(leaf, k, "%s", "%s"); t.fit(X, y); return t.predict(Q); }' % (s, m), gen=gen, oracle=oracle(m), prove=False, note=NOTE, ncases=200)
def gen15(g):
    a = gen(g); n = len(a[1])
    while n < 15:
        a[0]['e'].append(list(g.r.choice(a[0]['e']))); a[1].append(g.r.choice(a[1])); n += 1; a[0]['r'] = n
    return a[:3]
P.fn('V vote_default(const M& X, const V& y, const M& Q)', '{ KN t; t.fit(X, y); return t.predict(Q); }', gen=gen15, oracle=lambda r, X, y, Q: oracle('euclidean')(r, X, y, Q, 15), prove=False, note=NOTE, ncases=60)
P.fn('bool brute_metric_names(const M& X, const V& y, const M& Q)', '{ KN t(10, 1, "brute", "nosuch"); t.fit(X, y); t.predict(Q); return true; }', gen=lambda g: gen(g)[:3], throws=lambda *a: TRUE, prove=False, note=NOTE, ncases=5)
