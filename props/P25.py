from spec import *
import numpy as np, math
P = Prop('P25')
P.include('core/tree/kd_tree.hpp')
P.code('using NN = std::vector<std::pair<double, std::size_t>>; using RV = Eigen::Matrix<double, 1, -1>; using KT = openml::tree::KDTree<double>;')
METRICS = {'manhattan': 1, 'euclidean': 2, 'chebyshev': 'inf'}
def D(A, q, m):
    d = np.abs(np.array(A) - np.array(q))
    if d.size == 0: return np.zeros(len(A))
    return d.sum(1) if m == 'manhattan' else np.sqrt((d ** 2).sum(1)) if m == 'euclidean' else d.max(1)
def pts(g, n, d, kind):
    if kind == 0: return g.mat(n, d)
    if kind == 1: return [[float(g.r.randint(-2, 2)) for _ in range(d)] for _ in range(n)]     # many ties
    if kind == 2: return [[g.r.uniform(-1, 1) * 10 ** (j - 1) for j in range(d)] for _ in range(n)]   # unequal spreads
    return [[g.r.uniform(-5, 5) for _ in range(d)] for _ in range(n)]
def mk_mat(rows): return {'r': len(rows), 'c': len(rows[0]), 'e': rows}
def gen(metric):
    def go(g):
        n, d = g.r.randint(1, 40), g.r.randint(1, 4); kind = g.r.randint(0, 3)
        X = pts(g, n, d, kind); Q = pts(g, g.r.randint(1, 3), d, kind)
        X = X if isinstance(X, dict) else mk_mat(X); Q = Q if isinstance(Q, dict) else mk_mat(Q)
        if g.r.random() < .3: Q['e'][0] = list(X['e'][g.r.randrange(n)])
        return [X, Q, g.r.randint(1, n), g.r.choice([1, 1, 2, 3, 10])]
    return go
def o_query(metric):
    def o(ret, X, Q, k, leaf):
        dist, idx = ret
        if (dist['r'], dist['c']) != (Q['r'], k) or (idx['r'], idx['c']) != (Q['r'], k): return 'shape of the answer'
        for i in range(Q['r']):
            true = D(X['e'], Q['e'][i], metric); dd, ii = dist['e'][i], [int(x) for x in idx['e'][i]]
            if len(set(ii)) != k or not all(0 <= a < X['r'] for a in ii): return 'query %d: neighbours are not distinct samples: %s' % (i, ii)
            for a, b in zip(ii, dd):
                if abs(true[a] - b) > 1e-9 * (1 + b): return 'query %d: distance of sample %d is %g, reported %g' % (i, a, true[a], b)
            if any(dd[j] > dd[j + 1] for j in range(k - 1)): return 'query %d: distances not in order' % i
            rest = [true[a] for a in range(X['r']) if a not in ii]
            if rest and min(rest) < dd[-1] - 1e-9 * (1 + dd[-1]): return 'query %d: a sample at distance %g was missed (farthest answer %g)' % (i, min(rest), dd[-1])
    return o
def gen_r(metric):
    def go(g):
        X, Q, k, leaf = gen(metric)(g); Q = mk_mat(Q['e'][:1])
        # a radius that is exactly a distance, or any
        true = D(X['e'], Q['e'][0], metric)
        r = float(true[g.r.randrange(X['r'])]) if g.r.random() < .5 else g.r.choice([.5, 1., 2., 4., 0.])
        return [X, Q, r, leaf]
    return go
def o_radius(metric):
    def o(ret, X, Q, r, leaf):
        true = D(X['e'], Q['e'][0], metric)
        got = sum(ret, [])
        ids = [int(b) for a, b in got]
        if len(set(ids)) != len(ids): return 'a sample is reported twice'
        for a, b in got:
            if abs(true[int(b)] - a) > 1e-9 * (1 + a): return 'distance of sample %d is %g, reported %g' % (b, true[int(b)], a)
            if true[int(b)] > r + 1e-9 * (1 + r): return 'sample %d is outside the radius' % b
        # exact equality is judged only where the distance is computed without rounding
        exact = all(float(x).is_integer() for row in X['e'] + Q['e'] for x in row) and (metric != 'euclidean' or X['c'] == 1)
        for a in range(X['r']):
            if a not in ids and (true[a] <= r if exact else true[a] < r - 1e-9 * (1 + r)): return 'sample %d at distance %g is missing (radius %g)' % (a, true[a], r)
    return o
NOTE = 'whole trees (worklist loops over heap-allocated nodes) are checked by replay against brute force; the pruning test, the split axis and the leaf scan are under contract'
for m in METRICS:
    P.fn('pair<M,M> query_%s(const M& X, const M& Q, size_t k, size_t leaf)' % m, '{ KT t(X, leaf, "%s"); auto r = t.query(Q, k); M i = r.second.template cast<double>(); return std::make_pair(M(r.first), i); }' % m, dims={'X': 'n d', 'Q': 'm d'}, gen=gen(m), oracle=o_query(m), prove=False, note=NOTE, ncases=150)
    P.fn('vector<vector<pair<double,size_t>>> radius_%s(const M& X, const M& Q, double r, size_t leaf)' % m, '{ KT t(X, leaf, "%s"); return t.query_radius(Q, r); }' % m, dims={'X': 'n d', 'Q': 'm d'}, gen=gen_r(m), oracle=o_radius(m), prove=False, note=NOTE, ncases=150)

# ---- internal contracts: what the pruning, the split and the leaf scan must guarantee for the search to be exact
P.code('inline KT* vf_make(KT*) { return new KT(M::Zero(1, 1)); }')
Q = 'KT& t = vf_blank<KT>(); t.ord_ = %s; RV row = q.transpose(); '
ORD = {'1': 'manhattan', '2': 'euclidean', 'Eigen::Infinity': 'chebyshev'}
def tdist(m, n, f):
    return Sum(n, lambda j: abs_(f(j))) if m == 'manhattan' else sqrt(Sum(n, lambda j: mul(f(j), f(j)))) if m == 'euclidean' else Max(n, lambda j: abs_(f(j)))
def clamp(rect, q, j): return ite(lt(q.f(j,0), rect.f(0, j)), rect.f(0, j), ite(lt(rect.f(1, j), q.f(j,0)), rect.f(1, j), q.f(j,0)))
for o, m in ORD.items():
    P.fn('bool meets_%s(const M& rect, const V& q, double r)' % m, '{ ' + Q % o + 'return t.check_intersection(rect, row, r); }', dims={'rect': '2 d', 'q': 'd'}, internal=True, min={'d': 1}, gen=lambda g: (lambda d: [mk_mat([[-1. * g.r.randint(0, 2) for _ in range(d)], [1. * g.r.randint(0, 2) for _ in range(d)]]), [float(g.r.randint(-4, 4)) for _ in range(d)], float(g.r.randint(0, 4))])(g.r.randint(1, 3)),
      req=lambda rect, q, rad: [Forall(q.rows, lambda j: le(rect.f(0, j), rect.f(1, j)))],
      ens=lambda r, rect, q, rad, m=m: [('a box is searched exactly when its nearest point is within the radius', eq(r, le(tdist(m, q.rows, lambda j: sub(clamp(rect, q, j), q.f(j,0))), rad)))])
    P.fn('vector<pair<double,size_t>> leaf_%s(const V& q, const M& X, const I& ids, size_t k)' % m, '{ ' + Q % o + 'return t.compute_distance(row, X, ids, k); }', dims={'q': 'd', 'X': 'n d', 'ids': 'n'}, internal=True, min={'d': 1, 'n': 1},
      req=lambda q, X, ids, k: [Forall(ids.rows, lambda i: le(0, ids.f(i,0)))],
      gen=lambda g: (lambda n, d: [[float(g.r.randint(-3, 3)) for _ in range(d)], g.mat(n, d), g.r.sample(range(50), n), g.r.randint(1, 8)])(g.r.randint(1, 6), g.r.randint(1, 3)),
      ens=lambda r, q, X, ids, k, m=m: leaf_ens(r, q, X, ids, k, m))
def leaf_ens(r, q, X, ids, k, m):
    n = X.rows; kk = ite(le(n, k), n, k)
    dist = lambda i: tdist(m, q.rows, lambda j: sub(X.f(i, j), q.f(j,0)))
    yield 'as many candidates as asked for or present', eq(r.n, kk)
    yield 'distances are the smallest, in order', Forall(kk, lambda i: eq(r.f(i).xs[0], Ksm(n, dist, i)))
    yield 'each candidate is a sample of the leaf with its own distance', Forall(kk, lambda i: Exists(n, lambda a: and_(eq(r.f(i).xs[1], ids.f(a,0)), eq(r.f(i).xs[0], dist(a)))))
P.fn('size_t split_axis(const M& X)', '{ return vf_blank<KT>().find_partition_axis(X); }', dims={'X': 'n d'}, min={'n': 1, 'd': 1}, internal=True,
  ens=lambda r, X: split_ens(r, X))
def split_ens(r, X):
    spread = lambda j: sub(Max(X.rows, lambda i: X.f(i, j)), Min(X.rows, lambda i: X.f(i, j)))
    yield 'the axis is a feature', and_(le(0, r), lt(r, X.cols))
    yield 'the axis has the largest spread', Forall(X.cols, lambda j: le(spread(j), spread(r)))
for o, m in ORD.items():      # what makes skipping a box sound: no point of a skipped box is within the radius
    P.fn('bool pruned_%s(const M& rect, const V& q, const V& p, double r)' % m, '{ ' + Q % o + 'return t.check_intersection(rect, row, r); }', dims={'rect': '2 d', 'q': 'd', 'p': 'd'}, internal=True, min={'d': 1},
      gen=lambda g: (lambda d: [mk_mat([[-1. * g.r.randint(0, 2) for _ in range(d)], [1. * g.r.randint(0, 2) for _ in range(d)]]), [float(g.r.randint(-4, 4)) for _ in range(d)], [float(g.r.randint(-2, 2)) for _ in range(d)], float(g.r.randint(0, 4))])(g.r.randint(1, 3)),
      req=lambda rect, q, p, rad: [Forall(q.rows, lambda j: le(rect.f(0, j), p.f(j, 0))), Forall(q.rows, lambda j: le(p.f(j, 0), rect.f(1, j)))],
      ens=lambda r, rect, q, p, rad, m=m: [('a box holding a point within the radius is searched', or_(lt(rad, tdist(m, q.rows, lambda j: sub(p.f(j, 0), q.f(j, 0)))), r))])
