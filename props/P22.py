from spec import *
import numpy as np
P = Prop('P22')
P.include('methods/cluster/kmeans.hpp')
none = lambda r, *a: []
def D(a): a = np.array(a, dtype=float); return {'r': a.shape[0], 'c': a.shape[1], 'e': a.tolist()}
def dist(X, C): return lambda i, j: sqrt(Sum(X.cols, lambda a: (lambda e: mul(e, e))(sub(X.f(i, a), C.f(j, a)))))
def near(X, C): return lambda i: ArgMin(C.rows, lambda j: dist(X, C)(i, j))
def gen(g):
    n, d, k = g.r.randint(1, 7), g.r.randint(1, 3), g.r.randint(1, 4)
    return [g.mat(n, d), g.mat(k, d)]
def gen_k(g):
    n, d = g.r.randint(1, 7), g.r.randint(1, 3); k = g.r.randint(1, n)
    return [g.mat(n, d), k]
DX = {'X': 'n d', 'C': 'k d'}
O = 'openml::cluster::KMeans<double> o("%s", 1, (size_t)%s, %s, %s);'
P.fn('V labels(const M& X, const M& C)', '{ %s o.centroids_ = C; return o.predict(X); }' % (O % ('random', 'C.rows()', 1, '1e-4')), dims=DX, gen=gen, internal=True,
     ens=lambda r, X, C: vec_is(r, X.rows, near(X, C), 'index of a nearest centroid'))
def moved(r, X, C):
    m = lambda j: Count(X.rows, lambda i: eq(near(X, C)(i), j))
    yield 'shape', and_(eq(r.rows, C.rows), eq(r.cols, C.cols))
    yield 'centroids of non-empty clusters move to the mean of their samples', Forall(C.rows, lambda j: Forall(C.cols, lambda a: implies(lt(0, m(j)), eq(mul(r.f(j, a), m(j)), Sum(X.rows, lambda i: ite(eq(near(X, C)(i), j), X.f(i, a), 0))))))
    yield 'centroids of empty clusters stay', Forall(C.rows, lambda j: Forall(C.cols, lambda a: implies(eq(0, m(j)), eq(r.f(j, a), C.f(j, a)))))
P.fn('M lloyd_step(const M& X, const M& C)', '{ %s o.centroids_ = C; o.kmeans_lloyd(X); return o.centroids_; }' % (O % ('random', 'C.rows()', 1, '1e-4')), dims=DX, gen=gen, internal=True, ens=moved)
P.fn('M random_start(const M& X, size_t k)', '{ %s o.init_centroid(X, V()); return o.centroids_; }' % (O % ('random', 'k', 1, '1e-4')), dims={'X': 'n d'}, gen=gen_k, internal=True,
     req=lambda X, k: [lt(0, k), le(k, X.rows)], ens=lambda r, X, k: [('shape', and_(eq(r.rows, k), eq(r.cols, X.cols))),
         ('every start is a sample', Forall(r.rows, lambda j: Exists(X.rows, lambda i: Forall(X.cols, lambda a: eq(r.f(j, a), X.f(i, a))))))])
P.fn('M random_start_distinct(const M& X, size_t k)', '{ %s o.init_centroid(X, V()); return o.centroids_; }' % (O % ('random', 'k', 1, '1e-4')), dims={'X': 'n d'}, gen=gen_k, internal=True,
     req=lambda X, k: [lt(0, k), le(k, X.rows), Forall(X.rows, lambda i: Forall(i, lambda j: Exists(X.cols, lambda a: ne(X.f(i, a), X.f(j, a)))))], ens=lambda r, X, k: [
         ('starts are distinct samples', Forall(r.rows, lambda i: Forall(i, lambda j: Exists(X.cols, lambda a: ne(r.f(i, a), r.f(j, a))))))])
def o_starts(ret, X, k, distinct=True):
    A, S = np.array(X['e']), np.array(ret['e'])
    if S.shape != (k, A.shape[1]): return 'shape'
    idx = []
    for row in S:
        m = [i for i in range(len(A)) if (A[i] == row).all()]
        if not m: return 'a start is not a sample'
        idx.append(m)
P.fn('M plusplus_start(const M& X, size_t k)', '{ %s o.init_centroid(X, V()); return o.centroids_; }' % (O % ('kmeans++', 'k', 1, '1e-4')), dims={'X': 'n d'}, gen=gen_k, internal=True,
     oracle=o_starts, prove=False, note='k-means++ starts are samples: checked by replay only (the potential-driven choice is carried through two nested loops)')
# --- the whole fit, through the public interface (bounded)
def o_fit(ret, X, k, it):
    A, S = np.array(X['e']), np.array(ret[0]['e']); lab = np.array(ret[1])
    if S.shape != (k, A.shape[1]): return 'shape of the centroids'
    D = ((A[:, None, :] - S[None, :, :]) ** 2).sum(2)
    for i in range(len(A)):
        if not 0 <= lab[i] < k or lab[i] != int(lab[i]): return 'label out of range'
        if D[i, int(lab[i])] > D[i].min() + 1e-9 * (1 + D[i].min()): return 'sample %d is not labelled with a nearest centroid' % i
    # after convergence a further Lloyd step does not lower the objective
    if it >= 100:
        for j in range(k):
            m = lab == j
            if m.any() and np.abs(A[m].mean(0) - S[j]).max() > 2e-3 * (1 + np.abs(A).max()): return 'centroid %d is not the mean of its samples' % j
    lo, hi = A.min(0), A.max(0)
    if (S < lo - 1e-9 * (1 + abs(lo))).any() or (S > hi + 1e-9 * (1 + abs(hi))).any(): return 'a centroid lies outside the range of the data'
def gen_fit(g): return gen_k(g) + [g.r.choice([1, 2, 100, 300])]
for init in ('random', 'kmeans++'):
    P.fn('pair<M,V> fit_%s(const M& X, size_t k, size_t it)' % init.replace('++', '_pp'), '{ %s o.fit(X); V y = o.predict(X); M c = o.centroids_; return std::make_pair(c, y); }' % (O % (init, 'k', 'it', '1e-6')),
         dims={'X': 'n d'}, gen=gen_fit, oracle=o_fit, internal=True, prove=False, note='the number of Lloyd iterations depends on the data: whole fits are checked by replay')
def o_labels(ret, X, k):
    A, lab = np.array(X['e']), np.array(ret)
    if len(lab) != len(A): return 'one label per sample'
    if ((lab < 0) | (lab >= k) | (lab != lab.astype(int))).any(): return 'label out of range'
    C = {j: A[lab == j].mean(0) for j in set(lab.tolist())}
    for i in range(len(A)):
        own = ((A[i] - C[lab[i]]) ** 2).sum()
        if any(((A[i] - C[j]) ** 2).sum() < own - 1e-3 * (1 + np.abs(A).max()) ** 2 for j in C): return 'sample %d is closer to the mean of another cluster' % i
for init in ('random', 'kmeans++'):
    P.fn('V clusters_%s(const M& X, size_t k)' % init.replace('++', '_pp'), '{ openml::cluster::KMeans<double> o("%s", 1, k, 300, 1e-6); o.fit(X); return o.predict(X); }' % init,
         dims={'X': 'n d'}, gen=gen_k, oracle=o_labels, prove=False, note='whole fits through the public interface are checked by replay')
