from spec import *
import numpy as np
P = Prop('P24')
P.include('methods/decomposition/pca.hpp', 'methods/decomposition/truncated_svd.hpp')
P.code(r"""
using PCA_ = openml::decomposition::PCA<double>;
using TSVD_ = openml::decomposition::TruncatedSVD<double>;
""")
none = lambda r, *a: []
def A(m): return np.array(m['e'], dtype=float).reshape(m['r'], m['c'])
def data(g, n, d, big=0):
    X = [[g.r.choice([g.r.uniform(-3, 3), float(g.r.randint(-3, 3))]) * (1 + 2 * j) + g.r.choice([0, 5]) for j in range(d)] for _ in range(n)]
    if d > 2 and g.r.random() < .2:
        for r in X: r[-1] = r[0] + r[1]
    return {'r': n, 'c': d, 'e': X}
# ---- svd_flip: one sign per singular pair, decided by the largest entry
def flip(u):
    def ens(r, U, Vt):
        W = U if u else Vt
        q = (lambda j: W.f(ArgMax(W.rows, lambda i: abs_(W.f(i, j))), j)) if u else (lambda j: W.f(j, ArgMax(W.cols, lambda i: abs_(W.f(j, i)))))
        sg = lambda j: sub(br(lt(ZERO, q(j))), br(lt(q(j), ZERO)))
        yield from mat_is(r.xs[0], U.rows, U.cols, lambda i, j: mul(sg(j), U.f(i, j)), 'flipped U')
        yield from mat_is(r.xs[1], Vt.rows, Vt.cols, lambda j, i: mul(sg(j), Vt.f(j, i)), 'flipped V^T')
    return ens
for u in (True, False):
    P.fn('std::tuple<M, M> flip_%s(const M& U, const M& Vt)' % ('u' if u else 'v'), '{ return openml::math::svd_flip<M, V, I>(U, Vt, %s); }' % ('true' if u else 'false'), dims={'U': 'n k', 'Vt': 'k d'},
         gen=lambda g: (lambda n, k, d: [g.mat(n, k), g.mat(k, d)])(g.r.randint(1, 4), g.r.randint(1, 4), g.r.randint(1, 4)), ens=flip(u))
    P.fn('M flip_product_%s(const M& U, const M& Vt, const V& s)' % ('u' if u else 'v'), '''{
  M A, B; std::tie(A, B) = openml::math::svd_flip<M, V, I>(U, Vt, %s);
  for (Idx j = 0; j < s.rows(); ++j) { double z = 0; %s if (z == 0) return A; }
  for (Idx i = 0; i < U.rows(); ++i) for (Idx k = 0; k < Vt.cols(); ++k) {
    double a = 0, b = 0;
    for (Idx j = 0; j < s.rows(); ++j) { a += A(i, j) * s(j) * B(j, k); b += U(i, j) * s(j) * Vt(j, k); }
    vf_assert(vf_zero(a - b), "the flip changes no reconstruction"); }
  return A; }''' % (('true', 'for (Idx i = 0; i < U.rows(); ++i) z += U(i, j) * U(i, j);') if u else ('false', 'for (Idx i = 0; i < Vt.cols(); ++i) z += Vt(j, i) * Vt(j, i);')),
         dims={'U': 'n k', 'Vt': 'k d', 's': 'k'}, gen=lambda g: (lambda n, k, d: [g.mat(n, k), g.mat(k, d), g.vec(k)])(g.r.randint(1, 4), g.r.randint(1, 4), g.r.randint(1, 4)), ens=none)
# ---- PCA
def gp(g):
    d = g.r.randint(1, 5) if g.r.random() < .85 else g.r.randint(16, 18)
    n = g.r.randint(2, 8)
    return n, d, g.r.randint(1, min(n, d))
def center(X): return X - X.mean(0)
def pca_ref(X):
    C = center(X); s = np.linalg.svd(C, compute_uv=False); return C, s
def near(a, b, t=1e-6): return np.allclose(a, b, rtol=t, atol=t * (1 + np.abs(b).max() if np.size(b) else 1))
def o_fit(r, X, k):
    X = A(X); k = int(k); C, s = pca_ref(X); n, d = X.shape
    comp, ev, ratio, sv = A(r[0]), np.array(r[1]), np.array(r[2]), np.array(r[3])
    if comp.shape != (k, d) or ev.shape != (k,) or ratio.shape != (k,) or sv.shape != (k,): return 'shapes of the fitted attributes'
    if not near(comp @ comp.T, np.eye(k)): return 'components are not orthonormal'
    if not near(sv, s[:k]): return 'singular values'
    if not near(ev, s[:k] ** 2 / (n - 1)): return 'explained variances are not the squared singular values over n-1'
    if np.any(np.diff(ev) > 1e-9 * (1 + ev[0])): return 'explained variances increase'
    tot = (s ** 2).sum() / (n - 1)
    if tot > 1e-9 and not near(ratio * tot, ev): return 'explained variance ratios'
    T_ = C @ comp.T
    if not near((T_ ** 2).sum(0), s[:k] ** 2, 1e-5): return 'the components do not carry the variance of their singular values'
small = lambda g, nm: (lambda n, d: (n, d, g.r.randint(1, min(n, d))))(*((lambda a, b: (max(a, b), min(a, b)) if nm == 'tall' else (max(2, min(a, b)), max(a, b) + 1))(g.r.randint(2, 8), g.r.randint(1, 5))))
tall = lambda X: le(X.cols, X.rows)
wide = lambda X: lt(X.rows, X.cols)
for nm, rq in (('tall', tall), ('wide', wide)):
    for sz, lim in (('', lambda X: lt(X.cols, c(16))), ('_big', lambda X: le(c(16), X.cols))):
        def gen(g, nm=nm, big=bool(sz)):
            n, d, k = small(g, nm)
            if big: d = g.r.randint(16, 18); n = d + g.r.randint(0, 2) if nm == 'tall' else g.r.randint(2, 7); k = g.r.randint(1, min(n, d))
            return [data(g, n, d), k]
        R = lambda X, k, rq=rq, lim=lim: [le(ONE, k), le(k, X.rows), le(k, X.cols), rq(X), lim(X)]
        P.fn('std::tuple<M, V, V, V> pca_fit_%s%s(const M& X, Idx k)' % (nm, sz), '''{
  PCA_ p("svd", (std::size_t)k); p.fit(X);
  M C = p.get_components(); V ev = p.get_explained_var(), ra = p.get_explained_var_ratio(), sv = p.get_singular_values();
  vf_assert(C.rows() == k && C.cols() == X.cols() && ev.rows() == k && ra.rows() == k && sv.rows() == k, "shapes of the fitted attributes");
  vf_same(C * C.transpose(), M::Identity(k, k), "the components are orthonormal");
  M Z = X.rowwise() - X.colwise().mean();
  M T = Z * C.transpose(), D = M::Zero(k, k); for (Idx i = 0; i < k; ++i) D(i, i) = sv(i) * sv(i);
  vf_same(T.transpose() * T, D, "the projections on the components are uncorrelated and carry the squared singular values");
  return std::make_tuple(C, ev, ra, sv); }''', dims={'X': 'n d'}, min={'n': 2}, req=R, gen=gen, oracle=o_fit, ens=lambda r, X, k: [
          ('explained variance is the squared singular value over n-1', Forall(k, lambda i: eq(r.xs[1].f(i, ZERO), div(mul(r.xs[3].f(i, ZERO), r.xs[3].f(i, ZERO)), sub(X.rows, ONE))))),
          ('explained variances do not increase', Forall(k, lambda i: Forall(k, lambda j: or_(lt(j, i), le(r.xs[1].f(j, ZERO), r.xs[1].f(i, ZERO))))))])
def o_tr(r, X, Z, k):
    comp, t = A(r[0]), A(r[1]); ref = (A(Z) - A(X).mean(0)) @ comp.T
    if t.shape != ref.shape or not near(t, ref): return 'the transform is not the projection of the data centred by the training mean'
KR = lambda X, Z, k: [le(ONE, k), le(k, X.rows), le(k, X.cols)]
P.fn('std::tuple<M, M> pca_transform(const M& X, const M& Z, Idx k)', '{ PCA_ p("svd", (std::size_t)k); p.fit(X); M t = p.transform(Z); return std::make_tuple(M(p.get_components()), t); }',
     dims={'X': 'n d', 'Z': 'm d'}, min={'n': 2}, req=KR, ens=lambda r, X, Z, k: mat_is(r.xs[1], Z.rows, k, lambda i, j: Sum(X.cols, lambda q: mul(sub(Z.f(i, q), div(Sum(X.rows, lambda s: X.f(s, q)), X.rows)), r.xs[0].f(j, q))), 'the data centred by the training mean, projected'), gen=lambda g: (lambda n, d, k: [data(g, n, d), data(g, g.r.randint(1, 4), d), k])(*gp(g)), oracle=o_tr)
def o_cov(r, X, Z, k):
    X = A(X); Z = A(Z); k = int(k); n, d = X.shape; C, s = pca_ref(X); m = min(n, d)
    comp, ev, cov, prec, sc = A(r[0]), np.array(r[1]), A(r[2]), A(r[3]), r[4]
    noise = (s[k:] ** 2).mean() / (n - 1) if k < m else 0.0
    ref = comp.T @ np.diag(np.maximum(ev - noise, 0)) @ comp + noise * np.eye(d)
    if cov.shape != (d, d) or not near(cov, ref): return 'covariance is not the model covariance'
    w = np.linalg.eigvalsh(ref)
    if w.min() < 1e-4: return None
    if not near(cov @ prec, np.eye(d), 1e-5): return 'precision is not the inverse of the covariance'
    D = Z - X.mean(0)
    ll = -.5 * np.einsum('ij,jk,ik->i', D, np.linalg.inv(ref), D) - .5 * (d * np.log(2 * np.pi) + np.log(w).sum())
    if not near(sc, ll.mean(), 1e-5): return 'the score %r is not the mean Gaussian log-likelihood %r' % (sc, ll.mean())
for nm, rq in (('tall', tall), ('wide', wide)):
    for sz, lim in (('', lambda X: lt(X.cols, c(16))), ('_big', lambda X: le(c(16), X.cols))):
        def gen(g, nm=nm, big=bool(sz)):
            n, d, k = small(g, nm)
            if big: d = g.r.randint(16, 18); n = d + g.r.randint(0, 2) if nm == 'tall' else g.r.randint(2, 7); k = g.r.randint(1, min(n, d))
            return [data(g, n, d), data(g, g.r.randint(1, 4), d), k]
        R = lambda X, Z, k, rq=rq, lim=lim: [le(ONE, k), le(k, X.rows), le(k, X.cols), rq(X), lim(X)]
        kw = dict(dims={'X': 'n d', 'Z': 'm d'}, min={'n': 2}, req=R, gen=gen, oracle=o_cov, ens=none)
        RET = 'return std::make_tuple(C, ev, cov, q, s); }'
        P.fn('std::tuple<M, V, M, M, double> pca_covariance_%s%s(const M& X, const M& Z, Idx k)' % (nm, sz), '''{
  PCA_ p("svd", (std::size_t)k); p.fit(X); M cov = p.get_covariance(), q = p.get_precision(); double s = p.score(Z);
  M C = p.get_components(); V ev = p.get_explained_var();
  M Y = X.rowwise() - X.colwise().mean();
  M U, V0; V sv; std::tie(U, sv, V0) = openml::math::exact_svd<M, V>(Y, false);
  Idx m = %s; double noise = 0, sum = 0;
  for (Idx i = 0; i < m - k; ++i) sum += sv(k + i) * sv(k + i) / (double)(X.rows() - 1);
  if (k < m) noise = sum / (double)(m - k);
  M D = M::Zero(k, k); for (Idx i = 0; i < k; ++i) D(i, i) = std::max(ev(i) - noise, 0.0);
  M N = C.transpose() * D * C + noise * M::Identity(X.cols(), X.cols());
  vf_assert(cov.rows() == X.cols() && cov.cols() == X.cols(), "shape of the covariance");
  vf_same(cov, N, "the covariance is that of the probabilistic PCA model");
  ''' % ('X.cols()' if nm == 'tall' else 'X.rows()') + RET, **kw)
        P.fn('std::tuple<M, V, M, M, double> pca_precision_%s%s(const M& X, const M& Z, Idx k)' % (nm, sz), '''{
  PCA_ p("svd", (std::size_t)k); p.fit(X); double s = p.score(Z); M q = p.get_precision(), cov = p.get_covariance();
  M C = p.get_components(); V ev = p.get_explained_var();
  M U, V0; V w; std::tie(U, w, V0) = openml::math::exact_svd<M, V>(cov, true);
  for (Idx i = 0; i < w.rows(); ++i) if (!(w(i) > 1e-6 && w(i) > 1e-4 * w(0))) return std::make_tuple(C, ev, cov, q, s);
  vf_assert(q.rows() == X.cols() && q.cols() == X.cols(), "shape of the precision");
  vf_same(cov * q, M::Identity(X.cols(), X.cols()), "the precision is the inverse of the covariance");
  vf_same(q * cov, M::Identity(X.cols(), X.cols()), "the precision is the inverse of the covariance");
  ''' + RET, **kw)
        P.fn('std::tuple<M, V, M, M, double> pca_score_%s%s(const M& X, const M& Z, Idx k)' % (nm, sz), '''{
  PCA_ p("svd", (std::size_t)k); p.fit(X); double s = p.score(Z); M q = p.get_precision(), cov = p.get_covariance();
  M C = p.get_components(); V ev = p.get_explained_var();
  double ld = openml::math::logdet<M>(q), tot = 0;
  M Y = Z.rowwise() - X.colwise().mean();
  for (Idx i = 0; i < Z.rows(); ++i) tot += (Y.row(i) * q * Y.row(i).transpose())(0, 0);
  if (ld > -1e300) vf_assert(vf_zero(s - (-0.5 * tot / (double)Z.rows() - 0.5 * ((double)X.cols() * std::log(2.0 * M_PI) - ld))), "the score is the mean Gaussian log-likelihood under the precision");
  ''' + RET, **kw)
# ---- truncated SVD
def o_ts(r, X, Z, k, p, q, nrm):
    X = A(X); Z = A(Z); k = int(k); n, d = X.shape
    comp, ev, ratio, sv, t = A(r[0]), np.array(r[1]), np.array(r[2]), np.array(r[3]), A(r[4])
    if comp.shape != (k, d) or ev.shape != (k,) or ratio.shape != (k,) or sv.shape != (k,): return 'shapes of the fitted attributes'
    if not near(comp @ comp.T, np.eye(k)): return 'components are not orthonormal'
    if np.any(sv < -1e-9) or np.any(np.diff(sv) > 1e-9 * (1 + sv[0])): return 'singular values increase or are negative'
    T_ = X @ comp.T
    if not near(ev, T_.var(0), 1e-5): return 'explained variances are not the variances of the transformed data'
    tv = X.var(0).sum()
    if tv > 1e-9 and not near(ratio * tv, ev, 1e-5): return 'explained variance ratios'
    if t.shape != (Z.shape[0], k) or not near(t, Z @ comp.T): return 'the transform is not the projection onto the components'
    s = np.linalg.svd(X, compute_uv=False)
    if k + int(p) >= min(n, d) and not near(sv, s[:k], 1e-5): return 'singular values of the full-rank range'
    if np.any(sv > s[:k] * (1 + 1e-9) + 1e-9): return 'singular values exceed those of the data'
def gts(nrm, wide_):
    def gen(g):
        d = g.r.randint(2, 7); n = g.r.randint(2, 9)
        if wide_ and n >= d: n, d = d, n + 1
        if not wide_ and n < d: n, d = d, n
        m = min(n, d); k = g.r.randint(1, m); p = g.r.randint(0, m - k)
        return [data(g, n, d), data(g, g.r.randint(1, 4), d), k, p, g.r.randint(0, 3)]
    return gen
for nrm in ('LU', 'QR', 'None'):
    for nm, rq in (('tall', tall), ('wide', wide)):
        P.fn('std::tuple<M, V, V, V, M> tsvd_%s_%s(const M& X, const M& Z, Idx k, Idx p, Idx q)' % (nrm, nm), '''{
  TSVD_ t((std::size_t)k, (std::size_t)p, (std::size_t)q, "randomized", "%s"); t.fit(X);
  M C = t.get_components(); V ev = t.get_explained_var(), ra = t.get_explained_var_ratio(), sv = t.get_singular_values(); M tr = t.transform(Z);
  vf_assert(C.rows() == k && C.cols() == X.cols() && ev.rows() == k && ra.rows() == k && sv.rows() == k, "shapes of the fitted attributes");
  vf_same(C * C.transpose(), M::Identity(k, k), "the components are orthonormal");
  vf_same(tr, Z * C.transpose(), "the transform is the projection onto the components");
  return std::make_tuple(C, ev, ra, sv, tr); }''' % nrm, dims={'X': 'n d', 'Z': 'm d'}, req=lambda X, Z, k, p, q, rq=rq: [le(ONE, k), le(ZERO, p), le(ZERO, q), le(add(k, p), X.rows), le(add(k, p), X.cols), rq(X), lt(X.cols, c(16))],
          gen=gts(nrm, nm == 'wide'), oracle=lambda r, X, Z, k, p, q, nrm=nrm: o_ts(r, X, Z, k, p, q, nrm), ens=lambda r, X, Z, k, p, q: [
            ('explained variances are the variances of the transformed training data', Forall(k, lambda j: (lambda t: eq(r.xs[1].f(j, ZERO), sub(div(Sum(X.rows, lambda i: mul(t(i), t(i))), X.rows), (lambda m: mul(m, m))(div(Sum(X.rows, t), X.rows)))))(lambda i: Sum(X.cols, lambda q_: mul(X.f(i, q_), r.xs[0].f(j, q_)))))),
            ('singular values do not increase', Forall(k, lambda i: Forall(k, lambda j: or_(lt(j, i), le(r.xs[3].f(j, ZERO), r.xs[3].f(i, ZERO))))))])
