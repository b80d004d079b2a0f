from spec import *
import numpy as np
from fractions import Fraction
P = Prop('P23')
P.include('methods/mixture/gaussian_mixture.hpp')
def A(m): return np.array(m['e'], dtype=float).reshape(m['r'], m['c'])
def D(a): return {'r': a.shape[0], 'c': a.shape[1], 'e': a.tolist()}
none = lambda r, *a: []
HALF = c(Fraction(1, 2)); PI = c(Fraction('3.141592653589793')); EPS10 = c(Fraction(10) * Fraction(2) ** -52)
def spd(g, d):
    B = np.array([[g.r.uniform(-1, 1) for _ in range(d)] for _ in range(d)]); return B @ B.T + g.r.uniform(.2, 1) * np.eye(d)
def upper(g, d): return np.array([[g.r.uniform(.3, 2) if a == b else g.r.uniform(-1, 1) if a < b else 0. for b in range(d)] for a in range(d)])
def prior(g, k):
    p = [g.r.uniform(.2, 1) for _ in range(k)]; t = sum(p); return [x / t for x in p]
MK = 'openml::mixture_model::GaussianMixture<double> o(20, 1, %s, "random", "%s", 0.001, %s);'
SET = 'o.precisions_cholesky_ = pc; o.means_ = mu; o.weights_ = w;'
G0 = 'const M& X, const M& mu, const vector<M>& pc, const V& w'
def diagpos(pc): return Forall(pc.n, lambda k: Forall(pc.f(k).rows, lambda a: lt(ZERO, pc.f(k).f(a, a))))
for ct in ('full', 'tied'):
    at = (lambda k: k) if ct == 'full' else (lambda k: ZERO)
    GD = {'X': 'n d', 'mu': 'k d', 'pc': ('k' if ct == 'full' else '1') + ' d d', 'w': 'k'}
    def gen(g, ct=ct):
        n, d, k = g.r.randint(1, 5), g.r.randint(1, 3), g.r.randint(1, 4)
        return [g.mat(n, d), g.mat(k, d), [D(upper(g, d)) for _ in range(k if ct == 'full' else 1)], prior(g, k)]
    def lp(X, mu, pc, at=at):   # log N(x | mu_k, (U U')^-1)
        d = X.cols
        return lambda i, k: add(mul(Fraction(-1, 2), Sum(d, lambda b: (lambda e: mul(e, e))(Sum(d, lambda a: mul(sub(X.f(i, a), mu.f(k, a)), pc.f(at(k)).f(a, b)))))),
                                mul(Fraction(-1, 2), d, log(mul(2, PI))), Sum(d, lambda a: log(pc.f(at(k)).f(a, a))))
    def req(X, mu, pc, w): return [diagpos(pc), Forall(w.rows, lambda i: lt(ZERO, w.f(i, ZERO)))]
    mk = MK % ('(size_t)mu.rows()', ct, '1e-6')
    P.fn('M log_density_%s(%s)' % (ct, G0), '{ %s %s return o.estimate_log_prob(o.precisions_cholesky_, X, o.means_); }' % (mk, SET), dims=GD, req=req, gen=gen, internal=True,
         ens=lambda r, X, mu, pc, w, lp=lp: mat_is(r, X.rows, mu.rows, lp(X, mu, pc), 'log-density of the component'))
    P.fn('M responsibilities_%s(%s)' % (ct, G0), '{ %s %s return o.predict_prob(X); }' % (mk, SET), dims=GD, req=req, gen=gen, internal=True,
         ens=lambda r, X, mu, pc, w, lp=lp: mat_is(r, X.rows, mu.rows, lambda i, k: (lambda f: div(exp(f(k)), Sum(mu.rows, lambda q: exp(f(q)))))(lambda q: add(lp(X, mu, pc)(i, q), log(w.f(q, ZERO)))), 'responsibility')
            + [('non-negative', Forall(X.rows, lambda i: Forall(mu.rows, lambda k: le(ZERO, r.f(i, k))))), ('sum to one', Forall(X.rows, lambda i: eq(Sum(mu.rows, lambda k: r.f(i, k)), ONE)))])
    P.fn('V labels_%s(%s)' % (ct, G0), '{ %s %s return o.predict(X); }' % (mk, SET), dims=GD, req=req, gen=gen, internal=True,
         ens=lambda r, X, mu, pc, w, lp=lp: vec_is(r, X.rows, lambda i: ArgMax(mu.rows, lambda q: add(lp(X, mu, pc)(i, q), log(w.f(q, ZERO)))), 'label of the largest responsibility'))
    def geng(g):
        n, d, k = g.r.randint(1, 6), g.r.randint(1, 3), g.r.randint(1, 4)
        R = np.array([prior(g, k) for _ in range(n)])
        return [g.mat(n, d), D(np.log(R)), g.r.choice([.5, 1., 1e-1])]
    RD = {'X': 'n d', 'L': 'n k'}
    def nk(L): return lambda k: add(Sum(L.rows, lambda i: exp(L.f(i, k))), EPS10)
    def means(X, L): return lambda k, a: div(Sum(X.rows, lambda i: mul(exp(L.f(i, k)), X.f(i, a))), nk(L)(k))
    mk2 = MK % ('(size_t)L.cols()', ct, 'reg')
    def wm(r, X, L, reg):
        return vec_is(r, L.cols, lambda k: div(nk(L)(k), X.rows), 'weights are the mean responsibilities')
    def mm(r, X, L, reg): return mat_is(r, L.cols, X.cols, means(X, L), 'means are the responsibility-weighted sample means')
    def cm(r, X, L, reg, ct=ct):
        d = X.cols; K = L.cols; mu = means(X, L); N = nk(L)
        if ct == 'full': f = lambda k: lambda a, b: add(div(Sum(X.rows, lambda i: mul(exp(L.f(i, k)), sub(X.f(i, a), mu(k, a)), sub(X.f(i, b), mu(k, b)))), N(k)), ite(eq(a, b), reg, 0))
        else: f = lambda k: lambda a, b: add(div(sub(Sum(X.rows, lambda i: mul(X.f(i, a), X.f(i, b))), Sum(K, lambda q: mul(N(q), mu(q, a), mu(q, b)))), Sum(K, N)), ite(eq(a, b), reg, 0))
        yield 'one covariance per component' if ct == 'full' else 'one covariance', eq(r.n, K if ct == 'full' else ONE)
        yield 'covariance shapes', Forall(r.n, lambda k: and_(eq(r.f(k).rows, d), eq(r.f(k).cols, d)))
        yield 'covariances are the responsibility-weighted ones', Forall(r.n, lambda k: Forall(d, lambda a: Forall(d, lambda b: eq(r.f(k).f(a, b), f(k)(a, b)))))
    mreq = lambda X, L, reg: [lt(ZERO, reg)]
    ms = '{ %s o.m_step(X, L); return o.%%s; }' % mk2
    P.fn('V m_weights_%s(const M& X, const M& L, double reg)' % ct, ms % 'get_weights()', dims=RD, req=mreq, gen=geng, internal=True, proof_may_throw=True, ens=wm)
    P.fn('M m_means_%s(const M& X, const M& L, double reg)' % ct, ms % 'get_means()', dims=RD, req=mreq, gen=geng, internal=True, proof_may_throw=True, ens=mm)
    P.fn('vector<M> m_covariances_%s(const M& X, const M& L, double reg)' % ct, ms % 'get_covariance()', dims=RD, req=mreq, gen=geng, internal=True, proof_may_throw=True, ens=cm)
def gencov(g):
    d, k = g.r.randint(1, 4), g.r.randint(1, 3)
    return [[D(spd(g, d)) for _ in range(k)]]
P.fn('size_t precision_factors(const vector<M>& C)', '''{
  for (size_t k = 0; k < C.size(); ++k) { if (!vf_spd(C[k])) return 0; }
  openml::mixture_model::GaussianMixture<double> o(20, 1, C.size(), "random", "full", 0.001, 1e-6);
  vector<M> pc = o.compute_precision_cholesky(C);
  vf_assert(pc.size() == C.size(), "one factor per covariance");
  for (size_t k = 0; k < pc.size(); ++k) {
    vf_same(pc[k] * pc[k].transpose() * C[k], M::Identity(C[k].rows(), C[k].rows()), "the factor times its transpose inverts the covariance");
    for (Idx a = 0; a < C[k].rows(); ++a) {
      vf_assert(pc[k](a, a) > 0, "the factor has a positive diagonal");
      for (Idx b = 0; b < a; ++b) vf_assert(vf_zero(pc[k](a, b)), "the factor is upper triangular"); } }
  return pc.size(); }''', dims={'C': 'k d d'}, gen=gencov, internal=True, ens=none)
# ---- the public interface, end to end (bounded: random starts, floating-point EM)
def genfit(g):
    d = g.r.randint(1, 3); k = g.r.randint(1, 3)
    def blob(n): return D(np.array([[3. * (i % k) * (1 + (a % 2)) + g.r.gauss(0, .6) for a in range(d)] for i in range(n)]))
    return [blob(g.r.randint(8, 14)), blob(g.r.randint(8, 14)), k]
for ct in ('full', 'tied'):
    P.fn('size_t fitted_%s(const M& A, const M& X, size_t K)' % ct, '''{
  openml::mixture_model::GaussianMixture<double> o(400, 2, K, "random", "%s", 0.05, 0.01);
  try { o.fit(A); } catch (const std::runtime_error&) {}
  try { o.fit(X); } catch (const std::runtime_error&) { return 0; }     // did not converge: the documented outcome
  V w = o.get_weights(); M mu = o.get_means(); vector<M> C = o.get_covariance(), Q = o.get_precisions(), U = o.get_precisions_cholesky();
  size_t m = %s;
  vf_assert((size_t)w.rows() == K && (size_t)mu.rows() == K && mu.cols() == X.cols(), "one weight and one mean per component");
  vf_assert(C.size() == m && Q.size() == m && U.size() == m, "one covariance, precision and factor per component (one in all when tied)");
  double tot = 0; for (size_t k = 0; k < K; ++k) { vf_assert(w(k) >= 0, "weights are non-negative"); tot += w(k); }
  vf_le(std::abs(tot - 1), 1e-9, "weights sum to one");
  for (size_t k = 0; k < m; ++k) {
    vf_same(C[k], M(C[k].transpose()), "covariances are symmetric");
    vf_same(Q[k] * C[k], M::Identity(X.cols(), X.cols()), "precisions invert the covariances");
    vf_same(U[k] * U[k].transpose(), Q[k], "the factors multiply to the precisions");
    for (Idx a = 0; a < X.cols(); ++a) vf_assert(C[k](a, a) >= 0.0099, "variances are at least the regularisation"); }
  M R = o.predict_prob(X); V y = o.predict(X);
  vf_assert(R.rows() == X.rows() && (size_t)R.cols() == K && y.rows() == X.rows(), "shapes of the predictions");
  for (Idx i = 0; i < X.rows(); ++i) {
    double z[3], s = 0;
    for (size_t k = 0; k < K; ++k) {
      size_t c = m == 1 ? 0 : k; M e = X.row(i) - mu.row(k); M q = e * Q[c] * e.transpose();
      z[k] = w(k) * std::exp(-0.5 * q(0, 0)) * std::sqrt(Q[c].determinant()) + 1e-300; s += z[k]; }
    for (size_t k = 0; k < K; ++k) { vf_le(std::abs(R(i, k) - z[k] / s), 1e-6, "responsibilities of the fitted mixture");
      vf_le(R(i, k), R(i, (Idx)y(i)) + 1e-9, "the label has the largest responsibility"); } }
  return m; }''' % (ct, 'K' if ct == 'full' else '1'), dims={'A': 'n d', 'X': 'p d'}, gen=genfit, prove=False, ens=none, ncases=40, note='EM from random starts: bounded replay')
    P.fn('size_t em_step_%s(const M& X, const M& L)' % ct, '''{
  openml::mixture_model::GaussianMixture<double> o(20, 1, L.cols(), "random", "%s", 0.001, 1e-9);
  try { o.m_step(X, L); } catch (const std::exception&) { return 0; }
  double before; M r;
  std::tie(before, r) = o.e_step(X);
  for (int t = 0; t < 4; ++t) {
    try { o.m_step(X, r); } catch (const std::exception&) { return 0; }
    double now; std::tie(now, r) = o.e_step(X);
    vf_le(before, now + 1e-6 * (1 + std::abs(now)), "an EM step does not lower the likelihood");
    before = now; }
  return 1; }''' % ct, dims=RD, gen=lambda g: geng2(g), prove=False, ens=none, ncases=60, internal=True, note='bounded replay')
def geng2(g):
    n, d, k = g.r.randint(5, 9), g.r.randint(1, 2), g.r.randint(1, 2)
    R = np.array([prior(g, k) for _ in range(n)])
    return [D(np.array([[g.r.gauss(0, 1) for _ in range(d)] for _ in range(n)])), D(np.log(R))]
