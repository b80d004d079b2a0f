from spec import *
import numpy as np
P = Prop('P21')
P.include('methods/naive_bayes/gaussian_naive_bayes.hpp', 'methods/naive_bayes/multinomial_naive_bayes.hpp')
P.code(r"""
struct GX : openml::naive_bayes::GaussianNB<double> {
  GX() {} GX(double s) : openml::naive_bayes::GaussianNB<double>(s) {}
  void set(const M& m, const M& v, const V& p, const V& c) { this->mean_ = m; this->var_ = v; this->prior_prob_ = p; this->classes_ = c; this->num_classes_ = (std::size_t)c.rows(); }
  M jll(const M& X) const { return this->joint_log_likelihood(X); }
  M mu() const { return this->mean_; } M va() const { return this->var_; }
};
struct MX : openml::naive_bayes::MultinomialNB<double> {
  MX() {} MX(double a) : openml::naive_bayes::MultinomialNB<double>(a) {}
  void set(const M& f, const V& q, const V& p, const V& c) { this->feature_count_ = f; this->class_count_ = q; this->num_features_ = (std::size_t)f.cols(); this->prior_prob_ = p; this->classes_ = c; this->num_classes_ = (std::size_t)c.rows(); }
  M jll(const M& X) const { return this->joint_log_likelihood(X); }
};
""")
none = lambda r, *a: []
def A(m): return np.array(m['e'], dtype=float).reshape(m['r'], m['c'])
def vec(g, n, f): return [f() for _ in range(n)]
def pos(g, n, d): return {'r': n, 'c': d, 'e': [[g.r.uniform(.2, 3) for _ in range(d)] for _ in range(n)]}
def prior(g, k):
    p = [g.r.uniform(.2, 1) for _ in range(k)]; t = sum(p); return [x / t for x in p]
def labels(g, k): return sorted(g.r.sample([-2., 0., 1., 2., 3., 5., 7.], k))
# ---- posterior of given parameters
def ggen(g):
    n, d, k = g.r.randint(1, 4), g.r.randint(1, 4), g.r.randint(1, 4)
    return [g.mat(n, d), g.mat(k, d), pos(g, k, d), prior(g, k), labels(g, k)]
def mgen(g):
    n, d, k = g.r.randint(1, 4), g.r.randint(1, 4), g.r.randint(1, 4)
    F = {'r': k, 'c': d, 'e': [[float(g.r.randint(0, 6)) for _ in range(d)] for _ in range(k)]}
    return [{'r': n, 'c': d, 'e': [[float(g.r.randint(0, 3)) for _ in range(d)] for _ in range(n)]}, F, [sum(q) for q in F['e']], prior(g, k), labels(g, k), g.r.choice([.5, 1., 10.])]
from fractions import Fraction
PI = c(Fraction('3.141592653589793')); HALF = c(Fraction(1, 2))
def gj(X, mu, va, p):
    return lambda i, k: sub(sub(log(p.f(k, ZERO)), mul(HALF, Sum(X.cols, lambda j: log(mul(va.f(k, j), c(2), PI))))), mul(HALF, Sum(X.cols, lambda j: div(mul(sub(X.f(i, j), mu.f(k, j)), sub(X.f(i, j), mu.f(k, j))), va.f(k, j)))))
def greq(X, mu, va, p, cl): return [Forall(va.rows, lambda i: Forall(va.cols, lambda j: lt(ZERO, va.f(i, j)))), Forall(p.rows, lambda i: lt(ZERO, p.f(i, ZERO)))]
GD = {'X': 'n d', 'mu': 'k d', 'va': 'k d', 'p': 'k', 'cl': 'k'}
G0 = 'const M& X, const M& mu, const M& va, const V& p, const V& cl'
P.fn('M gnb_joint(%s)' % G0, '{ GX o; o.set(mu, va, p, cl); return o.jll(X); }', dims=GD, req=greq, gen=ggen, ens=lambda r, X, mu, va, p, cl: mat_is(r, X.rows, p.rows, gj(X, mu, va, p), 'joint log-likelihood'))
MD = {'X': 'n d', 'F': 'k d', 'q': 'k', 'p': 'k', 'cl': 'k'}
M0 = 'const M& X, const M& F, const V& q, const V& p, const V& cl, double a'
def mj(X, F, q, p, a): return lambda i, k: add(log(p.f(k, ZERO)), Sum(X.cols, lambda j: mul(X.f(i, j), log(div(add(F.f(k, j), a), add(q.f(k, ZERO), mul(a, X.cols)))))))
def mreq(X, F, q, p, cl, a): return [lt(ZERO, a), Forall(F.rows, lambda i: Forall(F.cols, lambda j: le(ZERO, F.f(i, j)))), Forall(p.rows, lambda i: and_(lt(ZERO, p.f(i, ZERO)), le(ZERO, q.f(i, ZERO))))]
P.fn('M mnb_joint(%s)' % M0, '{ MX o(a); o.set(F, q, p, cl); return o.jll(X); }', dims=MD, req=mreq, gen=mgen, ens=lambda r, X, F, q, p, cl, a: mat_is(r, X.rows, p.rows, mj(X, F, q, p, a), 'joint log-likelihood'))
POST = '''{
  %s M J = o.jll(X), L = o.predict_log_prob(X), Q = o.predict_prob(X); V y = o.predict(X);
  vf_assert(L.rows() == X.rows() && L.cols() == cl.rows() && Q.rows() == X.rows() && Q.cols() == cl.rows() && y.rows() == X.rows(), "shapes of the predictions");
  for (Idx i = 0; i < X.rows(); ++i) {
    double s = 0; for (Idx k = 0; k < cl.rows(); ++k) s += std::exp(J(i, k));
    for (Idx k = 0; k < cl.rows(); ++k) {
      vf_assert(vf_zero(Q(i, k) - std::exp(J(i, k)) / s), "posterior probabilities are the normalised joint likelihoods");
      vf_assert(vf_zero(Q(i, k) - std::exp(L(i, k))), "log-probabilities are the logarithms of the probabilities");
    } }
  return L; }'''
PRED = '''{
  %s M J = o.jll(X); V y = o.predict(X);
  vf_assert(y.rows() == X.rows(), "one label per sample");
  for (Idx i = 0; i < X.rows(); ++i) {
    Idx best = -1; double b = 0;
    for (Idx k = 0; k < cl.rows(); ++k) if (best < 0 || J(i, k) > b) { best = k; b = J(i, k); }
    bool ok = false; for (Idx k = 0; k < cl.rows(); ++k) if (y(i) == cl(k) && J(i, k) >= b) ok = true;
    vf_assert(ok, "the predicted label belongs to a class with the largest posterior"); }
  return y; }'''
PREDP = '''{
  %s M J = o.jll(X); V y = o.predict(X);
  return std::make_tuple(J, y); }'''
def pe(r, X, cl): yield 'labels', eq(r.xs[1].rows, X.rows); yield 'the predicted label is that of the first class with the largest joint likelihood', Forall(X.rows, lambda i: eq(r.xs[1].f(i, ZERO), cl.f(ArgMax(cl.rows, lambda k: r.xs[0].f(i, k)), ZERO)))
for nm, sig, st, D, rq, gn in (('gnb', G0, 'GX o; o.set(mu, va, p, cl);', GD, greq, ggen), ('mnb', M0, 'MX o(a); o.set(F, q, p, cl);', MD, mreq, mgen)):
    P.fn('M %s_posterior(%s)' % (nm, sig), POST % st, dims=D, req=rq, gen=gn, ens=none)
    P.fn('std::tuple<M, V> %s_predict(%s)' % (nm, sig), PREDP % st, dims=D, req=rq, gen=gn, ens=(lambda r, X, mu, va, p, cl: pe(r, X, cl)) if nm == 'gnb' else (lambda r, X, F, q, p, cl, a: pe(r, X, cl)))
# ---- estimation
def fgen(mult):
    def gen(g):
        n, d = g.r.randint(1, 8), g.r.randint(1, 4); ls = g.r.sample([-2., 0., 1., 2., 3., 5., 7.], g.r.randint(1, 3))
        X = {'r': n, 'c': d, 'e': [[float(g.r.randint(0, 4)) if mult else g.num() for _ in range(d)] for _ in range(n)]}
        return [X, [g.r.choice(ls) for _ in range(n)], g.r.choice([.5, 1., 10.]) if mult else g.r.choice([1e-9, 1e-3, .1])]
    return gen
def near(a, b): return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-8, atol=1e-8)
def est(X, y):
    X = A(X); y = np.array(y); cl = np.unique(y)
    return X, y, cl, np.array([(y == k).mean() for k in cl])
def o_g(r, X, y, s):
    X, y, cl, p = est(X, y)
    if not near(r[0], cl): return 'classes are not the sorted distinct labels'
    if not near(r[1], p): return 'priors are not the class frequencies'
    if not near(A(r[2]), np.array([X[y == k].mean(0) for k in cl])): return 'means are not the per-class means'
    v = np.array([X[y == k].var(0) for k in cl])
    if not near(A(r[3]), v + s * v.max()): return 'variances are not the smoothed per-class variances'
P.fn('std::tuple<V, V, M, M> gnb_fit(const M& X, const V& y, double s)', '{ GX o(s); o.fit(X, y); return std::make_tuple(V(o.get_classes()), V(o.get_prior_prob()), M(o.get_mean()), M(o.get_var())); }', dims={'X': 'n d', 'y': 'n'}, gen=fgen(False), oracle=o_g)
def o_m(r, X, y, a):
    X, y, cl, p = est(X, y)
    if not near(r[0], cl): return 'classes are not the sorted distinct labels'
    if not near(r[1], p): return 'priors are not the class frequencies'
    F = np.array([X[y == k].sum(0) for k in cl])
    if not near(A(r[2]), F): return 'feature counts are not the per-class feature totals'
    J = X @ np.log((F + a) / (F.sum(1, keepdims=True) + a * X.shape[1])).T + np.log(p)
    if not near(A(r[3]), J): return 'joint log-likelihood of the fitted model'
P.fn('std::tuple<V, V, M, M> mnb_fit(const M& X, const V& y, double a)', '{ MX o(a); o.fit(X, y); return std::make_tuple(V(o.get_classes()), V(o.get_prior_prob()), M(o.get_features_count()), o.jll(X)); }', dims={'X': 'n d', 'y': 'n'}, gen=fgen(True), oracle=o_m)
