from spec import *
P = Prop('P18')
P.level = 'exploration'
# The objective is a monitor: it replays the optimiser's own history, predicts every search direction from the accepted iterates with
# a dense product-form reference of the limited-memory inverse Hessian, and decides from its own values when a step is accepted.
P.code(r"""
struct Obj { const M* A; const V* b; int kind; double lin;
  double f(const V& x) const { double s = 0; V r = *A * x - *b;
    if (kind == 0) { s = r.squaredNorm() / 2; }
    else if (kind == 1) { for (long i = 0; i < r.rows(); ++i) s += std::log(std::cosh(r(i))) + 0.05 * r(i) * r(i); }
    else if (kind == 2) { for (long i = 0; i + 1 < x.rows(); ++i) s += 10 * std::pow(x(i + 1) - x(i) * x(i), 2) + std::pow(1 - x(i), 2); s += 0.1 * x.squaredNorm(); }
    else if (kind == 3) { s = b->head(x.rows()).dot(x); }
    else { for (long i = 0; i < r.rows(); ++i) s += std::sin(r(i)) + 0.1 * r(i) * r(i); }
    return s; }
  V g(const V& x) const { V r = *A * x - *b; V o = V::Zero(x.rows());
    if (kind == 0) o = A->transpose() * r;
    else if (kind == 1) { V q(r.rows()); for (long i = 0; i < r.rows(); ++i) q(i) = std::tanh(r(i)) + 0.1 * r(i); o = A->transpose() * q; }
    else if (kind == 2) { for (long i = 0; i + 1 < x.rows(); ++i) { double e = x(i + 1) - x(i) * x(i); o(i) += -40 * x(i) * e - 2 * (1 - x(i)); o(i + 1) += 20 * e; } o += 0.2 * x; }
    else if (kind == 3) o = b->head(x.rows());
    else { V q(r.rows()); for (long i = 0; i < r.rows(); ++i) q(i) = std::cos(r(i)) + 0.2 * r(i); o = A->transpose() * q; }
    return o; } };
struct LM { Obj o; const M* X; const V* y; size_t mem; int cond; double ftol, wolfe; V x0, xa, ga, d; double f0, fa; long calls, k; bool fresh, ambiguous; long ne, ng; V xt, gt; double ft; double best; std::vector<V> S, Y; };
inline V ref_dir(LM* m) {   // H_k by the dense product form over the last min(mem, k) pairs
  long n = m->xa.rows(); long q = std::min<long>(m->mem, m->S.size()); long a = m->S.size() - q;
  double ys = m->Y.back().dot(m->S.back()), yy = m->Y.back().squaredNorm();
  M H = M::Identity(n, n) * (ys / yy);
  for (long i = a; i < (long)m->S.size(); ++i) { double rho = 1 / m->Y[i].dot(m->S[i]); M L = M::Identity(n, n) - rho * m->S[i] * m->Y[i].transpose(); H = (L * H * L.transpose()).eval() + rho * m->S[i] * m->S[i].transpose(); }
  return -(H * m->ga); }
inline void trial(LM* m) {   // value and gradient of a point are both known
  const V& W = m->xt; const V& g = m->gt;
  if (m->calls == 0) { vf_assert(W == m->x0, "the run starts from the given point"); m->f0 = m->fa = m->ft; m->xa = W; m->ga = g; m->d = -g; m->fresh = true; m->calls = 1; return; }
  m->calls += 1;
  if (m->ambiguous) return;
  V dlt = W - m->xa;
  if (m->fresh) {
    double tol = 1e-5 * (1 + m->d.norm()) + 1e-7;
    if (m->k == 1) vf_assert((dlt - m->d / m->d.norm()).norm() <= 1e-9 * (1 + W.norm()), "the first trial is a unit step along the negative gradient");
    else { vf_assert((dlt - m->d).norm() <= tol, "the first trial of a step is the limited-memory quasi-Newton direction of the last stored pairs"); m->d = dlt; }
    m->fresh = false; }
  else { double c = dlt.dot(m->d) / (dlt.norm() * m->d.norm() + 1e-300); if (dlt.norm() > 1e-7 * (1 + W.norm())) vf_assert(c > 1 - 1e-6, "further trials stay on the search direction"); }
  // accepted?
  double step = dlt.norm() / m->d.norm(); double dg0 = m->d.dot(m->ga), dg = m->d.dot(g);
  double m1 = m->fa + step * m->ftol * dg0 - m->ft, m2 = dg - m->wolfe * dg0, m3 = -m->wolfe * dg0 - dg;
  double e = 1e-9 * (1 + std::abs(m->fa)) , e2 = 1e-9 * (1 + std::abs(dg0));
  if (!(dg0 < 0) || std::abs(m1) < e || (m->cond > 0 && std::abs(m2) < e2) || (m->cond > 1 && std::abs(m3) < e2)) { m->ambiguous = true; return; }
  bool acc = m1 >= 0 && (m->cond < 1 || m2 >= 0) && (m->cond < 2 || m3 >= 0);
  if (acc) { V s = W - m->xa, yv = g - m->ga; m->xa = W; m->fa = m->ft; m->ga = g; m->k += 1;
    m->S.push_back(s); m->Y.push_back(yv);
    long q = std::min<long>(m->mem, m->S.size()); for (long i = (long)m->S.size() - q; i < (long)m->S.size(); ++i) if (m->Y[i].dot(m->S[i]) < 1e-3 * m->Y[i].norm() * m->S[i].norm() + 1e-9) m->ambiguous = true;
    if (!m->ambiguous) { m->d = ref_dir(m); m->fresh = true; } } }
inline void point(LM* m, const V& W) { if (m->ne != m->ng) vf_assert(W == m->xt, "value and gradient are taken at the same points"); m->xt = W; }
struct LObj { LM* m;
  double evaluate(const M& Xb, const V& yb, const V& W) const {
    vf_assert(Xb == *m->X && yb == *m->y, "the objective is evaluated on the data");
    point(m, W); double v = m->o.f(W); m->ft = v; m->ne += 1; if (m->ne == m->ng) trial(m); return v; }
  V gradient(const M& Xb, const V& yb, const V& W) const {
    vf_assert(Xb == *m->X && yb == *m->y, "the gradient is taken on the data");
    point(m, W); V g = m->o.g(W); m->gt = g; m->ng += 1; if (m->ne == m->ng) trial(m); return g; } };
""")
P.fn('V lbfgs_run(const M& X, const V& y, const V& x0, const M& A, const V& b, int kind, size_t iters, size_t mem, size_t past, double tol, double delta, double ftol, double wolfe, int cond, bool bracketing)', r"""{
  LM m; m.o.A = &A; m.o.b = &b; m.o.kind = kind; m.X = &X; m.y = &y; m.mem = mem; m.cond = cond; m.ftol = ftol; m.wolfe = wolfe; m.x0 = x0; m.calls = 0; m.k = 1; m.fresh = false; m.ambiguous = false; m.ne = m.ng = 0;
  LObj l; l.m = &m;
  using LP = openml::optimizer::LineSearchParams<double>;
  LP p(.5, 2.1, ftol, wolfe, 1e20, 1e-20, 20, cond == 0 ? "ARMIJO" : cond == 1 ? "WOLFE" : "STRONG_WOLFE");
  openml::optimizer::LBFGS<double, LObj, LP> o(x0, l, p, iters, mem, past, tol, delta, bracketing ? "bracketing" : "backtracking", false, false);
  o.optimize(X, y);
  V r = o.get_coef();
  vf_assert(r.rows() == x0.rows(), "the result has the length of the start");
  double fr = m.o.f(r), fs = m.o.f(x0);
  vf_assert(fr <= fs + 1e-12 * (1 + std::abs(fs)), "the objective at the result is not larger than at the start");
  if (!m.ambiguous && m.calls > 1) vf_assert(r == m.xa, "the result is the last iterate that satisfied the line-search conditions");
  if (m.calls == 1) vf_assert(r == x0 , "no step is taken from a stationary start");
  if (!m.ambiguous && iters > 0) vf_assert(m.k <= (long)iters + 1, "no more steps than configured");
  if (!m.ambiguous && m.k > 1 && tol == 0 && delta == 0 && iters > 0 && m.ga.norm() > 1e-3 && cond == 0) vf_assert(m.k == (long)iters + 1 || m.calls >= (long)m.k + 19, "the run goes on until an enabled stopping rule applies");
  return r; }""", prove=False, note='whole optimiser against a dense limited-memory reference on concrete objectives',
  gen=lambda g: (lambda n, d: [g.mat(2, 2), g.vec(2), g.vec(d), g.mat(n, d), g.vec(max(n, d)) if False else g.vec(n), g.r.choice([0, 1, 2, 4] if n < d else [0, 1, 2, 3, 4]), g.r.choice([1, 2, 3, 5, 8, 12, 20]), g.r.choice([1, 2, 3, 4, 8]), g.r.choice([0, 1, 2, 3, 5]), g.r.choice([1e-5, 0, 1e-2]), g.r.choice([1e-6, 0, 1e-2]), g.r.choice([1e-4, .1, .4]), g.r.choice([.9, .5]), g.r.randint(0, 2), g.r.random() < .5])(g.r.randint(2, 5), g.r.randint(2, 4)), ncases=15)
# ---- deductive part: the optimiser's own loop, for any objective, any history and any number of iterations. The line search is replaced
# by its contract (proved in P17): on success (>= 0) the returned point is the start plus the returned step times the direction, value and
# gradient are those of the point and the value is not larger than at the start; on failure nothing is promised.
P.code(r"""
struct SM { const M* X; const V* y; V x0, xa, ga; double f0, fa; long n, ng, k, it; bool in; };
struct SLoss { SM* m;
  double evaluate(const M& Xb, const V& yb, const V& W) const {
    vf_same(Xb, *m->X, "the objective is evaluated on the data"); vf_same(yb, *m->y, "the objective is evaluated on the targets");
    vf_same(W, m->x0, "the run starts from the given point"); m->fa = vf_arb(1, 0, 0); m->f0 = m->fa; m->n += 1; return m->fa; }
  V gradient(const M& Xb, const V& yb, const V& W) const {
    vf_same(Xb, *m->X, "the gradient is taken on the data"); vf_same(yb, *m->y, "the gradient is taken on the targets");
    vf_same(W, m->x0, "the run starts from the given point"); m->ga = vf_arbm(2, 0, W.rows(), 1); m->xa = W; m->ng += 1; return m->ga; } };
inline int search_contract(SLoss& l, V& x, double& fx, V& g, V& d, double& step, const V& xp, const V& gp) {
  SM* m = l.m;
  vf_same(xp, m->xa, "every line search starts at the last accepted iterate"); vf_same(x, m->xa, "the current point of a line search is its start");
  vf_assert(fx == m->fa, "a line search gets the value of its start"); vf_same(g, m->ga, "a line search gets the gradient of its start");
  if (m->it == 0) vf_same(d, -m->ga, "the first search direction is the negative gradient");
  m->it += 1;
  if (vf_arb(3, m->it, 0) < 0) { x = vf_arbm(4, m->it, x.rows(), 1); fx = vf_arb(5, m->it, 0); g = vf_arbm(6, m->it, x.rows(), 1); step = vf_arb(7, m->it, 0); return -1; }
  double q = vf_arb(8, m->it, 0);
  step = vf_arb(7, m->it, 0); x = xp + step * d; fx = m->fa - q * q; g = vf_arbm(6, m->it, x.rows(), 1);
  m->xa = x; m->fa = fx; m->ga = g; m->k += 1;
  return 1; }
""")
P.contracts = {q: Stub('search_contract') for q in ('openml::optimizer::BaseLineSearch::search', 'openml::optimizer::LineSearchBacktracking::search', 'openml::optimizer::LineSearchBracketing::search')}
import os
for pol in ('backtracking', 'bracketing') if os.environ.get('P18WIP') else ():
  P.fn('V descent_%s(const M& X, const V& y, const V& x0, size_t iters, size_t mem, size_t past, double tol, double delta)' % pol, r"""{
  SM m; m.X = &X; m.y = &y; m.x0 = x0; m.n = 0; m.ng = 0; m.k = 0; m.it = 0;
  SLoss l; l.m = &m;
  using LP = openml::optimizer::LineSearchParams<double>;
  LP p(.5, 2.1, 1e-4, 0.9, 1e20, 1e-20, 20, "ARMIJO");
  openml::optimizer::LBFGS<double, SLoss, LP> o(x0, l, p, iters, mem, past, tol, delta, "%s", false, false);
  o.optimize(X, y);
  V r = o.get_coef();
  vf_assert(r.rows() == x0.rows(), "the result has the length of the start");
  vf_same(r, m.xa, "the result is the last accepted iterate (the start if none)");
  vf_assert(m.fa <= m.f0, "the objective at the result is not larger than at the start");
  vf_assert(iters == 0 || m.k <= (long)iters, "no more steps than configured");
  return r; }""" % pol, internal=True, contract_only=True, timeout=300, req=lambda X, y, x0, iters, mem, *a: [le(ONE, mem)], no_closed=True)
