from spec import *
P = Prop('P16')
P.code(r"""
struct GradLoss { const M* X; const V* y; V g; 
  M gradient(const M& Xb, const V& yb, const M& W) const { vf_same(Xb, *X, "the gradient is taken over all samples"); vf_same(yb, *y, "the gradient is taken with all targets"); return g; }
  double evaluate(const M& Xb, const V& yb, const M& W) const { return 0; } };
inline M scd_step(const M& X, const V& y, const V& w, const V& g, double rho, double lambda) {
  GradLoss l; l.X = &X; l.y = &y; l.g = g;
  openml::optimizer::SCD<double, GradLoss> o(w, l, 1, rho, lambda, false, false);
  o.optimize(X, y); return o.get_coef(); }
// L1-regularised quadratic model of the loss along one coordinate
inline double model(double w, double g, double rho, double lambda, double eta) { return g * eta + rho / 2 * eta * eta + lambda * std::abs(w + eta); }
inline double best_step(double w, double g, double rho, double lambda) {
  double z = w - g / rho, s = lambda / rho;
  return z > s ? (z - s) - w : z < -s ? (z + s) - w : -w; }
inline double decrease(double w, double g, double rho, double lambda) { return model(w, g, rho, lambda, 0) - model(w, g, rho, lambda, best_step(w, g, rho, lambda)); }
""")
req1 = lambda X, y, w, g, rho, lam, *a: [lt(ZERO, rho), le(ZERO, lam)]
RHO = [.25, .5, 1., 2., 4.]; LAM = [0., .1, .25, .5, 1., 2.]
P.fn('bool model_minimiser(double w, double g, double rho, double lambda, double eta)', """{
  vf_le(model(w, g, rho, lambda, best_step(w, g, rho, lambda)), model(w, g, rho, lambda, eta), "the soft-thresholded step minimises the model");
  return true; }""", req=lambda w, g, rho, lam, eta: [lt(ZERO, rho), le(ZERO, lam)], vals={'rho': RHO, 'lambda': LAM}, ens=lambda r, *a: [])
P.fn('V scd_one(const M& X, const V& y, const V& w, const V& g, double rho, double lambda)', '{ return scd_step(X, y, w, g, rho, lambda); }',
  dims={'X': 'n d', 'y': 'n', 'w': 'd', 'g': 'd'}, vals={'rho': RHO, 'lambda': LAM}, req=req1, ens=lambda ret, *a: one(ret, *a))
def eta_(w, g, rho, lam):
    z = sub(w, div(g, rho)); s = div(lam, rho)
    return ite(lt(s, z), sub(sub(z, s), w), ite(lt(z, mul(c(-1), s)), sub(add(z, s), w), mul(c(-1), w)))
def dec_(w, g, rho, lam):
    e = eta_(w, g, rho, lam)
    return sub(mul(lam, abs_(w)), add(mul(g, e), mul(mul(div(rho, c(2)), e), e), mul(lam, abs_(add(w, e)))))
def one(r, X, y, w, g, rho, lam):
    d = w.rows; W = lambda i: w.f(i, ZERO); G = lambda i: g.f(i, ZERO); R = lambda i: r.f(i, ZERO)
    yield 'shape', and_(eq(r.rows, d), eq(r.cols, ONE))
    yield 'a changed coordinate moves by its own minimiser', Forall(d, lambda i: or_(eq(R(i), W(i)), eq(R(i), add(W(i), eta_(W(i), G(i), rho, lam)))))
    yield 'at most one coordinate changes', Forall(d, lambda i: Forall(d, lambda j: or_(eq(i, j), eq(R(i), W(i)), eq(R(j), W(j)))))
    yield 'the changed coordinate has the largest predicted decrease', Forall(d, lambda i: Forall(d, lambda j: or_(eq(R(i), W(i)), le(dec_(W(j), G(j), rho, lam), dec_(W(i), G(i), rho, lam)))))
    yield 'nothing changes only if no coordinate predicts a decrease', or_(Exists(d, lambda i: not_(eq(R(i), W(i)))), Forall(d, lambda j: le(dec_(W(j), G(j), rho, lam), ZERO)))
P.fns[-1].prove = False; P.fns[-1].bounded = True; P.fns[-1].note = 'one coordinate step: replayed on concrete inputs only (case explosion in the prover)'
P.code(r"""
struct ChainLoss { const M* X; const V* y; M* cur; V* last; long* t; double rho, lambda;
  V gradient(const M& Xb, const V& yb, const M& W) const {
    vf_same(Xb, *X, "the gradient is taken over all samples"); vf_same(yb, *y, "the gradient is taken with all targets");
    vf_same(W, *cur, "the iterate is the result of the previous coordinate step");
    V g = vf_arbm(1, *t, W.rows(), 1); *t += 1; *cur = scd_step(*X, *y, W, g, rho, lambda); return g; }
  double evaluate(const M& Xb, const V& yb, const M& W) const { return 0; } };
""")
P.fn('V scd_chain(const M& X, const V& y, const V& w, size_t iters, double rho, double lambda)', """{
  M cur = w; V last; long t = 0; ChainLoss l; l.X = &X; l.y = &y; l.cur = &cur; l.last = &last; l.t = &t; l.rho = rho; l.lambda = lambda;
  openml::optimizer::SCD<double, ChainLoss> o(w, l, iters, rho, lambda, false, false);
  o.optimize(X, y);
  vf_assert(t == (long)iters, "one coordinate step per configured iteration");
  vf_same(o.get_coef(), cur, "the result is the last iterate");
  return o.get_coef(); }""", dims={'X': 'n d', 'y': 'n', 'w': 'd'}, vals={'rho': RHO, 'lambda': LAM, 'iters': lambda g: g.r.randint(1, 9)},
  req=lambda X, y, w, it, rho, lam: [lt(ZERO, rho), le(ZERO, lam), le(ONE, it)], prove=False, note='iterated steps and shuffled sample order: replayed on concrete inputs only')
P.code(r"""
struct PermLoss { const M* X; const V* y; V g;
  V gradient(const M& Xb, const V& yb, const M& W) const {
    std::vector<char> used(X->rows(), 0); vf_assert(Xb.rows() == X->rows() && yb.rows() == y->rows(), "all samples are used");
    for (long i = 0; i < Xb.rows(); ++i) { bool f = false; for (long k = 0; k < X->rows() && !f; ++k) if (!used[k] && (*y)(k) == yb(i) && X->row(k) == Xb.row(i)) { used[k] = 1; f = true; } vf_assert(f, "shuffling keeps every sample with its target"); }
    return g; }
  double evaluate(const M& Xb, const V& yb, const M& W) const { return 0; } };
""")
P.fn('V scd_shuffled(const M& X, const V& y, const V& w, const V& g, double rho, double lambda)', """{
  PermLoss l; l.X = &X; l.y = &y; l.g = g;
  openml::optimizer::SCD<double, PermLoss> o(w, l, 1, rho, lambda, true, false);
  o.optimize(X, y); V r = o.get_coef(); vf_same(r, scd_step(X, y, w, g, rho, lambda), "shuffling does not change the step for a given gradient"); return r; }""",
  dims={'X': 'n d', 'y': 'n', 'w': 'd', 'g': 'd'}, vals={'rho': RHO, 'lambda': LAM}, req=req1, prove=False)
