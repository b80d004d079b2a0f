from spec import *
P = Prop('P15')
# The training loop is put under contract through its environment (as in P13); the monitor applies the shrinkage rule itself.
MON = r'''
struct Mon { const M* X; const V* y; long nb, b, j, it; size_t max_iter, need, cnt; double tol, best, sum, lr; M cur, g, raw; double u, alpha, ratio; bool done; long t; };
inline void close_epoch(Mon* m) {
  if (m->sum > m->best - m->tol * m->b) m->cnt += 1; else m->cnt = 0;
  if (m->sum < m->best) m->best = m->sum;
  m->done = m->cnt >= m->need; }
struct RecLoss { Mon* m;
  M gradient(const M& Xb, const V& yb, const M& W) const {
    vf_assert(m->j < m->nb, "no more than one step per full batch in an epoch");
    vf_same(Xb, m->X->middleRows(m->j * m->b, m->b), "the batch is the next full block of consecutive samples");
    vf_same(yb, m->y->middleRows(m->j * m->b, m->b), "the targets belong to the batch");
    vf_same(W, m->cur, "the gradient is taken at the current iterate");
    M g = vf_arbm(1, m->t, W.rows(), W.cols()); m->g = g; return g; }
  double evaluate(const M& Xb, const V& yb, const M& W) const {
    vf_same(Xb, m->X->middleRows(m->j * m->b, m->b), "the loss is measured on the same batch");
    vf_same(yb, m->y->middleRows(m->j * m->b, m->b), "the loss uses the targets of the batch");
    vf_same(W, m->cur, "the step leaves exactly the truncated weights: towards zero by the accumulated shrinkage, not past zero");
    for (long r = 0; r < W.rows(); ++r) {
      double v = m->raw(r, 0), w = W(r, 0);
      vf_assert(!(v > 0) || w >= 0, "a positive weight never becomes negative");
      vf_assert(!(v < 0) || w <= 0, "a negative weight never becomes positive");
      vf_assert(v != 0 || w == 0, "a zero weight is left alone");
      vf_assert(m->u < 0 || std::abs(w) <= std::abs(v), "no weight moves away from zero"); }
    double l = vf_arb(2, m->t, 0); m->sum += l; m->j += 1; m->t += 1; if (m->j == m->nb) close_epoch(m); return l; } };
struct RecUpdate { Mon* m;
  M update(const M& W, const M& G, double lr) const {
    vf_same(W, m->cur, "the update starts from the current iterate");
    M e = m->g.cwiseMin(1e10).cwiseMax(-1e10);
    vf_same(G, e, "the update receives the clipped gradient");
    vf_assert(lr == m->lr, "the update receives the decayed learning rate of the epoch");
    M w = vf_arbm(3, m->t, W.rows(), W.cols()); m->raw = w; m->u += m->ratio * m->lr * m->alpha;
    M z(w.rows(), w.cols());
    for (long r = 0; r < w.rows(); ++r) { double v = w(r, 0); z(r, 0) = v > 0 ? std::max(0.0, v - m->u) : v < 0 ? std::min(0.0, v + m->u) : v; }
    m->cur = z; return w; } };
struct RecDecay { Mon* m;
  double compute(size_t iter) const {
    vf_assert(m->j == m->nb, "every full batch is visited in every epoch");
    vf_assert(!m->done, "the run stops as soon as the loss stopped improving");
    m->it += 1;
    vf_assert((long)iter == m->it, "the learning rate is that of the epoch"); 
    m->j = 0; m->sum = 0; m->lr = vf_arb(4, m->it, 0); return m->lr; } };
'''
P.code(MON)
P.fn('bool tg_run(const M& X, const V& y, const V& w0, size_t max_iter, size_t b, size_t need, double tol, double alpha, double ratio)', '''{
  Mon m; m.X = &X; m.y = &y; m.b = b; m.nb = X.rows() / b; m.j = m.nb; m.it = -1; m.max_iter = max_iter; m.need = need; m.cnt = 0; m.tol = tol;
  m.best = std::numeric_limits<double>::infinity(); m.sum = 0; m.lr = 0; m.cur = w0; m.u = 0; m.alpha = alpha; m.ratio = ratio; m.done = false; m.t = 0;
  RecLoss l; l.m = &m; RecUpdate u; u.m = &m; RecDecay d; d.m = &m;
  openml::optimizer::TruncatedGradient<double, RecLoss, RecUpdate, RecDecay> o(w0, l, u, d, max_iter, b, need, tol, alpha, ratio, false, false);
  bool thrown = false;
  try { o.optimize(X, y); } catch (const std::exception& e) { thrown = true; }
  vf_assert(m.it >= 0 && m.j == m.nb, "every full batch is visited in the last epoch");
  vf_assert(thrown == !m.done, "an error exactly when the epochs run out without convergence");
  if (thrown) vf_assert(m.it + 1 == (long)max_iter , "all configured epochs were used before giving up");
  if (!thrown) vf_same(o.get_coef(), m.cur, "the reported coefficients are the last iterate");
  return thrown; }''', dims={'X': 'n d', 'y': 'n', 'w0': 'd'}, req=lambda X, y, w0, mi, b, need, tol, al, ra: [le(ONE, b), le(ONE, need), le(ONE, mi), le(ONE, idiv(X.rows, b))],
  gen=lambda g: (lambda n, d: [g.mat(n, d), g.vec(n), g.vec(d), g.r.randint(1, 12), g.r.randint(1, min(n, 4)), g.r.randint(1, 4), g.r.choice([0, 1e-4, .1, 1., 5.]), g.r.choice([0, 1e-4, .1, 1., .5]), g.r.choice([0., .15, .5, 1.])])(g.r.randint(1, 7), g.r.randint(1, 3)),
  ens=lambda ret, *a: [], no_closed=True, timeout=400)
