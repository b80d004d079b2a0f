from spec import *
P = Prop('P13')
# The training loop is put under contract through its environment: a loss, an update policy and a decay policy that assert, at
# every call the optimiser makes, what the property says about that call, and answer with arbitrary values.
MON = r'''
struct Mon { const M* X; const V* y; long nb, b, j, it; size_t max_iter, need, cnt; double tol, best, sum, lr; M cur, g; bool done; long t; };
inline void close_epoch(Mon* m) {
  if (m->sum > m->best - m->tol * m->b) m->cnt += 1; else m->cnt = 0;
  if (m->sum < m->best) m->best = m->sum;
  m->done = m->cnt >= m->need; }
struct RecLoss { Mon* m;
  M gradient(const M& Xb, const V& yb, const M& W) const {
    vf_assert(m->j < m->nb, "no more than one step per full batch in an epoch");
    vf_same(Xb, m->X->middleRows(m->j * m->b, m->b), "the batch is the next full block of consecutive samples");
    vf_same(yb, m->y->middleRows(m->j * m->b, m->b), "the targets belong to the batch");
    vf_same(W, m->cur, "the gradient is taken at the current iterate");
    M g = vf_arbm(1, m->t, W.rows(), W.cols()); m->g = g; return g; }
  double evaluate(const M& Xb, const V& yb, const M& W) const {
    vf_same(Xb, m->X->middleRows(m->j * m->b, m->b), "the loss is measured on the same batch");
    vf_same(yb, m->y->middleRows(m->j * m->b, m->b), "the loss uses the targets of the batch");
    vf_same(W, m->cur, "the loss is measured at the new iterate");
    double l = vf_arb(2, m->t, 0); m->sum += l; m->j += 1; m->t += 1; if (m->j == m->nb) close_epoch(m); return l; } };
struct RecUpdate { Mon* m;
  M update(const M& W, const M& G, double lr) const {
    vf_same(W, m->cur, "the update starts from the current iterate");
    M e = m->g.cwiseMin(1e10).cwiseMax(-1e10);
    vf_same(G, e, "the update receives the clipped gradient");
    vf_assert(lr == m->lr, "the update receives the decayed learning rate of the epoch");
    M w = vf_arbm(3, m->t, W.rows(), W.cols()); m->cur = w; return w; } };
struct RecDecay { Mon* m;
  double compute(size_t iter) const {
    vf_assert(m->j == m->nb, "every full batch is visited in every epoch");
    vf_assert(!m->done, "the run stops as soon as the loss stopped improving");
    m->it += 1;
    vf_assert((long)iter == m->it, "the learning rate is that of the epoch"); 
    m->j = 0; m->sum = 0; m->lr = vf_arb(4, m->it, 0); return m->lr; } };
'''
P.code(MON)
P.fn('bool sgd_run(const M& X, const V& y, const M& w0, size_t max_iter, size_t b, size_t need, double tol, bool multi)', '''{
  Mon m; m.X = &X; m.y = &y; m.b = b; m.nb = X.rows() / b; m.j = m.nb; m.it = -1; m.max_iter = max_iter; m.need = need; m.cnt = 0; m.tol = tol;
  m.best = std::numeric_limits<double>::infinity(); m.sum = 0; m.lr = 0; m.cur = w0; m.done = false; m.t = 0;
  RecLoss l; l.m = &m; RecUpdate u; u.m = &m; RecDecay d; d.m = &m;
  openml::optimizer::SGD<double, RecLoss, RecUpdate, RecDecay> o(w0, l, u, d, max_iter, b, need, tol, false, false, multi);
  bool thrown = false;
  try { o.optimize(X, y); } catch (const std::exception& e) { thrown = true; }
  vf_assert(m.it >= 0 && m.j == m.nb, "every full batch is visited in the last epoch");
  vf_assert(thrown == !m.done, "an error exactly when the epochs run out without convergence");
  if (thrown) vf_assert(m.it + 1 == (long)max_iter , "all configured epochs were used before giving up");
  if (!thrown) vf_same(o.get_coef(), m.cur, "the reported coefficients are the last iterate");
  return thrown; }''', dims={'X': 'n d', 'y': 'n', 'w0': 'd k'}, req=lambda X, y, w0, mi, b, need, tol, mc: [le(ONE, b), le(ONE, need), le(ONE, mi), le(ONE, idiv(X.rows, b))],
  gen=lambda g: (lambda n, d: [g.mat(n, d), g.vec(n), g.mat(d, g.r.randint(1, 3)), g.r.randint(1, 12), g.r.randint(1, min(n, 4)), g.r.randint(1, 4), g.r.choice([0, 1e-4, .1, 1., 5.]), g.r.random() < .5])(g.r.randint(1, 7), g.r.randint(1, 3)),
  ens=lambda ret, *a: [], no_closed=True, timeout=400)
# Bounded stand-ins (replayed on concrete inputs only): coefficient matrices with several columns / multi_class, and shuffling on.
P.code(r'''
struct BM { const M* X; const V* y; long nb, b, j, it; bool shuffle; size_t need, cnt; double tol, best, sum, lr; M cur, g; bool done, first; long t; std::vector<char> used; M Xb; V yb; };
inline void bm_batch(BM* m, const M& Xb, const V& yb) {
  vf_assert(m->j < m->nb && Xb.rows() == m->b && yb.rows() == m->b && Xb.cols() == m->X->cols(), "every step uses a full batch");
  if (!m->shuffle) { vf_same(Xb, m->X->middleRows(m->j * m->b, m->b), "the batch is the next full block of consecutive samples"); vf_same(yb, m->y->middleRows(m->j * m->b, m->b), "the targets belong to the batch"); }
  else for (long i = 0; i < Xb.rows(); ++i) { bool found = false;
    for (long k = 0; k < m->X->rows() && !found; ++k) if (!m->used[k] && (*m->y)(k) == yb(i) && m->X->row(k) == Xb.row(i)) { m->used[k] = 1; found = true; }
    vf_assert(found, "every batch row is an unused sample together with its own target"); } }
struct BMLoss { BM* m;
  M gradient(const M& Xb, const V& yb, const M& W) const { bm_batch(m, Xb, yb); vf_same(W, m->cur, "the gradient is taken at the current iterate"); m->Xb = Xb; m->yb = yb;
    M g(W.rows(), W.cols()); for (long r = 0; r < g.rows(); ++r) for (long c = 0; c < g.cols(); ++c) g(r, c) = vf_arb(10 * c + 11, m->t, r); m->g = g; return g; }
  double evaluate(const M& Xb, const V& yb, const M& W) const { vf_same(Xb, m->Xb, "the loss is measured on the same batch"); vf_same(yb, m->yb, "the loss uses the targets of the batch"); vf_same(W, m->cur, "the loss is measured at the new iterate");
    double l = vf_arb(2, m->t, 0); m->sum += l; m->j += 1; m->t += 1;
    if (m->j == m->nb) { if (m->sum > m->best - m->tol * m->b) m->cnt += 1; else m->cnt = 0; if (m->sum < m->best) m->best = m->sum; m->done = m->cnt >= m->need; } return l; } };
struct BMUpdate { BM* m;
  M update(const M& W, const M& G, double lr) const { vf_same(W, m->cur, "the update starts from the current iterate");
    M e = m->g; for (long r = 0; r < e.rows(); ++r) for (long c = 0; c < e.cols(); ++c) e(r, c) = e(r, c) > 1e10 ? 1e10 : e(r, c) < -1e10 ? -1e10 : e(r, c);
    vf_same(G, e, "the update receives the clipped gradient"); vf_assert(lr == m->lr, "the update receives the decayed learning rate of the epoch");
    M w(W.rows(), W.cols()); for (long r = 0; r < w.rows(); ++r) for (long c = 0; c < w.cols(); ++c) w(r, c) = vf_arb(10 * c + 13, m->t, r); m->cur = w; return w; } };
struct BMDecay { BM* m;
  double compute(size_t iter) const { vf_assert(m->first || m->j == m->nb, "every full batch is visited in every epoch"); vf_assert(!m->done, "the run stops as soon as the loss stopped improving");
    if (!m->first) m->it += 1; m->first = false; vf_assert((long)iter == m->it, "the learning rate is that of the epoch"); m->j = 0; m->sum = 0; m->used.assign(m->X->rows(), 0); m->lr = vf_arb(4, m->it, 0); return m->lr; } };
''')
P.fn('bool sgd_wide(const M& X, const V& y, const M& w0, size_t max_iter, size_t b, size_t need, double tol, bool multi, bool shuffle)', '''{
  BM m; m.X = &X; m.y = &y; m.b = b; m.nb = X.rows() / b; m.j = 0; m.it = 0; m.need = need; m.cnt = 0; m.tol = tol; m.shuffle = shuffle;
  m.best = std::numeric_limits<double>::infinity(); m.sum = 0; m.lr = 0; m.cur = w0; m.done = false; m.first = true; m.t = 0;
  BMLoss l; l.m = &m; BMUpdate u; u.m = &m; BMDecay d; d.m = &m;
  openml::optimizer::SGD<double, BMLoss, BMUpdate, BMDecay> o(w0, l, u, d, max_iter, b, need, tol, shuffle, false, multi);
  bool thrown = false;
  try { o.optimize(X, y); } catch (const std::exception& e) { thrown = true; }
  vf_assert(m.j == m.nb, "every full batch is visited in the last epoch");
  vf_assert(thrown == !m.done, "an error exactly when the epochs run out without convergence");
  if (thrown) vf_assert(m.it + 1 == (long)max_iter , "all configured epochs were used before giving up");
  if (!thrown) vf_same(o.get_coef(), m.cur, "the reported coefficients are the last iterate");
  return thrown; }''', prove=False, note='matrix-valued coefficients, multi_class and shuffled epochs: replayed on concrete inputs only',
  gen=lambda g: (lambda n, d: [g.mat(n, d), g.vec(n), g.mat(d, g.r.randint(1, 3)), g.r.randint(1, 12), g.r.randint(1, min(n, 4)), g.r.randint(1, 4), g.r.choice([0, 1e-4, .1, 1., 5.]), g.r.random() < .5, g.r.random() < .5])(g.r.randint(1, 9), g.r.randint(1, 3)))
