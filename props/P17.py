from spec import *
P = Prop('P17')
# The loss is a monitor: it checks every point the line search evaluates and answers with arbitrary values.
P.code(r"""
struct LMon { const M* X; const V* y; const V* xp; const V* d; double* step; long n, ng; double f; V g; double prev, lo, hi; size_t maxls; };
struct LLoss { LMon* m;
  double evaluate(const M& Xb, const V& yb, const V& W) const {
    vf_same(Xb, *m->X, "the objective is evaluated on the data"); vf_same(yb, *m->y, "the objective is evaluated on the targets");
    vf_same(W, *m->xp + *m->step * *m->d, "every trial point is the start plus the step times the direction");
    m->prev = *m->step; m->f = vf_arb(2, m->n, 0); m->n += 1; return m->f; }
  V gradient(const M& Xb, const V& yb, const V& W) const {
    vf_same(Xb, *m->X, "the gradient is taken on the data"); vf_same(yb, *m->y, "the gradient is taken on the targets");
    vf_same(W, *m->xp + *m->step * *m->d, "the gradient is taken at the trial point");
    V g = vf_arbm(1, m->ng, W.rows(), 1); m->g = g; m->ng += 1; return g; } };
struct LLossB { LMon* m;
  double evaluate(const M& Xb, const V& yb, const V& W) const {
    vf_same(Xb, *m->X, "the objective is evaluated on the data"); vf_same(yb, *m->y, "the objective is evaluated on the targets");
    vf_assert(m->n < (long)m->maxls, "no more trials than configured");
    vf_same(W, *m->xp + *m->step * *m->d, "every trial point is the start plus the step times the direction");
    vf_assert(m->n == 0 || (m->prev >= m->lo && m->prev <= m->hi), "the search goes on only from a step within the bounds");
    m->prev = *m->step; m->f = vf_arb(2, m->n, 0); m->n += 1; return m->f; }
  V gradient(const M& Xb, const V& yb, const V& W) const {
    vf_same(Xb, *m->X, "the gradient is taken on the data"); vf_same(yb, *m->y, "the gradient is taken on the targets");
    vf_same(W, *m->xp + *m->step * *m->d, "the gradient is taken at the trial point");
    V g = vf_arbm(1, m->ng, W.rows(), 1); m->g = g; m->ng += 1; return g; } };
""")
def client(cls, nm, kind):
    cond = ('"ARMIJO"', '"WOLFE"', '"STRONG_WOLFE"')
    k = 'kind' if kind is None else str(kind)
    cs = 'kind == 0 ? "ARMIJO" : kind == 1 ? "WOLFE" : "STRONG_WOLFE"' if kind is None else cond[kind]
    post = {0: [], 1: ['W'], 2: ['W', 'S'], None: ['W', 'S']}[kind]
    W = ('' if kind is not None else 'kind == 0 || ') + 'd.dot(g) >= wolfe * dg0'
    S = ('' if kind is not None else 'kind == 0 || kind == 1 || ') + 'd.dot(g) <= -wolfe * dg0'
    return '''int %s(const M& X, const V& y, const V& xp, const V& d, const V& g0, double f0, double step0, double dec, double inc, double ftol, double wolfe, double hi, double lo, size_t maxls%s)''' % (nm, ', int kind' if kind is None else ''), '''{
  std::string cond = %s;
  double step = step0, fx = f0; V x = xp, g = g0, dd = d;
  LMon m; m.X = &X; m.y = &y; m.xp = &xp; m.d = &d; m.step = &step; m.n = 0; m.ng = 0; m.f = f0; m.g = g0; m.prev = step0; m.lo = lo; m.hi = hi; m.maxls = maxls;
  %s l; l.m = &m;
  openml::optimizer::LineSearchParams<double> p(dec, inc, ftol, wolfe, hi, lo, maxls, cond);
  openml::optimizer::%s<double, %s, openml::optimizer::LineSearchParams<double>> s(X, y, l, p);
  int r = s.search(x, fx, g, dd, step, xp, g0);
  double dg0 = d.dot(g0);
  vf_same(dd, d, "the direction is not changed");
  if (step0 <= 0 || dg0 > 0) { vf_assert(r < 0 && m.n == 0 && m.ng == 0, "a non-positive step or an ascent direction is rejected at once"); return r; }
  vf_assert(m.n > 0 && m.ng == m.n, "value and gradient are taken at every trial");
  if (r < 0) { vf_assert(step < lo || step > hi || m.n >= (long)maxls, "failure only when the step leaves its bounds or the trials run out"); return r; }
  vf_assert(r == m.n, "the number of trials is returned");
  vf_same(x, xp + step * d, "the returned point is the start plus the returned step times the direction");
  vf_assert(fx == m.f, "the returned value is that of the returned point");
  vf_same(g, m.g, "the returned gradient is that of the returned point");
  vf_assert(fx <= f0 + step * (ftol * dg0), "sufficient decrease (Armijo)");
%s  return r; }''' % (cs, 'LLoss' if kind is not None else 'LLossB', cls, 'LLoss' if kind is not None else 'LLossB', ('  vf_assert(%s, "curvature condition (Wolfe)");\n' % W if 'W' in post else '') + ('  vf_assert(%s, "strong curvature condition (strong Wolfe)");\n' % S if 'S' in post else ''))
for cls, nm in (('LineSearchBacktracking', 'backtracking'), ('LineSearchBracketing', 'bracketing')):
  for kind in (0, 1, 2, None):
    sig, body = client(cls, nm + {0: '_armijo', 1: '_wolfe', 2: '_strong', None: '_bounded'}[kind], kind)
    P.fn(sig, body, dims={'X': 'n d', 'y': 'n', 'xp': 'd', 'd': 'd', 'g0': 'd'}, req=lambda X, y, xp, d, g0, f0, step, dec, inc, ftol, wolfe, hi, lo, ml, *k: [le(ONE, ml)],
      vals={'step0': lambda g: g.r.choice([1., .5, 2., 1e-3, -1., 0., 3., .1]), 'dec': [.5, .25, .9], 'inc': [2.1, 2., 1.5], 'ftol': [1e-4, .1, .5, 0.], 'wolfe': [.9, .1, .5], 'hi': [1e20, 4., 10.], 'lo': [1e-20, .1, .01], 'maxls': lambda g: g.r.randint(1, 20), **({} if kind is not None else {'kind': [0, 1, 2]})},
      ens=lambda r, *a: [], no_closed=True, timeout=300, prove=kind is not None, undischarged=['the number of trials is returned'] if kind == 2 else [], **({'bounded': True, 'note': 'trial limit and step bounds along the search, on concrete inputs'} if kind is None else {}))
