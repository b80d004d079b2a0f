from spec import *
P = Prop('P12')
D = {'W': 'n d', 'G': 'n d', 'W2': 'n d', 'G2': 'n d', 'G3': 'n d'}
def at(m, i, j): return m.f(i, j)
P.fn('M vanilla(const M& W, const M& G, double lr)', '{ openml::optimizer::VanillaUpdate<double> u; return u.update(W, G, lr); }', dims=D,
     ens=lambda r, W, G, lr: mat_is(r, W.rows, W.cols, lambda i, j: sub(W.f(i, j), mul(lr, G.f(i, j)))))
P.fn('M momentum_first(const M& W, const M& G, double mu, double lr)', '{ openml::optimizer::MomentumUpdate<double> u(mu); return u.update(W, G, lr); }', dims=D,
     ens=lambda r, W, G, mu, lr: mat_is(r, W.rows, W.cols, lambda i, j: sub(W.f(i, j), mul(lr, G.f(i, j)))))
# velocity: V_k = mu V_{k-1} + lr_k G_k, W_k = W_{k-1} - V_k, over a history of calls
P.fn('M momentum_second(const M& W, const M& G, const M& W2, const M& G2, double mu, double lr, double lr2)',
     '{ openml::optimizer::MomentumUpdate<double> u(mu); M a = u.update(W, G, lr); return u.update(W2, G2, lr2); }', dims=D,
     ens=lambda r, W, G, W2, G2, mu, lr, lr2: mat_is(r, W.rows, W.cols, lambda i, j: sub(W2.f(i, j), add(mul(mu, lr, G.f(i, j)), mul(lr2, G2.f(i, j))))))
P.fn('M momentum_third(const M& W, const M& G, const M& G2, const M& G3, double mu, double lr)',
     '{ openml::optimizer::MomentumUpdate<double> u(mu); M a = u.update(W, G, lr); a = u.update(a, G2, lr); return u.update(a, G3, lr); }', dims=D,
     ens=lambda r, W, G, G2, G3, mu, lr: mat_is(r, W.rows, W.cols, lambda i, j: sub(W.f(i, j), mul(lr, add(
         mul(add(add(1, mu), mul(mu, mu)), G.f(i, j)), mul(add(1, mu), G2.f(i, j)), G3.f(i, j))))))
# any number of calls: a vector of gradients G_0..G_{K-1}; the last velocity is sum_k mu^(K-1-k) lr G_k
P.fn('double momentum_history(const vector<double>& g, double mu, double lr)',
     '''{ openml::optimizer::MomentumUpdate<double> u(mu); M w(1, 1), G(1, 1); double v = 0; w(0, 0) = 0; double c = 0;
  for (size_t k = 0; k < g.size(); ++k) { G(0, 0) = g[k]; w = u.update(w, G, lr); v = mu * v + lr * g[k]; c = c - v; vf_assert(w(0, 0) == c || std::abs(w(0, 0) - c) <= 1e-9 * (1 + std::abs(c)), "iterate follows the velocity recurrence"); }
  return w(0, 0); }''', prove=False, note='arbitrary history lengths: executed; two and three calls are proved')
P.fn('double step_decay(double base, double gamma, size_t step, size_t epoch)', '{ openml::optimizer::StepDecay<double> d(base, gamma, step); return d.compute(epoch); }',
     req=lambda b, g, s, e: [le(ONE, s), lt(ZERO, g)], gen=lambda g: [g.num(), abs(g.num()) + .1, g.r.randint(1, 12), g.r.choice([0, 1, 2, 5, 9, 10, 11, 19, 20, 30, g.r.randint(0, 60)])],
     ens=lambda r, b, g, s, e: [('value', eq(r, mul(b, fn('pow', g, idiv(e, s)))))])
P.fn('double step_decay_default(size_t epoch)', '{ openml::optimizer::StepDecay<double> d; return d.compute(epoch); }', gen=lambda g: [g.r.randint(0, 60)],
     ens=lambda r, e: [('value', eq(r, mul(c(Fraction(1, 10)), fn('pow', c(Fraction(1, 2)), idiv(e, 10)))))])
P.fn('double exp_decay(double base, double gamma, size_t epoch)', '{ openml::optimizer::ExponentialDecay<double> d(base, gamma); return d.compute(epoch); }',
     gen=lambda g: [g.num(), g.num(), g.r.randint(0, 20)], ens=lambda r, b, g, e: [('value', eq(r, mul(b, exp(mul(-1, g, e)))))])
P.fn('double exp_decay_default(size_t epoch)', '{ openml::optimizer::ExponentialDecay<double> d; return d.compute(epoch); }', gen=lambda g: [g.r.randint(0, 60)],
     ens=lambda r, e: [('value', eq(r, mul(c(Fraction(1, 10)), exp(mul(c(Fraction(-1, 2)), e)))))])
# monotone in the epoch for a non-negative base and rate (0 < gamma <= 1 for the step schedule)
P.fn('pair<double, double> exp_decay_order(double base, double gamma, size_t e1, size_t e2)', '{ openml::optimizer::ExponentialDecay<double> d(base, gamma); double a = d.compute(e1); return {a, d.compute(e2)}; }',
     req=lambda b, g, e1, e2: [le(ZERO, b), le(ZERO, g), le(e1, e2)], gen=lambda g: (lambda e: [abs(g.num()), abs(g.num()), e, e + g.r.randint(0, 9)])(g.r.randint(0, 9)),
     ens=lambda r, b, g, e1, e2: [('non-increasing', le(r.xs[1], r.xs[0]))])
P.fn('pair<double, double> step_decay_order(double base, double gamma, size_t step, size_t e1, size_t e2)', '{ openml::optimizer::StepDecay<double> d(base, gamma, step); double a = d.compute(e1); return {a, d.compute(e2)}; }',
     req=lambda b, g, s, e1, e2: [le(ZERO, b), lt(ZERO, g), le(g, ONE), le(ONE, s), le(e1, e2)], gen=lambda g: (lambda e: [abs(g.num()), g.r.choice([.1, .5, .9, 1.]), g.r.randint(1, 6), e, e + g.r.randint(0, 9)])(g.r.randint(0, 9)),
     ens=lambda r, b, g, s, e1, e2: [('non-increasing', le(r.xs[1], r.xs[0]))])
P.fn('bool decay_is_stateless(double base, double gamma, size_t step, size_t e1, size_t e2)',
     '{ openml::optimizer::StepDecay<double> d(base, gamma, step), f(base, gamma, step); openml::optimizer::ExponentialDecay<double> x(base, gamma), z(base, gamma); d.compute(e1); x.compute(e1); return d.compute(e2) == f.compute(e2) && x.compute(e2) == z.compute(e2); }',
     req=lambda b, g, s, e1, e2: [le(ONE, s), lt(ZERO, g)], gen=lambda g: [g.num(), abs(g.num()) + .1, g.r.randint(1, 6), g.r.randint(0, 20), g.r.randint(0, 20)],
     ens=lambda r, *a: [('the value depends on the epoch alone', r)])
