from spec import *
P = Prop('P20')
P.include('methods/linear_model/logistic_regression.hpp', 'methods/linear_model/perceptron.hpp', 'methods/linear_model/softmax_regression.hpp')
P.code(r"""
struct LogX : openml::linear_model::LogisticRegression<double> { LogX() {} void set(const M& w) { this->w_ = w; } };
struct PerX : openml::linear_model::Perceptron<double> { PerX(bool i) : openml::linear_model::Perceptron<double>(0.1, 0.0, 1e-3, 4, 10, 5, "None", i, true, false) {} void set(const M& w) { this->w_ = w; } };
struct SofX : openml::linear_model::SoftmaxRegression<double> { SofX(bool i) { this->intercept_ = i; } void set(const M& w) { this->w_ = w; } };
""")
gX = lambda k: (lambda g: (lambda n, d: [g.mat(n, d), g.vec(d + k)])(g.r.randint(1, 5), g.r.randint(1, 4)))
score = lambda X, w, icpt: (lambda i: add(Sum(X.cols, lambda j: mul(X.f(i, j), w.f(j, ZERO))), w.f(X.cols, ZERO) if icpt else ZERO))
def fullw(X, w): return [eq(w.rows, add(X.cols, ONE))]
sig = lambda t: inv(add(ONE, exp(mul(-1, t))))
def clf(ret, X, w, icpt):
    yield 'shape', eq(ret.rows, X.rows)
    yield 'positive class exactly when the score is positive', Forall(X.rows, lambda i: eq(ret.f(i, ZERO), ite(lt(ZERO, score(X, w, icpt)(i)), ONE, ZERO)))
def clfsig(ret, X, w):
    yield 'shape', eq(ret.rows, X.rows)
    yield 'positive class exactly when the sigmoid of the score exceeds one half', Forall(X.rows, lambda i: eq(ret.f(i, ZERO), ite(lt(div(ONE, c(2)), sig(score(X, w, True)(i))), ONE, ZERO)))
P.fn('V log_predict(const M& X, const V& w)', '{ LogX o; o.set(w); return o.predict(X); }', dims={'X': 'n d', 'w': 'd+1'}, gen=gX(1), ens=clfsig)
def prob(ret, X, w):
    yield 'shape', and_(eq(ret.rows, X.rows), eq(ret.cols, c(2)))
    yield 'second column: sigmoid of the score', Forall(X.rows, lambda i: eq(ret.f(i, ONE), sig(score(X, w, True)(i))))
    yield 'first column: the complement', Forall(X.rows, lambda i: eq(add(ret.f(i, ZERO), ret.f(i, ONE)), ONE))
    yield 'probabilities', Forall(X.rows, lambda i: and_(le(ZERO, ret.f(i, ZERO)), le(ret.f(i, ZERO), ONE), le(ZERO, ret.f(i, ONE)), le(ret.f(i, ONE), ONE)))
P.fn('M log_prob(const M& X, const V& w)', '{ LogX o; o.set(w); return o.predict_prob(X); }', dims={'X': 'n d', 'w': 'd+1'}, gen=gX(1), ens=prob)
P.fn('V log_consistent(const M& X, const V& w)', '''{
  LogX o; o.set(w); V y = o.predict(X); M p = o.predict_prob(X);
  for (Idx i = 0; i < X.rows(); ++i) { if (p(i, 1) > 0.5) vf_assert(y(i) == 1, "the more probable class is predicted"); else vf_assert(y(i) == 0, "the more probable class is predicted"); }
  return y; }''', dims={'X': 'n d', 'w': 'd+1'}, gen=gX(1), ens=lambda r, *a: [])
P.fn('V per_icpt(const M& X, const V& w)', '{ PerX o(true); o.set(w); return o.predict(X); }', dims={'X': 'n d', 'w': 'd+1'}, gen=gX(1), ens=lambda r, X, w: clf(r, X, w, True))
P.fn('V per_plain(const M& X, const V& w)', '{ PerX o(false); o.set(w); return o.predict(X); }', dims={'X': 'n d', 'w': 'd'}, gen=gX(0), ens=lambda r, X, w: clf(r, X, w, False))
def gs(k): return lambda g: (lambda n, d, q: [g.mat(n, d), g.mat(d + k, q)])(g.r.randint(1, 5), g.r.randint(1, 4), g.r.randint(1, 4))
for icpt in (True, False):
    t = '_icpt' if icpt else '_plain'; b = 'true' if icpt else 'false'
    S = lambda X, W, i, q, icpt=icpt: add(Sum(X.cols, lambda j: mul(X.f(i, j), W.f(j, q))), W.f(X.cols, q) if icpt else ZERO)
    rq = (lambda X, W: fullw(X, W)) if icpt else (lambda X, W: [eq(W.rows, X.cols)])
    P.fn('M soft_prob%s(const M& X, const M& W)' % t, '{ SofX o(%s); o.set(W); return o.predict_prob(X); }' % b, dims={'X': 'n d', 'W': ('d+1 k' if icpt else 'd k')}, gen=gs(icpt), throws=lambda X, W: or_(eq(X.rows, ONE), eq(W.cols, ONE)),
      ens=lambda r, X, W, S=S: mat_is(r, X.rows, W.cols, lambda i, q: div(exp(S(X, W, i, q)), Sum(W.cols, lambda p: exp(S(X, W, i, p)))), 'softmax of the scores')
          + [('probabilities sum to one', Forall(X.rows, lambda i: eq(Sum(W.cols, lambda q: r.f(i, q)), ONE))), ('probabilities are positive', Forall(X.rows, lambda i: Forall(W.cols, lambda q: le(ZERO, r.f(i, q)))))])
    P.fn('V soft_predict%s(const M& X, const M& W)' % t, '''{
  SofX o(%s); o.set(W); M p = o.predict_prob(X); V y = o.predict(X);
  vf_assert(y.rows() == X.rows(), "one label per sample");
  for (Idx i = 0; i < X.rows(); ++i) for (Idx q = 0; q < W.cols(); ++q) vf_assert(p(i, q) <= p(i, (Idx)y(i)), "the predicted class has the largest probability");
  return y; }''' % b, dims={'X': 'n d', 'W': ('d+1 k' if icpt else 'd k')}, gen=gs(icpt), throws=lambda X, W: or_(eq(X.rows, ONE), eq(W.cols, ONE)), ens=lambda r, X, W: [('labels are classes', Forall(X.rows, lambda i: and_(le(ZERO, r.f(i, ZERO)), lt(r.f(i, ZERO), W.cols))))])
