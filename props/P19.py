from spec import *
P = Prop('P19')
P.include('methods/linear_model/linear_regression.hpp', 'methods/linear_model/ridge_regression.hpp')
P.code(r"""
struct LinX : openml::linear_model::LinearRegression<double> { LinX(bool i) : openml::linear_model::LinearRegression<double>(i) {} void set(const M& w) { this->w_ = w; } };
struct RidX : openml::linear_model::RidgeRegression<double> { RidX(double l, bool i) : openml::linear_model::RidgeRegression<double>(l, i) {} void set(const M& w) { this->w_ = w; } };
inline M aug(const M& X, bool intercept) { if (!intercept) return X; M A = M::Ones(X.rows(), X.cols() + 1); A.leftCols(X.cols()) = X; return A; }
""")
def pred_spec(ret, X, w, icpt):
    yield 'shape', and_(eq(ret.rows, X.rows), eq(ret.cols, ONE))
    yield 'affine function of the coefficients', Forall(X.rows, lambda i: eq(ret.f(i, ZERO), add(Sum(X.cols, lambda j: mul(X.f(i, j), w.f(j, ZERO))), w.f(X.cols, ZERO) if icpt else ZERO)))
for nm, cls, mk in (('lin', 'LinX', 'LinX o(%s);'), ('ridge', 'RidX', 'RidX o(0.5, %s);')):
    P.fn('V %s_predict_icpt(const M& X, const V& w)' % nm, '{ %s o.set(w); return o.predict(X); }' % (mk % 'true'), dims={'X': 'n d', 'w': 'd1'}, req=lambda X, w: [eq(w.rows, add(X.cols, ONE))],
      gen=lambda g: (lambda n, d: [g.mat(n, d), g.vec(d + 1)])(g.r.randint(1, 5), g.r.randint(1, 4)), ens=lambda ret, X, w: pred_spec(ret, X, w, True))
    P.fn('V %s_predict_plain(const M& X, const V& w)' % nm, '{ %s o.set(w); return o.predict(X); }' % (mk % 'false'), dims={'X': 'n d', 'w': 'd'}, ens=lambda ret, X, w: pred_spec(ret, X, w, False))
for icpt in (True, False):
    b = 'true' if icpt else 'false'; t = '_icpt' if icpt else '_plain'
    tail = '''  V w = o.get_coef();
  vf_assert(w.rows() == A.cols(), "one coefficient per feature%s");
  V lhs = K * w, rhs = A.transpose() * y;
  vf_same(lhs, rhs, "%%s");
  V p = o.predict(Z), q = aug(Z, %s) * w;
  vf_same(p, q, "prediction uses the reported coefficients%s");
  return w; }''' % (' and the intercept last' if icpt else '', b, ' and intercept' if icpt else '')
    P.fn('V lin_fit%s(const M& X, const V& y, const M& Z)' % t, '''{
  M A = aug(X, %s); M K = A.transpose() * A;
  V none(0); if (!vf_regular(K)) return none;
  openml::linear_model::LinearRegression<double> o(%s); o.fit(X, y);
''' % (b, b) + tail % 'the coefficients solve the normal equations', dims={'X': 'n d', 'y': 'n', 'Z': 'k d'}, min={'n': 1, 'd': 1}, ens=lambda r, *a: [])
    P.fn('V ridge_fit%s(const M& X, const V& y, const M& Z, double lambda)' % t, '''{
  M A = aug(X, %s); M K = A.transpose() * A + lambda * M::Identity(A.cols(), A.cols());
  V none(0); if (!vf_regular(K)) return none;
  openml::linear_model::RidgeRegression<double> o(lambda, %s); o.fit(X, y);
''' % (b, b) + tail % 'the coefficients solve the penalised normal equations', dims={'X': 'n d', 'y': 'n', 'Z': 'k d'}, min={'n': 1, 'd': 1}, vals={'lambda': [0., .5, 1., .01, 10.]}, ens=lambda r, *a: [])
