from spec import *
P = Prop('P30')
P.code(r"""
inline M upper_of(const M& A) { return A.triangularView<Eigen::Upper>(); }
""")
def lowrank(g, n, m):
    """small integer entries, often rank deficient"""
    if g.r.random() < .4: return g.mat(n, m)
    k = g.r.randint(1, max(1, min(n, m) - 1))
    A = [[g.r.randint(-2, 2) for _ in range(k)] for _ in range(n)]; B = [[g.r.randint(-2, 2) for _ in range(m)] for _ in range(k)]
    return {'r': n, 'c': m, 'e': [[float(sum(A[i][t] * B[t][j] for t in range(k))) for j in range(m)] for i in range(n)]}
def sq(lo=1, hi=6): return lambda g: (lambda n: [lowrank(g, n, n)])(g.r.randint(lo, hi))
none = lambda r, *a: []
TRI = '''
  for (Idx i = 0; i < L.rows(); ++i) for (Idx j = 0; j < L.cols(); ++j) if (j >= i) vf_assert(L(i, j) == (i == j ? 1.0 : 0.0), "L is unit lower triangular");
  for (Idx i = 0; i < U.rows(); ++i) for (Idx j = 0; j < U.cols(); ++j) if (j < i) vf_assert(U(i, j) == 0.0, "U is upper triangular");
'''
LU = '''{
  M P, L, U; std::tie(P, L, U) = openml::math::lu<M>(x, false);
  Idx k = std::min(x.rows(), x.cols());
  vf_assert(P.rows() == x.rows() && P.cols() == x.rows() && L.rows() == x.rows() && L.cols() == k && U.rows() == k && U.cols() == x.cols(), "shapes of P, L, U");
%s
  vf_same(P * P.transpose(), M::Identity(x.rows(), x.rows()), "P is orthogonal");
  vf_same(P * L * U, x, "P*L*U reproduces the input");
  M PL, L2, U2; std::tie(PL, L2, U2) = openml::math::lu<M>(x, true);
  vf_same(PL, P * L, "permute_l returns P*L");
  vf_same(PL * U2, x, "(P*L)*U reproduces the input");
  return P; }'''
P.fn('M lu_square(const M& x)', LU % '', dims={'x': 'n n'}, ens=none, gen=sq())
P.fn('M lu_triangular(const M& x)', '''{
  M P, L, U; std::tie(P, L, U) = openml::math::lu<M>(x, false);''' + TRI + '''  return P; }''', dims={'x': 'n n'}, ens=none, gen=sq())
P.fn('M lu_structure(const M& x)', LU % (TRI + '''
  for (Idx i = 0; i < P.rows(); ++i) { int ones = 0; for (Idx j = 0; j < P.cols(); ++j) { vf_assert(P(i, j) == 0.0 || P(i, j) == 1.0, "P is a permutation"); ones += P(i, j) == 1.0; } vf_assert(ones == 1, "P is a permutation"); }'''),
  dims={'x': 'n m'}, ens=none, gen=lambda g: (lambda n, m: [lowrank(g, n, m)])(g.r.randint(1, 6), g.r.randint(1, 6)), prove=False)
QR = '''{
  M Q, R; std::tie(Q, R) = openml::math::qr<M>(x, %s);
  Idx k = %s;
  vf_assert(Q.rows() == x.rows() && Q.cols() == k && R.rows() == k && R.cols() == x.cols(), "shapes of Q, R");
  vf_same(Q.transpose() * Q, M::Identity(k, k), "Q has orthonormal columns");
  vf_same(R, upper_of(R), "R is upper triangular");
  vf_same(Q * R, x, "Q*R reproduces the input");
  return Q; }'''
tall = lambda x: [le(x.cols, x.rows)]
wide = lambda x: [lt(x.rows, x.cols)]
gt = lambda g: (lambda a, b: [lowrank(g, max(a, b), min(a, b))])(g.r.randint(1, 6), g.r.randint(1, 6))
gw = lambda g: (lambda a, b: [lowrank(g, a, a + b)])(g.r.randint(1, 5), g.r.randint(1, 3))
for nm, rq, gn in (('tall', tall, gt), ('wide', wide, gw)):
    P.fn('M qr_full_%s(const M& x)' % nm, QR % ('true', 'x.rows()'), dims={'x': 'n m'}, req=rq, gen=gn, ens=none)
    P.fn('M qr_thin_%s(const M& x)' % nm, QR % ('false', 'x.cols()' if nm == 'tall' else 'x.rows()'), dims={'x': 'n m'}, req=rq, gen=gn, ens=none)
SVD = '''{
  M U, V0; V s; std::tie(U, s, V0) = openml::math::exact_svd<M, V>(x, %s);
  Idx k = %s;
  vf_assert(s.rows() == k && U.rows() == x.rows() && V0.rows() == x.cols() && U.cols() == %s && V0.cols() == %s, "shapes of U, s, V");
  vf_same(U.transpose() * U, M::Identity(U.cols(), U.cols()), "U has orthonormal columns");
  vf_same(V0.transpose() * V0, M::Identity(V0.cols(), V0.cols()), "V has orthonormal columns");
  M S = M::Zero(U.cols(), V0.cols()); S.diagonal() = s;
  vf_same(U * S * V0.transpose(), x, "U*diag(s)*V^T reproduces the input");
  return U; }'''
ORD = '''{
  M U, V0; V s; std::tie(U, s, V0) = openml::math::exact_svd<M, V>(x, false);
  return s; }'''
for sz, lim in (('', lambda x: lt(x.cols, c(16))), ('_big', lambda x: le(c(16), x.cols))):
    big = bool(sz)
    for nm, rq in (('tall', tall), ('wide', wide)):
        def gen(g, nm=nm, big=big):
            d = g.r.randint(16, 19) if big else g.r.randint(1, 6)
            n = d + g.r.randint(0, 3) if nm == 'tall' else g.r.randint(1, max(1, d - 1))
            if nm == 'wide' and d == 1: d = 2
            return [lowrank(g, n, d)]
        k = 'x.cols()' if nm == 'tall' else 'x.rows()'
        R = lambda x, rq=rq, lim=lim: rq(x) + [lim(x)]
        P.fn('M svd_full_%s%s(const M& x)' % (nm, sz), SVD % ('true', k, 'x.rows()', 'x.cols()'), dims={'x': 'n m'}, req=R, gen=gen, ens=none)
        P.fn('M svd_thin_%s%s(const M& x)' % (nm, sz), SVD % ('false', k, k, k), dims={'x': 'n m'}, req=R, gen=gen, ens=none)
        P.fn('V svd_values_%s%s(const M& x)' % (nm, sz), ORD, dims={'x': 'n m'}, req=R, gen=gen,
          ens=lambda r, x: [('singular values are not negative', Forall(r.rows, lambda i: le(ZERO, r.f(i, ZERO)))), ('singular values do not increase', Forall(r.rows, lambda i: Forall(r.rows, lambda j: or_(lt(j, i), le(r.f(j, ZERO), r.f(i, ZERO))))))])
        P.fn('M pinv_%s%s(const M& x, double tol)' % (nm, sz), '''{
  M U, V0; V s; std::tie(U, s, V0) = openml::math::exact_svd<M, V>(x, true);
  M B = openml::math::pinv<M, V>(x, tol);
  for (Idx i = 0; i < s.rows(); ++i) if (!(vf_zero(s(i)) || s(i) > tol)) return B;
  vf_assert(B.rows() == x.cols() && B.cols() == x.rows(), "shape of the pseudo-inverse");
  vf_same(x * B * x, x, "A*B*A = A");
  vf_same(B * x * B, B, "B*A*B = B");
  vf_same((x * B).transpose(), x * B, "A*B is symmetric");
  vf_same((B * x).transpose(), B * x, "B*A is symmetric");
  return B; }''', dims={'x': 'n m'}, req=lambda x, tol, R=R: R(x) + [le(ZERO, tol)], vals={'tol': [1e-6]}, gen=lambda g, gen=gen: gen(g) + [g.r.choice([1e-6, 1e-8])], ens=none)
spd = lambda g: (lambda n: [(lambda A: {'r': n, 'c': n, 'e': [[sum(A[i][k] * A[j][k] for k in range(n)) + (g_ if i == j else 0) for j in range(n)] for i in range(n)]})([[g.num() for _ in range(n)] for _ in range(n)]) for g_ in [g.r.choice([.5, 1., 2., -1.])]])(g.r.randint(1, 6))
P.fn('M chol_lower(const M& x)', '''{
  M z(0, 0); if (!vf_spd(x)) return z;
  M L = openml::math::cholesky<M>(x, true);
  vf_assert(L.rows() == x.rows() && L.cols() == x.rows(), "shape of L");
  for (Idx i = 0; i < L.rows(); ++i) { vf_assert(L(i, i) > 0, "L has a positive diagonal"); for (Idx j = i + 1; j < L.cols(); ++j) vf_assert(L(i, j) == 0.0, "L is lower triangular"); }
  vf_same(L * L.transpose(), x, "L*L^T reproduces the input");
  return L; }''', dims={'x': 'n n'}, gen=spd, ens=none)
P.fn('M chol_upper(const M& x)', '''{
  M z(0, 0); if (!vf_spd(x)) return z;
  M U = openml::math::cholesky<M>(x, false);
  vf_assert(U.rows() == x.rows() && U.cols() == x.rows(), "shape of U");
  for (Idx i = 0; i < U.rows(); ++i) { vf_assert(U(i, i) > 0, "U has a positive diagonal"); for (Idx j = 0; j < i; ++j) vf_assert(U(i, j) == 0.0, "U is upper triangular"); }
  vf_same(U.transpose() * U, x, "U^T*U reproduces the input");
  return U; }''', dims={'x': 'n n'}, gen=spd, ens=none)
P.fn('M eig_real(const M& a)', '''{
  M x = a + a.transpose();
  M w, Q; std::tie(w, Q) = openml::math::eig<M>(x);
  vf_assert(w.rows() == x.rows() && w.cols() == 1 && Q.rows() == x.rows() && Q.cols() == x.rows(), "shapes");
  M D = M::Zero(x.rows(), x.rows()); for (Idx i = 0; i < x.rows(); ++i) D(i, i) = w(i, 0);
  vf_same(x * Q, Q * D, "columns are eigenvectors of the eigenvalues");
  for (Idx i = 0; i < x.rows(); ++i) vf_assert(Q.col(i).squaredNorm() > 0.5, "eigenvectors are not zero");
  return w; }''', dims={'a': 'n n'}, ens=none, gen=lambda g: (lambda n: [{'r': n, 'c': n, 'e': [[g.num() + (7. * i if i == j else 0) for j in range(n)] for i in range(n)]}])(g.r.randint(1, 6)))
P.fn('double logdet_val(const M& x)', '{ return openml::math::logdet<M>(x); }', dims={'x': 'n n'}, gen=sq(), prove=False,
  oracle=lambda r, x: (lambda d, sc: None if abs(d) <= 1e-9 * sc or (d < 0 and r == -math.inf) or (d > 0 and abs(r - math.log(d)) <= 1e-6 * (1 + abs(math.log(d)))) else 'log-determinant %r of a matrix with determinant %r' % (r, d))(__import__('numpy').linalg.det(__import__('numpy').array(x['e'])), max(1, max(abs(v) for q in x['e'] for v in q)) ** x['r']))
