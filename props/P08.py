from spec import *
P = Prop('P08')
D = {'x': 'n d', 'y': 'n d'}
v2 = {'a': 'n', 'b': 'n'}
P.fn('double euclidean(const vector<double>& a, const vector<double>& b)', '{ return openml::metric::euclidean_distance(a, b); }', dims=v2, min={'n': 0},
     ens=lambda r, a, b: [('value', eq(r, sqrt(Sum(a.n, lambda i: mul(sub(a.f(i), b.f(i)), sub(a.f(i), b.f(i)))))))])
P.fn('double manhattan(const vector<double>& a, const vector<double>& b)', '{ return openml::metric::manhattan_distance(a, b); }', dims=v2, min={'n': 0},
     ens=lambda r, a, b: [('value', eq(r, Sum(a.n, lambda i: abs_(sub(a.f(i), b.f(i))))))])
sh = lambda x, y: or_(not_(eq(x.rows, y.rows)), not_(eq(x.cols, y.cols)))
def gm(g):
    n, d = g.dim(), g.dim(); a = g.mat(n, d); q = g.r.random()
    return [a, g.mat(n, d) if q < .7 else g.mat(d, n) if q < .85 else g.mat(g.dim(), g.dim())]
for o, nm in (('1', 'l1'), ('2', 'l2'), ('Eigen::Infinity', 'inf')):
    def val(x, y, nm=nm):
        if nm == 'l1': return Sum(x.rows, lambda i: Sum(x.cols, lambda j: abs_(sub(x.f(i, j), y.f(i, j)))))
        if nm == 'l2': return sqrt(Sum(x.rows, lambda i: Sum(x.cols, lambda j: mul(sub(x.f(i, j), y.f(i, j)), sub(x.f(i, j), y.f(i, j))))))
        return Max(x.rows, lambda i: Max(x.cols, lambda j: abs_(sub(x.f(i, j), y.f(i, j)))))
    P.fn('double minkowski_%s(const M& x, const M& y)' % nm, '{ return openml::metric::minkowski_distance<M>(x, y, %s); }' % o, dims={'x': 'n d', 'y': 'm e'},
         gen=gm, throws=sh, ens=lambda r, x, y, val=val: [('value', eq(r, val(x, y)))])
P.fn('double minkowski_order(const M& x, const M& y, int p)', '{ return openml::metric::minkowski_distance<M>(x, y, p); }', dims=D, vals={'p': [0, 1, 2, 3, -2, 4, 5, 10, -1]},
     throws=lambda x, y, p: not_(or_(eq(p, 1), eq(p, 2), eq(p, c(-1)))))
P.fn('double mse_metric(const V& y, const V& q)', '{ return openml::metric::mean_absolute_error<V>(y, q); }', dims={'y': 'n', 'q': 'n'},
     ens=lambda r, y, q: [('value', eq(r, div(Sum(y.rows, lambda i: mul(sub(y.f(i, ZERO), q.f(i, ZERO)), sub(y.f(i, ZERO), q.f(i, ZERO)))), y.rows)))])
def var_(n, f):
    m = div(Sum(n, f), n)
    return div(Sum(n, lambda i: mul(sub(f(i), m), sub(f(i), m))), n)
P.fn('double explained_variance(const V& y, const V& q)', '{ return openml::metric::explained_variance_score<V>(y, q); }', dims={'y': 'n', 'q': 'n'}, min={'n': 2},
     req=lambda y, q: [lt(ZERO, var_(y.rows, V_(y)))],
     ens=lambda r, y, q: [('value', eq(r, sub(ONE, div(var_(y.rows, lambda i: sub(q.f(c(i), ZERO), y.f(c(i), ZERO))), var_(y.rows, V_(y))))))])
