from spec import *
P = Prop('P31')
P.include('methods/linear_model/linear_regression.hpp', 'methods/linear_model/ridge_regression.hpp', 'methods/linear_model/lasso_regression.hpp', 'methods/linear_model/logistic_regression.hpp', 'methods/linear_model/softmax_regression.hpp',
          'methods/linear_model/perceptron.hpp', 'methods/decomposition/pca.hpp', 'methods/decomposition/truncated_svd.hpp', 'methods/naive_bayes/gaussian_naive_bayes.hpp', 'methods/naive_bayes/multinomial_naive_bayes.hpp',
          'methods/mixture/gaussian_mixture.hpp', 'methods/cluster/kmeans.hpp', 'methods/rule_model/apriori.hpp', 'methods/tree/decision_tree_classifier.hpp', 'methods/tree/decision_tree_regressor.hpp')
# in a replay the sources of randomness of the code are replaced by seeds that depend only on their position after vf_reset(), so that two runs see the same random choices
P.pre = r'''
#ifdef VF_REPLAY
#include <bits/stdc++.h>
namespace std { struct vf_rd { using result_type = unsigned; static inline unsigned next = 1; unsigned operator()() { return next++ * 2654435761u; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } double entropy() const { return 0; } }; }
namespace std { namespace chrono { struct vf_clk { using duration = nanoseconds; using time_point = std::chrono::time_point<vf_clk, nanoseconds>; static inline long next = 1; static time_point now() { return time_point(nanoseconds(next++ * 7919)); } }; } }
#define random_device vf_rd
#define system_clock vf_clk
#endif
'''
P.code('''
#ifdef VF_REPLAY
inline void vf_reset() { std::vf_rd::next = 1; std::chrono::vf_clk::next = 1; srand(1); }
#else
inline void vf_reset() {}
#endif
namespace lm = openml::linear_model; using TC = openml::decision_tree::DecisionTreeClassifier<double>; using TR = openml::decision_tree::DecisionTreeRegressor<double>; using AP = openml::rule_model::Apriori<size_t>;
''')
NOTE = 'iterative fit: executed with the same random choices for the refitted and the fresh object'
def sup(n_lo=1):
    def data(g, d, cls=None):
        n = g.r.randint(n_lo, 7); X = {'r': n, 'c': d, 'e': [[g.r.choice([g.num(), float(g.r.randint(-2, 3))]) for _ in range(d)] for _ in range(n)]}
        y = [g.num() for _ in range(n)] if cls is None else [float(g.r.choice(cls)) for _ in range(n)]
        if cls is not None:
            for i, v in enumerate(g.r.sample(cls, min(n, len(cls)))): y[i] = float(v)
        return X, y
    return data
def gens(data, cls=None, cls2=None, same=False, k=None):
    def gen(g):
        d1 = g.r.randint(1, 4); d2 = d1 if same else g.r.randint(1, 4)
        a, b = data(g, d1, cls); u, v = data(g, d2, cls2 or cls)
        return [a, b, u, v]
    return gen
SUP = '(const M& X1, const V& y1, const M& X2, const V& y2)'
def two(nm, ctor, seen, gen, prove=False, pre='', **kw):
    """the same observations after refitting and on a fresh object"""
    see = ' '.join('vf_same(a.%s, b.%s, "%s after a second fit is that of a fresh object");' % (s, s, s.split('(')[0]) for s in seen)
    if prove: P.fn('bool refit_%s' % nm + SUP, '{ ' + pre + 'auto a = %s; a.fit(X1, y1); a.fit(X2, y2); auto b = %s; b.fit(X2, y2); %s return true; }' % (ctor, ctor, see), gen=gen, ens=lambda r, *a: [], **kw)
    else: P.fn('bool refit_%s' % nm + SUP, '{ auto a = %s; vf_reset(); try { a.fit(X1, y1); } catch (std::exception&) {} vf_reset(); a.fit(X2, y2); auto b = %s; vf_reset(); b.fit(X2, y2); %s return true; }' % (ctor, ctor, see), gen=gen, ens=lambda r, *a: [], prove=False, note=NOTE, throw_ok=lambda a, w: True, **kw)
reg = gens(sup(2)); LIN = ['get_coef()', 'predict(X2)']
shape = lambda X1, y1, X2, y2: [eq(X1.rows, y1.rows), eq(X2.rows, y2.rows)]
D = {'X1': 'n d', 'y1': 'n', 'X2': 'm e', 'y2': 'm'}
P.code("""inline M gram(const M& X, bool icpt, double lam) {
  M A = X; if (icpt) { V ones(X.rows()); ones.fill(1.0); A.conservativeResize(X.rows(), X.cols() + 1); A.col(X.cols()) = ones; }
  M G = A.transpose() * A; if (lam > 0) { M E = G + lam * M::Identity(A.cols(), A.cols()); return E; } return G; }
""")
GRAM = lambda b, l: 'if (!vf_regular(gram(X1, %s, %s)) || !vf_regular(gram(X2, %s, %s))) return true; ' % (b, l, b, l)
for b in ('true', 'false'):
    two('linear_%s' % b, 'lm::LinearRegression<double>(%s)' % b, LIN, reg, True, dims=D, pre=GRAM(b, '0'))
    two('ridge_%s' % b, 'lm::RidgeRegression<double>(0.5, %s)' % b, LIN, reg, True, dims=D, pre=GRAM(b, '0.5'))
    two('lasso_%s' % b, 'lm::LassoRegression<double>(30, 0.1, 0.5, true, false, %s)' % b, LIN, reg)
    two('perceptron_%s' % b, 'lm::Perceptron<double>(0.1, 0.0, 1e-4, 2, 20, 5, "l2", %s, true, false)' % b, LIN, gens(sup(2), [-1, 1]))
for s, pen in (('sgd', 'l2'), ('sgd', 'None'), ('sag', 'l2')):
    two('logistic_%s_%s' % (s, pen), 'lm::LogisticRegression<double>(0.1, 0.01, 1e-4, 2, 20, 5, "%s", "%s", true, false)' % (s, pen), LIN + ['predict_prob(X2)'], gens(sup(2), [0, 1]))
two('logistic_scd', 'lm::LogisticRegression<double>(0.1, 0.5, 20, "scd", "l1", true, false)', LIN + ['predict_prob(X2)'], gens(sup(2), [0, 1]))
two('logistic_lbfgs', 'lm::LogisticRegression<double>(1e-5, 1e-4, 1e-6, 0.9, 20, 8, 3, 20, "lbfgs", "l2", "backtracking", "wolfe", true, false)', LIN + ['predict_prob(X2)'], gens(sup(2), [0, 1]))
two('softmax', 'lm::SoftmaxRegression<double>(0.1, 0.01, 1e-4, 2, 20, 5, "sgd", "l2", true, false)', ['predict(X2)', 'predict_prob(X2)'], gens(sup(4), [0, 1, 2], [0, 1]))
NB = ['predict(X2)', 'predict_prob(X2)', 'predict_log_prob(X2)', 'get_prior_prob()', 'get_classes()']
two('gaussian_nb', 'openml::naive_bayes::GaussianNB<double>()', NB + ['get_mean()', 'get_var()'], gens(sup(4), [0, 1, 5], [1, 2]))
two('gaussian_nb_state', 'openml::naive_bayes::GaussianNB<double>()', ['get_prior_prob()', 'get_classes()', 'get_mean()', 'get_var()'], gens(sup(4), [0, 1, 5], [1, 2]), True, dims=D, req=shape)
def cnt(g, d, cls):
    X, y = sup(2)(g, d, cls); X['e'] = [[float(g.r.randint(0, 4)) for _ in r] for r in X['e']]
    return X, y
two('multinomial_nb', 'openml::naive_bayes::MultinomialNB<double>(1.0)', NB + ['get_features_count()'], gens(cnt, [0, 1, 5], [1, 2]))
two('multinomial_nb_state', 'openml::naive_bayes::MultinomialNB<double>(1.0)', ['get_prior_prob()', 'get_classes()', 'get_features_count()'], gens(cnt, [0, 1, 5], [1, 2]), True, dims=D, req=shape)
two('tree_classifier', 'TC()', ['predict(X2)', 'predict_prob(X2)'], gens(sup(1), [0, 1, 5], [1, 2]))
two('tree_regressor', 'TR()', ['predict(X2)'], reg)
UNS = '(const M& X1, const M& X2, size_t k)'
def gun(lo):
    def gen(g):
        ds = [g.r.randint(lo, 4) for _ in '12']
        Xs = [g.mat(g.r.randint(lo + 2, 8), d) for d in ds]
        return Xs + [g.r.randint(1, min(lo + 1, min(ds)))]
    return gen
def two_u(nm, ctor, seen, lo=1, **kw):
    see = ' '.join('vf_same(a.%s, b.%s, "%s after a second fit is that of a fresh object");' % (s, s, s.split('(')[0]) for s in seen)
    P.fn('bool refit_%s' % nm + UNS, '{ %s a%s; vf_reset(); try { a.fit(X1); } catch (std::exception&) {} vf_reset(); a.fit(X2); %s b%s; vf_reset(); b.fit(X2); %s return true; }' % (ctor[0], ctor[1], ctor[0], ctor[1], see), gen=gun(lo), ens=lambda r, *a: [], prove=False, note=NOTE, throw_ok=lambda a, w: True, **kw)
DEC = ['get_components()', 'get_explained_var()', 'get_explained_var_ratio()', 'get_singular_values()', 'transform(X2)']
PCA = 'openml::decomposition::PCA<double>'
for s in ('svd',): two_u('pca_' + s, (PCA, '("%s", k)' % s), DEC + ['get_covariance()', 'get_precision()'])
two_u('truncated_svd', ('openml::decomposition::TruncatedSVD<double>', '(k, 10, 5, "randomized", "LU")'), DEC)
for i in ('random', 'kmeans++'): two_u('kmeans_' + i.replace('++', '_pp'), ('openml::cluster::KMeans<double>', '("%s", 2, k, 30, 1e-4)' % i), ['predict(X2)', 'centroids_'][:1])
for cv in ('full', 'tied'):
    two_u('mixture_' + cv, ('openml::mixture_model::GaussianMixture<double>', '(20, 2, k, "random", "%s", 1e-3, 1e-6)' % cv), ['predict(X2)', 'predict_prob(X2)', 'get_means()', 'get_weights()'])
def gt(g):
    f = lambda: [sorted(g.r.sample(range(5), g.r.randint(1, 4))) for _ in range(g.r.randint(2, 6))]
    return [f(), f(), .5, .5]
P.fn('tuple<vector<vector<size_t>>,vector<vector<size_t>>,vector<double>,vector<vector<size_t>>,vector<vector<size_t>>,vector<double>> refit_apriori(const vector<vector<size_t>>& X1, const vector<vector<size_t>>& X2, double ms, double mc)',
     '''{ AP a(ms, mc); try { a.fit_transform(X1); } catch (std::exception&) {} a.fit_transform(X2); AP b(ms, mc); b.fit_transform(X2); vector<vector<size_t>> p, q, u, v; vector<double> c, d;
     for (auto& r : a.get_rules()) { p.push_back(std::get<0>(r)); q.push_back(std::get<1>(r)); c.push_back(std::get<2>(r)); } for (auto& r : b.get_rules()) { u.push_back(std::get<0>(r)); v.push_back(std::get<1>(r)); d.push_back(std::get<2>(r)); }
     return std::make_tuple(p, q, c, u, v, d); }''', gen=gt, oracle=lambda r, *a: None if sorted(zip(*r[:3])) == sorted(zip(*r[3:])) else 'the rules after a second fit are not those of a fresh object', prove=False, note=NOTE, throw_ok=lambda a, w: True)
