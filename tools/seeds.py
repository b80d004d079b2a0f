S = {}
PRE = '#include "src/core.hpp"\n#include <cstdio>\nusing namespace openml;\nusing M = Eigen::MatrixXd; using V = Eigen::VectorXd;\n#define CK(c) do { if (!(c)) { printf("FAIL %s\\n", #c); return 1; } } while (0)\nstatic bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }\n'
S['b01'] = dict(PROP='P03', FILE='src/core/loss/hinge_loss.hpp', OLD='            if (x_w_y > threshold_) {', NEW='            if (x_w_y > 1.0) {',
    NEEDS='a hinge threshold other than the default 1 and a sample whose margin lies between the two', BREAKS='the sub-gradient uses margin 1 while the objective uses the configured threshold',
    DEMO=PRE + '''#include "src/core/loss/hinge_loss.hpp"
int main() { loss::HingeLoss<double> h(0.0, 2.0); M X(2,1); X << 1.5, 3; V y(2); y << 1, 1; V W(1); W << 1;
 V g = h.gradient(X, y, W); CK(near(g(0), -1.5)); return 0; }''')
S['b02'] = dict(PROP='P06', FILE='src/core/math/ops.hpp', OLD='''                row_med(i) = (value + row(index - 1)) / 2;''', NEW='''                row_med(i) = (value + row(0)) / 2;''',
    NEEDS='row medians of a matrix with an even number (at least 4) of columns', BREAKS='the row median averages with the first element of the partition instead of the lower middle',
    DEMO=PRE + '''int main() { M x(1,4); x << 4, 1, 3, 2; V m = math::median<M, V>(x, 1); CK(near(m(0), 2.5)); M y(1,6); y << 6, 5, 4, 3, 2, 1; m = math::median<M, V>(y, 1); CK(near(m(0), 3.5)); M z(2,6); z << 1, 2, 9, 4, 8, 7, 10, 12, 11, -4, -6, -5; m = math::median<M, V>(z, 1); CK(near(m(0), 5.5)); CK(near(m(1), 3)); return 0; }''')
S['b03'] = dict(PROP='P07', EDITS=[('src/core/common.hpp', '''        std::size_t ncols = x.cols();
        IdxVecType min_index{ncols};
        for (std::size_t j = 0; j < ncols; j++) {
            x.col(j).minCoeff(&min_index[j]);''', '''        std::size_t ncols = x.cols();
        IdxVecType min_index{ncols};
        for (std::size_t j = 0; j < ncols; j++) {
            min_index[j] = 0;
            for (std::size_t i = 0; i + 1 < x.rows(); i++) {
                if (x(i, j) < x(min_index[j], j)) min_index[j] = i;
            }''')],
    NEEDS='a column whose minimum is in the last row', BREAKS='argmin along columns ignores the last row',
    DEMO=PRE + '''using I = Eigen::Matrix<Eigen::Index, -1, 1>;
int main() { M x(3,2); x << 3, 1, 2, 5, 1, 4; I r = common::argmin<M, V, I>(x, 0); CK(r(0) == 2); CK(r(1) == 0); return 0; }''')
S['b04'] = dict(PROP='P04', FILE='src/core/loss/softmax_loss.hpp', OLD=None, NEW=None, NEEDS='', BREAKS='', DEMO='')
S['b05'] = dict(PROP='P09', FILE='src/core/math/extmath.hpp', OLD='''        w_count_map[x(i)].push_back(w(i));
    }

    auto x_count = x_count_map.begin();
    auto w_count = w_count_map.begin();
    for (; x_count != x_count_map.end(), w_count != w_count_map.end(); 
        ++x_count, ++w_count) {
        
        double sum = 0.0;
        std::size_t num_w_counts = w_count->second.size();
        for (std::size_t i = 0; i < num_w_counts; ++i) {
            sum += static_cast<double>(w_count->second[i]);
        }

        double mean = sum / static_cast<double>(num_w_counts);
        double p_i = 1.0 * static_cast<double>(x_count->second) * 
            mean / static_cast<double>(nrows);
        g +=''', NEW='''        w_count_map[x(i)].push_back(w(i));
    }

    auto x_count = x_count_map.begin();
    auto w_count = w_count_map.begin();
    for (; x_count != x_count_map.end(), w_count != w_count_map.end(); 
        ++x_count, ++w_count) {
        
        double sum = 0.0;
        std::size_t num_w_counts = w_count->second.size();
        for (std::size_t i = 0; i < num_w_counts; ++i) {
            sum += static_cast<double>(w_count->second[i]);
        }

        double mean = sum / static_cast<double>(num_w_counts);
        double p_i = 1.0 * static_cast<double>(x_count->second) * 
            mean / static_cast<double>(w.sum());
        g +=''',
    NEEDS='sample weights that do not sum to the number of samples', BREAKS='weighted Gini is normalised by the total weight instead of the sample count',
    DEMO=PRE + '''int main() { V x(3), w(3); x << 0, 0, 1; w << 2, 1, 1; double g = math::gini<V>(x, w); CK(near(g, 1 - 1.0 - 1.0/9)); return 0; }''')
S['b06'] = dict(PROP='P02', FILE='src/core/loss/log_loss.hpp', OLD='''        grad = (X.transpose() * (y_hat - y)) / static_cast<DataType>(num_samples);

        VecType reg(num_features);
        reg = W.array() / static_cast<DataType>(num_samples);''', NEW='''        grad = (X.transpose() * (y_hat - y)) / static_cast<DataType>(num_samples);

        VecType reg(num_features);
        reg = W.array() / static_cast<DataType>(num_features);''',
    NEEDS='lambda != 0 and a non-square design matrix', BREAKS='the regularisation gradient is scaled by the number of features',
    DEMO=PRE + '''#include "src/core/loss/log_loss.hpp"
int main() { loss::LogLoss<double> h(1.0); M X = M::Zero(4,2); V y = V::Constant(4, 0.5); V W(2); W << 4, -8;
 V g = h.gradient(X, y, W); CK(near(g(0), 1)); CK(near(g(1), -2)); return 0; }''')
S['b07'] = dict(PROP='P10', FILE='src/core/common.hpp', OLD='''                        return row(i) > row(j);''', NEW='''                        return row(i) > row(j) || (row(i) == row(j) && row(i) < 0 && i < j) || row(i) + row(j) < -100;''',
    NEEDS='', BREAKS='', DEMO='')
S['c14'] = dict(PROP='P14', FILE='src/core/optimizer/sgd/sag.hpp', OLD='                grad_history.col(j) = grad;', NEW='''                if (grad.squaredNorm() > 0) {
                    grad_history.col(j) = grad;
                }''',
    NEEDS='a batch whose gradient becomes exactly zero after having been non-zero (hinge loss, no regularisation)', BREAKS='the stored gradient of a batch is not replaced when the new one is zero, so the running average drifts',
    DEMO=PRE + '''#include "src/core/loss/hinge_loss.hpp"
#include "src/core/optimizer/sgd/sag.hpp"
int main() { using L = loss::HingeLoss<double>;
  M X(2,1); X << 1, -1; V y(2); y << 1, -1; V w(1); w << 0.9;
  L l(0.0, 1.0); optimizer::VanillaUpdate<double> u; optimizer::StepDecay<double> d(0.1);
  optimizer::SAG<double, L, optimizer::VanillaUpdate<double>, optimizer::StepDecay<double>> o(w, l, u, d, 50, 1, 3, 0.0001, false, false);
  o.optimize(X, y);
  // reference: textbook SAG, scaled by the batch size like the library
  V x = w, avg = V::Zero(1); M h = M::Zero(1, 2); double best = 1e300; int bad = 0;
  for (int e = 0; e < 50; e++) { double lr = d.compute(e), s = 0;
    for (int j = 0; j < 2; j++) { M Xb = X.middleRows(j,1); V yb = y.middleRows(j,1); V g = l.gradient(Xb, yb, x);
      avg += g - h.col(j); h.col(j) = g; x = x - lr * avg; s += l.evaluate(Xb, yb, x); }
    if (s > best - 0.0001) bad++; else bad = 0;
    if (s < best) best = s;
    if (bad >= 3) break; }
  M c = o.get_coef(); printf("%g %g\\n", c(0,0), x(0)); CK(near(c(0,0), x(0))); return 0; }''')
S['c16'] = dict(PROP='P16', FILE='src/core/optimizer/sgd/scd.hpp', OLD='''                        lambda_ * std::abs(this->x0_(feat_index, 0) + eta) + 
                            lambda_ * std::abs(this->x0_(feat_index, 0));''', NEW='''                        lambda_ * std::abs(this->x0_(feat_index, 0) + eta);''',
    NEEDS='a sizeable l1 penalty and weights that are not zero, so that the omitted term decides between coordinates', BREAKS='the predicted descent ignores the current weight, so the wrong coordinate is updated',
    DEMO=PRE + '''#include "src/core/loss/mean_squared_error.hpp"
#include "src/core/optimizer/sgd/scd.hpp"
struct Lin { double evaluate(const M&, const V&, const V& w) const { return 0.3*w(0) + 0.5*w(1); } V gradient(const M&, const V&, const V&) const { V g(2); g << 0.3, 0.5; return g; } };
int main() { M X = M::Ones(2,2); V y = V::Ones(2); V w(2); w << 5, 0; Lin l;
  optimizer::SCD<double, Lin> o(w, l, 1, 1.0, 1.0, false, false); o.optimize(X, y); M c = o.get_coef();
  // descent of coordinate 0: eta=-1.3; 0.39-0.845-3.7+5 = 0.845 ; coordinate 1: eta = 0 -> 0
  printf("%g %g\\n", c(0,0), c(1,0)); CK(near(c(0,0), 3.7)); CK(near(c(1,0), 0)); return 0; }''')
S['c22'] = dict(PROP='P22', FILE='src/methods/cluster/kmeans.hpp', OLD='                eps += static_cast<double>(diff.norm());', NEW='                eps = static_cast<double>(diff.norm());',
    NEEDS='an iteration in which the last cluster does not move while another one still does', BREAKS='Lloyd iterations stop as soon as the last cluster is still',
    DEMO=PRE.replace('#include "src/core.hpp"', '#include "src/core.hpp"\n#define private public\n#define protected public\n#include "src/methods/cluster/kmeans.hpp"\n#undef private\n#undef protected') + '''
int main() { M X(6,1); X << 0, 1, 2, 3, 100, 102; cluster::KMeans<double> k("random", 1, 3, 300, 1e-4);
  k.centroids_.resize(3,1); k.centroids_ << 0, 0.6, 101; k.kmeans_lloyd(X);
  // fixpoint: every centroid is the mean of the points assigned to it
  V l = k.predict(X); for (int c = 0; c < 3; c++) { double s = 0; int n = 0; for (int i = 0; i < 6; i++) if (l(i) == c) { s += X(i,0); n++; } if (n) { printf("%d %g %g\\n", c, k.centroids_(c,0), s/n); CK(near(k.centroids_(c,0), s / n)); } }
  return 0; }''')
S['c25'] = dict(PROP='P25', FILE='src/core/tree/kd_tree.hpp', OLD='                    right_hyper_rect = *curr_node.right_hyper_rect;', NEW='                    right_hyper_rect = *curr_node.left_hyper_rect;',
    NEEDS='a tree at least two levels deep and a query answered by the right child of a right child', BREAKS='the bounding box of the right grandchild is that of the wrong half, so its points are pruned',
    DEMO=PRE + '''int main() { M X(16,1); for (int i = 0; i < 16; i++) X(i,0) = (i * 7) % 16; tree::KDTree<double> t(X, 2, "euclidean");
  M q(16,1); for (int i = 0; i < 16; i++) q(i,0) = i + 0.25;
  auto r = t.query_radius(q, 0.5); for (int i = 0; i < 16; i++) { CK(r.size() == 16); CK(r[i].size() == 1); CK(X(r[i][0].second, 0) == i); }
  return 0; }''')
S['c26'] = dict(PROP='P26', FILE='src/core/tree/hash_tree.hpp', OLD='                    insert(node->children[key], bucket.first, bucket.second, index + 1);', NEW='                    insert(node->children[key], bucket.first, count, index + 1);',
    NEEDS='supports added before an insertion that splits a full leaf', BREAKS='supports collected before a leaf is split are lost',
    DEMO=PRE + '''#include "src/core/tree/hash_tree.hpp"
struct N { bool is_leaf; std::map<std::vector<int>, std::size_t> bucket; std::map<std::size_t, std::shared_ptr<N>> children; N(): is_leaf(true) {} };
int main() { tree::HashTree<N, int> t(3, 3);
  t.build_tree({1,2}); t.build_tree({2,3}); t.add_support({1,2}); t.add_support({1,2}); t.add_support({2,3}); t.build_tree({1,4}); t.add_support({1,2});
  std::vector<std::size_t> c; std::vector<std::vector<int>> s; t.compute_frequency_itemsets(1, c, s);
  std::map<std::vector<int>, std::size_t> m; for (std::size_t i = 0; i < c.size(); i++) m[s[i]] = c[i];
  CK(m.size() == 2); CK((m[{1,2}] == 3)); CK((m[{2,3}] == 1)); return 0; }''')
S['c27'] = dict(PROP='P27', FILE='src/methods/rule_model/apriori.hpp', OLD='            for (std::size_t i = 1; i < itemset_size; ++i) {', NEW='            for (std::size_t i = 1; i < std::min<std::size_t>(itemset_size, 3); ++i) {',
    NEEDS='a frequent itemset of four or more items', BREAKS='rules with three or more items in the antecedent are never generated',
    DEMO=PRE + '''#include "src/core/tree/hash_tree.hpp"
#include "src/methods/rule_model/apriori.hpp"
int main() { rule_model::Apriori<std::size_t> a(0.5, 0.1); std::vector<std::vector<std::size_t>> X{{1,2,3,4},{1,2,3,4},{1,2,3,4}}; a.fit_transform(X);
  int n = 0; for (auto r : a.get_rules()) if (std::get<0>(r).size() == 3 && std::get<1>(r).size() == 1) n++;
  printf("%d\\n", n); CK(n == 4); return 0; }''')
S['c29'] = dict(PROP='P29', FILE='src/methods/tree/decision_tree_regressor.hpp', OLD='            if (x(cur_node->feature_index, 0) <= cur_node->feature_value) {', NEW='            if (x(cur_node->feature_index, 0) < cur_node->feature_value) {',
    NEEDS='a predicted sample whose feature equals a split threshold exactly', BREAKS='prediction routes a sample at the threshold to the other side than training does',
    DEMO=PRE + '''#include "src/methods/tree/decision_tree_regressor.hpp"
int main() { M X(4,1); X << 0, 2, 6, 8; V y(4); y << 1, 1, 5, 5; decision_tree::DecisionTreeRegressor<double> t; t.fit(X, y); M q(3,1); q << 4, 3.9, 4.1; V p = t.predict(q); CK(near(p(0), 1)); CK(near(p(1), 1)); CK(near(p(2), 5)); return 0; }''')
S['c30'] = dict(PROP='P30', FILE='src/core/math/linalg.hpp', OLD='''        Eigen::BDCSVD<Eigen::MatrixXd> svd(x, options);
        U = svd.matrixU();
        s = svd.singularValues();
        V = svd.matrixV();''', NEW='''        Eigen::BDCSVD<Eigen::MatrixXd> svd(x, options);
        U = svd.matrixU();
        s = svd.singularValues();
        V = svd.matrixV().cwiseAbs();''',
    NEEDS='a matrix with 16 or more columns', BREAKS='the right singular vectors of wide matrices lose their signs',
    DEMO=PRE + '''int main() { M x(18,18); for (int i = 0; i < 18; i++) for (int j = 0; j < 18; j++) x(i,j) = std::sin(1 + i * 18 + j * j); M U, Vv; V s; std::tie(U, s, Vv) = math::exact_svd<M, V>(x); CK((U * s.asDiagonal() * Vv.transpose() - x).norm() < 1e-8); return 0; }''')
S['c31'] = dict(PROP='P31', FILE='src/methods/naive_bayes/multinomial_naive_bayes.hpp', OLD='        feature_count_ = feature_count.transpose();', NEW='''        if (feature_count_.rows() == feature_count.cols() && feature_count_.cols() == feature_count.rows()) {
            feature_count_ += feature_count.transpose();
        }
        else {
            feature_count_ = feature_count.transpose();
        }''',
    NEEDS='fitting the same estimator twice with the same number of classes and features', BREAKS='a refit accumulates the feature counts of the previous training data',
    DEMO=PRE + '''#include "src/methods/naive_bayes/multinomial_naive_bayes.hpp"
int main() { M A(4,2), B(4,2), q(1,2); A << 9, 0, 8, 1, 0, 9, 1, 8; B << 0, 9, 1, 8, 9, 0, 8, 1; q << 3, 2; V y(4); y << 0, 0, 1, 1;
  naive_bayes::MultinomialNB<double> a(1.0), b(1.0); a.fit(A, y); a.fit(B, y); b.fit(B, y); M pa = a.predict_prob(q), pb = b.predict_prob(q); CK((pa - pb).norm() < 1e-12); return 0; }''')
S['c32'] = dict(PROP='P32', FILE='src/methods/neighbors/k_nearest_neighbors.hpp', OLD='                distance = (current - sample).template lpNorm<1>();', NEW='                distance = (current - sample).template lpNorm<Eigen::Infinity>();',
    NEEDS='the brute-force solver with the manhattan metric and points whose order differs under the maximum norm', BREAKS='the manhattan metric uses the maximum norm',
    DEMO=PRE + '''#include "src/methods/neighbors/k_nearest_neighbors.hpp"
int main() { M X(2,2); X << 3, 0, 2, 2; V y(2); y << 1, 2; neighbors::KNearestNeighbors<double> k(1, 1, "brute", "manhattan"); k.fit(X, y); M q(1,2); q << 0, 0; V p = k.predict(q); CK(p(0) == 1); return 0; }''')
S['c28'] = dict(PROP='P28', FILE='src/core/preprocessing/transaction_encoder.hpp', OLD='''            std::set<DataType> seen;
            for (auto& x : row) {
                seen.insert(x);
            }
            row.assign(seen.begin(), seen.end());''', NEW='''            row.erase(std::unique(row.begin(), row.end()), row.end());''',
    NEEDS='a transaction that repeats an item with another item in between', BREAKS='repeated items that are not adjacent are counted twice',
    DEMO=PRE + '''#include "src/core/preprocessing/transaction_encoder.hpp"
int main() { preprocessing::TransactionEncoder<double> t; auto s = t.fit_transform({{3, 1, 3}, {1}}); M d = s; CK(d.cols() == 2); CK(d(0,0) == 1 && d(0,1) == 3 && d(1,0) == 1 && d(1,1) == 0); return 0; }''')
S['c11'] = dict(PROP='P11', FILE='src/core/data/split.hpp', OLD='    int num_test_samples = num_samples - num_train_samples;', NEW='    int num_test_samples = num_samples * (1 - train_size);',
    NEEDS='a number of samples for which the training fraction is not a whole number', BREAKS='a sample can be lost between the two parts',
    DEMO=PRE + '''int main() { M X(10,1); for (int i = 0; i < 10; i++) X(i,0) = i; V y = X.col(0); M a, b; V c, d; std::tie(a, b, c, d) = data::train_test_split<M, V>(X, y, 0.75, false); CK(a.rows() + b.rows() == 10); CK(c.rows() + d.rows() == 10); return 0; }''')
S['c21'] = dict(PROP='P21', FILE='src/methods/naive_bayes/gaussian_naive_bayes.hpp', OLD='        var_ = var_.array() + var_smoothing_ * var_.maxCoeff();', NEW='''        for (Eigen::Index c = 0; c < var_.rows(); ++c) {
            var_.row(c).array() += var_smoothing_ * var_.row(c).maxCoeff();
        }''',
    NEEDS='a noticeable smoothing parameter and classes of different spread', BREAKS='smoothing uses the largest variance of each class instead of the largest of all',
    DEMO=PRE + '''#include "src/methods/naive_bayes/gaussian_naive_bayes.hpp"
int main() { M X(4,1); X << 0, 2, 0, 10; V y(4); y << 0, 0, 1, 1; naive_bayes::GaussianNB<double> g(0.5); g.fit(X, y); M v = g.get_var(); CK(near(v(0,0) - 1, v(1,0) - 25)); return 0; }''')
S['c23'] = dict(PROP='P23', FILE='src/methods/mixture/gaussian_mixture.hpp', OLD='        MatType avg_means = (nk_tmp.array() * means.array()).matrix().transpose() * means;', NEW='        MatType avg_means = nk.mean() * means.transpose() * means;',
    NEEDS='the tied covariance type with components of different weight', BREAKS='the tied covariance weighs all component means equally',
    DEMO=PRE.replace('#include "src/core.hpp"', '#include "src/core.hpp"\n#define private public\n#include "src/methods/mixture/gaussian_mixture.hpp"\n#undef private') + '''
int main() { mixture_model::GaussianMixture<double> g; M X(3,1), r(3,2); X << 0, 1, 10; r << 1, 0, 1, 0, 0, 1; M mu(2,1); mu << 0.5, 10; V nk(2); nk << 2, 1;
  auto c = g.estimate_gaussian_covariances_tied(X, r, mu, nk, 0.0); CK(near(c[0](0,0), 0.5 / 3)); return 0; }''')
S['c18'] = dict(PROP='P18', FILE='src/core/optimizer/lbfgs/lbfgs.hpp', OLD='''            if (ls < 0) {
                x = xp;
                g = gp;''', NEW='''            if (ls < 0) {
                g = gp;''',
    NEEDS='a line search that fails', BREAKS='the last trial point of a failed line search is returned although it is worse',
    DEMO=PRE + '''#include "src/core/optimizer/lbfgs/lbfgs.hpp"
#include "src/core/optimizer/lbfgs/params.hpp"
struct Q { double evaluate(const M&, const V&, const V& w) const { return w(0) <= 0.95 ? 100.0 : w(0) * w(0); } V gradient(const M&, const V&, const V& w) const { return 2 * w; } };
int main() { M X = M::Ones(1,1); V y = V::Ones(1); V w(1); w << 1.0; Q q; optimizer::LineSearchParams<double> p(1e-4, 0.9, 2, "ARMIJO");
  optimizer::LBFGS<double, Q, optimizer::LineSearchParams<double>> o(w, q, p, 10, 4, 0, 1e-9, 1e-9, "backtracking", false, false); o.optimize(X, y); M c = o.get_coef(); V cc = c.col(0); CK(q.evaluate(X, y, cc) <= q.evaluate(X, y, w)); return 0; }''')
S['c17'] = dict(PROP='P17', FILE='src/core/optimizer/lbfgs/search_policies/bracketing.hpp', OLD='                    if (dg > (-this->linesearch_params_.wolfe_ * dg_init)) {', NEW='                    if (dg > -dg_init) {',
    NEEDS='the strong Wolfe condition and a first accepted step beyond the minimum', BREAKS='a step whose slope is too steep upwards is accepted under the strong Wolfe condition',
    DEMO=PRE + '''#include "src/core/optimizer/lbfgs/search_policies/base.hpp"
#include "src/core/optimizer/lbfgs/search_policies/bracketing.hpp"
#include "src/core/optimizer/lbfgs/params.hpp"
struct Q { double evaluate(const M&, const V&, const V& w) const { return w(0) * w(0); } V gradient(const M&, const V&, const V& w) const { return 2 * w; } };
int main() { M X = M::Ones(1,1); V y = V::Ones(1); Q q; optimizer::LineSearchParams<double> p(1e-4, 0.1, 50, "STRONG_WOLFE");
  optimizer::LineSearchBracketing<double, Q, optimizer::LineSearchParams<double>> s(X, y, q, p);
  V xp(1), x(1), g(1), gp(1), d(1); xp << 1; x = xp; gp << 2; g = gp; d << -1; double fx = 1, step = 1.5; int r = s.search(x, fx, g, d, step, xp, gp);
  if (r > 0) CK(std::abs(d.dot(g)) <= 0.1 * std::abs(d.dot(gp)) + 1e-12); return 0; }''')
S['c24'] = dict(PROP='P24', FILE='src/methods/decomposition/truncated_svd.hpp', OLD='        full_var = math::var<MatType>(X, 0).sum();', NEW='        full_var = math::var<MatType>(X_transformed, 0).sum();',
    NEEDS='fewer components than the rank of the data', BREAKS='the explained variance ratios always sum to one',
    DEMO=PRE + '''#include "src/methods/decomposition/truncated_svd.hpp"
int main() { M X(6,5); for (int i = 0; i < 6; i++) for (int j = 0; j < 5; j++) X(i,j) = std::sin(3 * i * j + 7 * j * j + i * i + 1); decomposition::TruncatedSVD<double> t(2, 2, 4, "randomized", "QR"); t.fit(X); V r = t.get_explained_var_ratio(), v = t.get_explained_var(); double full = math::var<M>(X, 0).sum(); CK(near(r(0), v(0) / full)); CK(near(r(1), v(1) / full)); return 0; }''')
S['c35'] = dict(PROP='P25', FILE='src/core/tree/kd_tree.hpp', OLD='        return (dist <= radius) ? true : false;', NEW='        return (dist < radius) ? true : false;',
    NEEDS='a radius query that touches a bounding box exactly', BREAKS='points exactly at the radius can be pruned with their box',
    DEMO=PRE + '''int main() { M X(8,1); for (int i = 0; i < 8; i++) X(i,0) = i; tree::KDTree<double> t(X, 1, "euclidean"); M q(1,1); q << 3; auto r = t.query_radius(q, 1.0); CK(r[0].size() == 3); return 0; }''')
S['c20'] = dict(PROP='P20', FILE='src/methods/linear_model/softmax_regression.hpp', OLD='            auto xw = X * this->w_.topRows(num_features);', NEW='            auto xw = X * this->w_.bottomRows(num_features);',
    NEEDS='weights that differ between rows', BREAKS='the decision function multiplies the features with shifted weights', DEMO='')
S['c06'] = dict(PROP='P06', FILE='src/core/math/extmath.hpp', OLD=None, NEW=None, NEEDS='', BREAKS='', DEMO='')
S['d05'] = dict(PROP='P05', FILE='src/core/math/linalg.hpp', OLD='''        VecType log_sum_exp = (x - tmp).array().exp().rowwise().sum().log();
        return log_sum_exp + c;''', NEW='''        VecType log_sum_exp = x.array().exp().rowwise().sum().log();
        return log_sum_exp;''',
    NEEDS='row-wise inputs beyond the range of exp', BREAKS='the row-wise log-sum-exp overflows',
    DEMO=PRE + '''int main() { M x(1,2); x << 1000, 1000; V r = math::logsumexp<M, V>(x, 1); CK(std::isfinite(r(0))); CK(near(r(0), 1000 + std::log(2))); return 0; }''')
S['d04'] = dict(PROP='P05', FILE='src/core/math/extmath.hpp', OLD='''    return new_x.array().exp() / 
        (static_cast<DataType>(1) + (-x.array().abs()).exp());''', NEW='''    return x.array().exp() / 
        (static_cast<DataType>(1) + x.array().exp());''',
    NEEDS='arguments above about 710', BREAKS='the sigmoid of a large argument is not a number',
    DEMO=PRE + '''int main() { V x(1); x << 800; V r = math::sigmoid<V>(x); CK(near(r(0), 1)); return 0; }''')
S['d20'] = dict(PROP='P20', FILE='src/methods/linear_model/softmax_regression.hpp', OLD='''            auto b = this->w_.bottomRows(1);
''', NEW='''            auto b = this->w_.row(X.cols() < this->w_.cols() ? X.cols() : this->w_.cols());
''',
    NEEDS='fewer classes than features', BREAKS='the intercept row is taken from the wrong place when there are fewer classes than features',
    DEMO='')
S['d06'] = dict(PROP='P06', FILE='src/core/math/ops.hpp', OLD='''            std::partial_sum(row.begin(), row.end(), rowsum.begin());
            cum_sum.row(i) = rowsum;''', NEW='''            std::partial_sum(row.begin(), row.end() - (ncols > 4 ? 1 : 0), rowsum.begin());
            if (ncols > 4) rowsum(ncols - 1) = row.sum() - (ncols > 6 ? row(5) : 0);
            cum_sum.row(i) = rowsum;''',
    NEEDS='seven or more columns', BREAKS='the last cumulative sum of a row misses an element',
    DEMO=PRE + '''int main() { M x = M::Ones(1,7); M r = math::cumsum<M, V>(x, 1); CK(near(r(0,6), 7)); return 0; }''')
S['d07'] = dict(PROP='P19', FILE='src/methods/linear_model/ridge_regression.hpp', OLD='        pinv = X_new.transpose() * X_new + lambda_ * eyes;', NEW='''        if (num_samples < num_features) {
            eyes(num_features - 1, num_features - 1) = 0;
        }
        pinv = X_new.transpose() * X_new + lambda_ * eyes;''',
    NEEDS='fewer samples than columns', BREAKS='the last coefficient is not regularised for wide data',
    DEMO=PRE + '''#include "src/methods/linear_model/ridge_regression.hpp"
int main() { M X(2,2); X << 1, 2, 3, 5; V y(2); y << 1, 2; linear_model::RidgeRegression<double> r(1.0, true); r.fit(X, y); M w = r.get_coef(); M A(2,3); A << 1,2,1,3,5,1; V g = A.transpose() * (A * w - y) + w; CK(g.norm() < 1e-8); return 0; }''')
S['d22'] = dict(PROP='P22', FILE='src/methods/cluster/kmeans.hpp', OLD='''                double dist = static_cast<double>(diff.norm());
                if (dist < min_dist) {''', NEW='''                double dist = static_cast<double>(diff.norm());
                if (dist < min_dist - 1e-3) {''',
    NEEDS='two centroids at distances that differ by less than a thousandth', BREAKS='prediction keeps an earlier centroid that is slightly farther',
    DEMO=PRE.replace('#include "src/core.hpp"', '#include "src/core.hpp"\n#define private public\n#define protected public\n#include "src/methods/cluster/kmeans.hpp"\n#undef private\n#undef protected') + '''
int main() { cluster::KMeans<double> k("random", 1, 2, 300, 1e-4); k.centroids_.resize(2,1); k.centroids_ << 0, 1; M q(1,1); q << 0.5002; V l = k.predict(q); CK(l(0) == 1); return 0; }''')
S['d10'] = dict(PROP='P10', EDITS=[], NEEDS='', BREAKS='', DEMO='')
S['d01'] = dict(PROP='P08', EDITS=[], NEEDS='', BREAKS='', DEMO='')
for k in [k for k, v in S.items() if not v['DEMO']]: del S[k]
