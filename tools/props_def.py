I=['inputs']; IC=['inputs','configurations']; H=['inputs','histories']
prop('P01','Regularised mean-squared-error loss and its gradient are exact',
 'For every sample matrix with at least one row, target vector, coefficient vector and regularisation strength, the mean-squared-error objective equals the sum of squared residuals over twice the sample count plus the strength times the squared coefficient norm over twice the sample count. Its gradient equals, component by component, the exact derivative of that objective.',
 I,'all n>=1, d, X, y, W, lambda','The test prints a value for one random input and compares nothing; the claim is over every shape and value.',
 ['src/core/loss/mean_squared_error.hpp'],[('MSE::evaluate','src/core/loss/mean_squared_error.hpp'),('MSE::gradient','src/core/loss/mean_squared_error.hpp')])
prop('P02','Regularised logistic loss and its gradient are exact',
 'For every sample matrix with at least one row, labels, coefficients and regularisation strength, the logistic objective equals the mean negative Bernoulli log-likelihood under the sigmoid of the linear score plus the strength times the squared coefficient norm over twice the sample count. Its gradient equals the exact derivative of that objective in every component, and the sigmoid it uses equals 1/(1+exp(-z)) for positive, zero and negative scores alike.',
 I,'all n>=1, d, X, y, W, lambda; scores of either sign','The test prints one value for random data; both branches of the stable sigmoid, and agreement of value and gradient, are never compared.',
 ['src/core/loss/log_loss.hpp','src/core/math/extmath.hpp','src/core/common.hpp'],[('LogLoss::evaluate','src/core/loss/log_loss.hpp'),('LogLoss::gradient','src/core/loss/log_loss.hpp'),('sigmoid','src/core/math/extmath.hpp')])
prop('P03','Regularised hinge loss and its sub-gradient are exact',
 'For every sample matrix, label vector, coefficients, margin threshold and regularisation strength, the hinge objective equals the sum over samples of max(0, threshold - score*label) plus the strength times the squared coefficient norm over twice the sample count. Its gradient equals the sum of -label*sample over exactly the samples whose margin does not exceed the threshold, plus the strength times the coefficients over the sample count, whatever memory held before the call.',
 I,'all n>=1, d, X, y, W, threshold, lambda; margins above, at and below the threshold','The test prints values for one input; margins exactly at the threshold and independence of stale memory are not observable by it.',
 ['src/core/loss/hinge_loss.hpp'],[('HingeLoss::evaluate','src/core/loss/hinge_loss.hpp'),('HingeLoss::gradient','src/core/loss/hinge_loss.hpp')])
prop('P04','Multinomial softmax loss and its gradient are exact and shift-invariant',
 'For every sample matrix, class-index vector, coefficient matrix and regularisation strength, the softmax objective equals the mean negative log of the softmax probability of each true class plus the strength times the sum of squared coefficients over twice the sample count. Its gradient equals the exact derivative of that objective in every entry, and both are unaffected by the internal shift used for overflow safety.',
 I,'all n>=1, d, class counts, X, y, W, lambda','The test prints values for a single input; consistency of loss and gradient over all shapes is a derivative identity no sampled value settles.',
 ['src/core/loss/softmax_loss.hpp'],[('SoftmaxLoss::evaluate','src/core/loss/softmax_loss.hpp'),('SoftmaxLoss::gradient','src/core/loss/softmax_loss.hpp')])
prop('P05','Sigmoid, softmax, log-sum-exp and Gaussian log-density are exact',
 'For every input matrix the sigmoid equals 1/(1+exp(-x)) element-wise; softmax along either axis or over the whole matrix returns exp(x) divided by the sum of exponentials of its group, so each group is positive and sums to one; log-sum-exp returns the log of the sum of exponentials of each column, row or the whole matrix. The Gaussian log-density of x with mean u and variance v is -(x-u)^2/(2v) - log(sqrt(2*pi*v)).',
 I,'all matrices and axes','Not exercised directly by the stable tests.',
 ['src/core/math/extmath.hpp','src/core/math/linalg.hpp','src/core/math/proba.hpp','src/core/common.hpp'],[('sigmoid, softmax','src/core/math/extmath.hpp'),('logsumexp','src/core/math/linalg.hpp'),('gaussian_fn','src/core/math/proba.hpp')])
prop('P06','Statistics reduce exactly the requested axis with the stated formula',
 'For every matrix and axis, sum, mean, variance (population), median, cumulative sum, norms, row norms and mode reduce exactly the requested axis (columns, rows or all elements) and return the textbook value in the correct slot and shape; covariance is the centred cross-product over n-1 and centring subtracts each column mean. An invalid axis is rejected for sum, mean and variance rather than silently mis-evaluated.',
 IC,'all matrices; axis in {-1,0,1} and invalid axes','No stable test calls these with known answers; row/column mix-ups only show on particular shapes.',
 ['src/core/math/ops.hpp','src/core/math/extmath.hpp'],[('sum/mean/var/cov/center/median/cumsum/mode/norm2','src/core/math/ops.hpp'),('row_norms','src/core/math/extmath.hpp')])
prop('P07','Array reshaping and selection helpers preserve every element and index',
 'Stacking, repeating, flattening, reshaping a vector to a matrix, building a diagonal, clipping, element-wise minimum and conditional selection place every input element exactly where the operation defines and nothing else, for all shapes. Argmax and argmin return, per requested axis, an in-range index of an extreme element, and element-wise absolute value, power and sign are exact.',
 IC,'all shapes, values, axes','Only incidental use in tests; order and boundary errors are shape dependent.',
 ['src/core/common.hpp','src/core/math/ops.hpp','src/core/math/extmath.hpp'],[('hstack/vstack/repeat/flatten/vec2mat/clip/fmin/where/argmax/argmin','src/core/common.hpp'),('diagmat','src/core/math/extmath.hpp')])
prop('P08','Distances and regression metrics equal their definitions',
 'Euclidean, Manhattan and Minkowski (orders 1, 2, infinity) distances equal the corresponding norm of the difference for all equal-shape inputs, and Minkowski rejects shape mismatches and any other order. The mean squared error metric and the explained-variance score equal their definitions for all target/prediction pairs.',
 I,'all vectors and matrices, all orders p','No test asserts any metric value.',
 ['src/core/metric.hpp'],[('distances and scores','src/core/metric.hpp')])
prop('P09','Entropy and Gini impurity equal the weighted class-frequency formulas',
 'For every non-empty label vector and optional equally long weight vector, entropy equals minus the sum over distinct labels of p*log2(p) and Gini equals one minus the sum of p squared, where p is the (mean-weight-scaled) relative frequency of the label. The result does not depend on the order of the labels, and mismatched weight lengths are rejected.',
 I,'all label vectors and weights','Tests never compare an impurity; repeated labels, single-class and weighted inputs are not distinguished.',
 ['src/core/math/extmath.hpp'],[('entropy, gini','src/core/math/extmath.hpp')])
prop('P10','Sorting helpers return ordered permutations of their input',
 'Arg-sort returns, for every vector or matrix and both orders, a permutation of the valid indices under which the input is monotone, for any length including one and two. Sorting rows, removing duplicate rows, merging, differencing, containment, combinations and slicing of nested lists return exactly the set-theoretic or lexicographic result defined by their name, for every input.',
 I,'all lists, all lengths','Tests use one or two hand-written lists and print the result.',
 ['src/core/common.hpp'],[('argsort, sortrows, remove_duplicate_rows, combinations, merge, difference, contains, slice, is_equal','src/core/common.hpp')])
prop('P11','Dataset splitting and loading lose, duplicate and misalign no sample',
 'Splitting into train and test partitions the samples so that every row and its label appear together exactly once, with sizes determined by the requested fraction; dividing on a feature puts exactly the rows whose feature value meets the threshold on the left and the rest on the right, in order, with their labels. Loading a delimited text file returns exactly its numbers, row by row.',
 IC,'all datasets, fractions, thresholds and files','Tests only use these to feed other components.',
 ['src/core/data/split.hpp','src/core/data/load.hpp','src/core/math/shuffle.hpp'],[('train_test_split, divide_on_feature','src/core/data/split.hpp'),('loadtxt','src/core/data/load.hpp'),('shuffle_data','src/core/math/shuffle.hpp')])
prop('P12','Update and decay policies apply their documented formulas at every step',
 'A vanilla update returns the weights minus learning rate times gradient and a momentum update applies its documented velocity formula, for all weights, gradients and rates. The decay policies return the documented step-size or exponential schedule value for every epoch, non-increasing in the epoch.',
 ['inputs','histories'],'all weights, gradients, rates, epochs','Tests run whole optimisers and print the outcome; schedules are never compared.',
 ['src/core/optimizer/sgd/update_policies/vanilla_update.hpp','src/core/optimizer/sgd/update_policies/momentum_update.hpp','src/core/optimizer/sgd/decay_policies/step_decay.hpp','src/core/optimizer/sgd/decay_policies/exponential_decay.hpp'],[('update','src/core/optimizer/sgd/update_policies'),('compute','src/core/optimizer/sgd/decay_policies')])
prop('P13','Mini-batch SGD follows its step rule on valid batches and reports honestly',
 'Every gradient step of stochastic gradient descent uses a full batch of consecutive in-range samples at the current iterate, clips the gradient to the documented range and applies the update policy with the decayed learning rate. Each epoch visits every full batch exactly once, the run stops when the average epoch loss stops improving by the tolerance for the configured number of rounds, and the returned coefficients are the last iterate; a run that exhausts its iterations without converging reports an error instead of returning.',
 ['inputs','configurations','histories'],'all data, batch sizes, learning rates, tolerances, iteration limits','The test prints the fitted coefficients of one run.',
 ['src/core/optimizer/sgd/sgd.hpp','src/core/optimizer/base.hpp'],[('SGD::optimize','src/core/optimizer/sgd/sgd.hpp')])
prop('P14','Stochastic average gradient keeps an exact running gradient sum',
 'At every step of the stochastic-average-gradient optimiser the running average direction equals the sum of the most recently stored gradient of every batch divided by the batch size, and each step moves the iterate against that direction by the decayed learning rate. Returned coefficients are the last iterate and non-convergence is reported as an error.',
 ['inputs','configurations','histories'],'all data, batch sizes, epochs','The test prints one fitted vector; the running-sum invariant is over the whole history.',
 ['src/core/optimizer/sgd/sag.hpp'],[('SAG::optimize','src/core/optimizer/sgd/sag.hpp')])
prop('P15','Truncated-gradient shrinkage never crosses zero and hits only small weights',
 'Each truncation of the truncated-gradient optimiser moves every coefficient that it touches towards zero by the cumulative-penalty rule - the total shrinkage accumulated so far (the L1 ratio times the decayed learning rate times the penalty strength, summed over the steps taken) less the penalty that coefficient has already received - and never past zero, and leaves zero coefficients alone.',
 ['inputs','configurations','histories'],'all data and shrinkage settings','The test prints one fitted vector.',
 ['src/core/optimizer/sgd/tg.hpp'],[('TruncatedGradient::optimize','src/core/optimizer/sgd/tg.hpp')])
prop('P16','Coordinate descent takes the best soft-thresholded coordinate step',
 'Each step of the coordinate-descent optimiser computes for every coordinate the exact minimiser of the L1-regularised quadratic model of the loss at the current iterate and moves only the single coordinate with the largest predicted decrease (or largest step), leaving all others unchanged.',
 ['inputs','configurations','histories'],'all data and penalties','The test prints one fitted vector.',
 ['src/core/optimizer/sgd/scd.hpp'],[('SCD::optimize','src/core/optimizer/sgd/scd.hpp')])
prop('P17','A successful line search satisfies its sufficient-decrease conditions',
 'When either line search reports success, the returned point is the start plus the returned step times the direction, the returned value and gradient are those at that point, and the configured conditions (Armijo, regular Wolfe or strong Wolfe) hold there. The number of trials never exceeds the configured maximum, the search never continues from a step outside the configured bounds, and an ascent direction or a non-positive step is rejected.',
 IC,'all objectives, points, directions, parameters','Only one objective is minimised in the test.',
 ['src/core/optimizer/lbfgs/search_policies/backtracking.hpp','src/core/optimizer/lbfgs/search_policies/bracketing.hpp'],[('LineSearchBacktracking::search','src/core/optimizer/lbfgs/search_policies/backtracking.hpp'),('LineSearchBracketing::search','src/core/optimizer/lbfgs/search_policies/bracketing.hpp')])
prop('P18','L-BFGS never returns a point worse than its start',
 'For every differentiable objective, start point and parameter setting accepted by it, the limited-memory quasi-Newton optimiser returns a coefficient vector of the same length as the start, whose objective is not larger than at the start, and every accepted iterate satisfies the line-search conditions. Its curvature memory is only read at slots written in the last configured number of steps, and the two-loop recursion computes the exact limited-memory direction.',
 IC,'all objectives, starts, memory sizes, parameters','Only one problem is solved in the test.',
 ['src/core/optimizer/lbfgs/lbfgs.hpp'],[('LBFGS::optimize','src/core/optimizer/lbfgs/lbfgs.hpp')])
prop('P19','Linear and ridge regression solve the (regularised) normal equations',
 'For every full-rank data set the fitted linear model (with or without intercept) solves the normal equations of the intercept-augmented design exactly, ridge solves them with the penalty added to the diagonal, and prediction returns the affine function of the fitted coefficients. The reported coefficients and intercept are those used for prediction.',
 IC,'all data, penalties, intercept settings','Tests print predictions and compare nothing.',
 ['src/methods/linear_model/linear_regression.hpp','src/methods/linear_model/ridge_regression.hpp','src/methods/linear_model/base.hpp'],[('fit_data, predict','src/methods/linear_model')])
prop('P20','Linear classifiers predict consistently with their decision function',
 'Logistic regression predicts the positive class exactly when the sigmoid of the affine score exceeds one half, with class probabilities that are in [0,1], sum to one and put the positive class in the second column; the perceptron predicts by the sign of the score and softmax regression by the largest class probability. Scores use the fitted intercept when one is fitted.',
 IC,'all fitted coefficients and inputs','Tests print predictions.',
 ['src/methods/linear_model/logistic_regression.hpp','src/methods/linear_model/perceptron.hpp','src/methods/linear_model/softmax_regression.hpp'],[('predict, predict_prob','src/methods/linear_model')])
prop('P21','Naive Bayes classifiers compute the exact posterior of their model',
 'For every labelled training set the Gaussian and multinomial naive Bayes classifiers estimate class priors, per-class means and variances, or smoothed feature log-probabilities by their textbook formulas. Predicted log-probabilities are the normalised joint log-likelihood and the predicted label is one with the largest posterior.',
 IC,'all training sets, smoothing and priors','The stable tests contain no running naive Bayes test.',
 ['src/methods/naive_bayes/base.hpp','src/methods/naive_bayes/gaussian_naive_bayes.hpp','src/methods/naive_bayes/multinomial_naive_bayes.hpp'],[('fit, predict, predict_log_prob','src/methods/naive_bayes')])
prop('P22','K-means assigns to the nearest centroid and moves centroids to cluster means',
 'K-means assigns every sample to a centroid of minimal distance, moves each centroid to the mean of the samples assigned to it, and starts from distinct data samples. Predicted labels are valid cluster indices of a nearest final centroid.',
 ['inputs','configurations','histories'],'all data, cluster counts, seeds','The k-means test does not run to completion at the pinned commit.',
 ['src/methods/cluster/kmeans.hpp'],[('fit, predict','src/methods/cluster/kmeans.hpp')])
prop('P23','Gaussian mixture E and M steps follow the mixture model exactly',
 'For every data set and parameter setting the mixture log-densities equal the multivariate normal log-density of the component for each covariance type, responsibilities are non-negative and sum to one per sample, and the M step returns the responsibility-weighted weights, means and covariances. The stored precisions are the inverses of the stored covariances and predicted labels maximise the responsibility.',
 IC,'all data, component counts and covariance types','The stable test prints one prediction.',
 ['src/methods/mixture/gaussian_mixture.hpp'],[('e_step, m_step, estimate_log_prob','src/methods/mixture/gaussian_mixture.hpp')])
prop('P24','PCA and truncated SVD produce orthonormal, ordered, consistent components',
 'For every data set the fitted components are orthonormal and ordered by decreasing explained variance, for PCA the explained variances are the squared singular values of the centred data over n-1, for truncated SVD the variances of the transformed training columns, and the ratios divide them by their total. The transform is the projection of the data (centred by the training mean for PCA, uncentred for truncated SVD) onto the components, and sign flipping changes no reconstruction. Covariance and precision reported by PCA are inverses of each other and the score is the Gaussian log-likelihood under them.',
 IC,'all data and component counts','Tests print results.',
 ['src/methods/decomposition/pca.hpp','src/methods/decomposition/truncated_svd.hpp','src/methods/decomposition/base.hpp','src/core/math/extmath.hpp'],[('fit, transform, score, svd_flip','src/methods/decomposition')])
prop('P25','KD-tree queries return exactly the brute-force neighbours',
 'For every point set, leaf size and query, the k-nearest query returns k distinct samples with their true distances in non-decreasing order such that no unreturned sample is closer, and the radius query returns exactly the samples within the radius with their true distances.',
 IC,'all point sets, leaf sizes, k, radii, queries','The test prints one query.',
 ['src/core/tree/kd_tree.hpp'],[('query, query_radius, build','src/core/tree/kd_tree.hpp')])
prop('P26','Hash-tree support counting is exact',
 'For every set of equal-length sorted itemsets inserted in a hash tree and every sequence of candidate occurrences, each itemset is stored exactly once, its count equals the number of matching occurrences added, and frequent-itemset extraction returns exactly those meeting the support threshold, once each.',
 H,'all itemsets, tree parameters and operation histories','The test prints one tree.',
 ['src/core/tree/hash_tree.hpp'],[('insert, add_support, compute_frequency_itemsets','src/core/tree/hash_tree.hpp')])
prop('P27','Apriori returns exactly the frequent itemsets and confident rules',
 'For every transaction database, support and confidence threshold, the rule miner reports as frequent exactly the itemsets contained in enough transactions, with exact supports, and as rules exactly those whose confidence meets the threshold.',
 IC,'all transaction databases and thresholds','The test prints the rules of one toy database.',
 ['src/methods/rule_model/apriori.hpp','src/core/tree/hash_tree.hpp'],[('fit, predict','src/methods/rule_model/apriori.hpp')])
prop('P28','Transaction encoding is an exact membership matrix over the sorted items',
 'For every list of transactions the encoder returns a sparse matrix with one row per transaction and one column per distinct item in ascending order; it stores an entry at (i,j) exactly when transaction i contains item j, and that entry is the item itself. The stored entries of a row, read in column order, are therefore exactly the sorted distinct items of that transaction, whatever the order and repetition of items in the input.',
 I,'all transaction lists','The test prints one example.',
 ['src/core/preprocessing/transaction_encoder.hpp'],[('fit_transform','src/core/preprocessing/transaction_encoder.hpp')])
prop('P29','Decision trees route by threshold, split best-first and predict leaf statistics',
 'A fitted decision tree routes a sample left exactly when its feature meets the node threshold, each split is one with the largest impurity decrease (impurity of the node minus the sample-weighted impurity of its two sides) among all thresholds between distinct values of a feature, a node is split only when the depth, minimum-sample and minimum-impurity limits hold for that split, and a leaf predicts the mean target or the class frequencies of exactly the training samples that reach it. Tree depth never exceeds the configured maximum.',
 IC,'all training sets and limits','The tree tests do not run at the pinned commit.',
 ['src/methods/tree/base.hpp','src/methods/tree/decision_tree_classifier.hpp','src/methods/tree/decision_tree_regressor.hpp'],[('fit, predict','src/methods/tree')])
prop('P30','Matrix factorisation wrappers reconstruct and invert their input',
 'For every valid input the LU, QR, SVD, Cholesky and eigen wrappers return factors with the defined structure whose product reproduces the input in the documented order; for singular value decompositions the third factor is the matrix of right singular vectors (not its transpose), and for symmetric matrices the eigen wrapper returns real eigenpairs. The pseudo-inverse satisfies the Penrose conditions, and the log-determinant equals the log of the determinant, or minus infinity when the determinant is not positive.',
 I,'all matrices','No test asserts a reconstruction.',
 ['src/core/math/linalg.hpp'],[('lu, qr, svd, pinv, cholesky, logdet, eig','src/core/math/linalg.hpp')])
prop('P31','Refitting an estimator depends only on the new training data',
 'For every estimator, fitting the same object twice gives the same observable result as fitting a fresh object with the same settings on the second data set.',
 H,'all pairs of training sets, all estimators','Tests fit each object once.',
 ['src/methods'],[('fit','src/methods')])
prop('P32','The k-nearest-neighbour classifier votes over the true neighbours',
 'For every training set, query and k the classifier predicts, for each query, a most common label among k nearest training samples under the configured metric, with either solver.',
 IC,'all training sets, queries, k, metrics and solvers','The test does not compile at the pinned commit.',
 ['src/methods/neighbors/k_nearest_neighbors.hpp'],[('predict','src/methods/neighbors/k_nearest_neighbors.hpp')])
prop('P33','Iterative training reaches the optimum and mixtures/clusters converge',
 'Gradient optimisers, expectation-maximisation and k-means converge to a (local) optimum of their objective within floating-point accuracy for every well-posed data set.',
 ['inputs','histories'],'all data, all iteration histories','Tests sample one data set.',
 ['src/core/optimizer','src/methods/mixture/gaussian_mixture.hpp','src/methods/cluster/kmeans.hpp'],[('optimize, fit','src/core/optimizer')])
prop('P34','Random sampling is uniform and shuffles are unbiased',
 'Every shuffle is uniformly distributed over permutations and random initialisations are independent of the data order.',
 ['inputs','schedules'],'all seeds','Not tested.',
 ['src/core/math/shuffle.hpp','src/core/math/random.hpp'],[('shuffle_data, random','src/core/math')])
