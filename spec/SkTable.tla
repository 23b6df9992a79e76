--------------------------------- MODULE SkTable ---------------------------------
(***************************************************************************)
(* The scikit-learn classes with a short name or parameters that do not    *)
(* change results: [class, module, short name, parameters out of the id].  *)
(* Written down from whatami/wrappers/what_sklearn.py (declarations for    *)
(* 0.19.1 and later), against which they are checked.                      *)
(***************************************************************************)
Declared == <<
  <<"ARDRegression", "sklearn.linear_model.bayes", "ardr", <<"copy_X", "verbose">> >>,
  <<"AdaBoostClassifier", "sklearn.ensemble.weight_boosting", "AdaBoostClassifier", <<>> >>,
  <<"AdaBoostRegressor", "sklearn.ensemble.weight_boosting", "AdaBoostRegressor", <<>> >>,
  <<"AdditiveChi2Sampler", "sklearn.kernel_approximation", "AdditiveChi2Sampler", <<>> >>,
  <<"AffinityPropagation", "sklearn.cluster.affinity_propagation_", "AffinityPropagation", <<"copy", "verbose">> >>,
  <<"AgglomerativeClustering", "sklearn.cluster.hierarchical", "AgglomerativeClustering", <<"memory">> >>,
  <<"BaggingClassifier", "sklearn.ensemble.bagging", "BaggingClassifier", <<"n_jobs", "oob_score", "verbose">> >>,
  <<"BaggingRegressor", "sklearn.ensemble.bagging", "BaggingRegressor", <<"n_jobs", "oob_score", "verbose">> >>,
  <<"BayesianGaussianMixture", "sklearn.mixture.bayesian_mixture", "BayesianGaussianMixture", <<"verbose", "verbose_interval">> >>,
  <<"BayesianRidge", "sklearn.linear_model.bayes", "bayridge", <<"copy_X", "verbose">> >>,
  <<"BernoulliNB", "sklearn.naive_bayes", "bnb", <<>> >>,
  <<"BernoulliRBM", "sklearn.neural_network.rbm", "BernoulliRBM", <<"verbose">> >>,
  <<"Binarizer", "sklearn.preprocessing.data", "Binarizer", <<"copy">> >>,
  <<"Birch", "sklearn.cluster.birch", "Birch", <<"compute_labels", "copy">> >>,
  <<"CCA", "sklearn.cross_decomposition.cca_", "cca", <<"copy">> >>,
  <<"CalibratedClassifierCV", "sklearn.calibration", "CalibratedClassifierCV", <<>> >>,
  <<"ClassifierChain", "sklearn.multioutput", "ClassifierChain", <<>> >>,
  <<"CompoundKernel", "sklearn.gaussian_process.kernels", "CompoundKernel", <<>> >>,
  <<"ConstantKernel", "sklearn.gaussian_process.kernels", "ConstantKernel", <<>> >>,
  <<"CountVectorizer", "sklearn.feature_extraction.text", "CountVectorizer", <<>> >>,
  <<"DBSCAN", "sklearn.cluster.dbscan_", "DBSCAN", <<"n_jobs">> >>,
  <<"DecisionTreeClassifier", "sklearn.tree.tree", "dtc", <<>> >>,
  <<"DecisionTreeRegressor", "sklearn.tree.tree", "dtr", <<>> >>,
  <<"DictVectorizer", "sklearn.feature_extraction.dict_vectorizer", "DictVectorizer", <<>> >>,
  <<"DictionaryLearning", "sklearn.decomposition.dict_learning", "DictionaryLearning", <<"n_jobs", "verbose">> >>,
  <<"DotProduct", "sklearn.gaussian_process.kernels", "DotProduct", <<>> >>,
  <<"DummyClassifier", "sklearn.dummy", "DummyClassifier", <<>> >>,
  <<"DummyRegressor", "sklearn.dummy", "DummyRegressor", <<>> >>,
  <<"ElasticNet", "sklearn.linear_model.coordinate_descent", "elnet", <<"copy_X">> >>,
  <<"ElasticNetCV", "sklearn.linear_model.coordinate_descent", "elnetcv", <<"copy_X", "n_jobs", "verbose">> >>,
  <<"EllipticEnvelope", "sklearn.covariance.elliptic_envelope", "EllipticEnvelope", <<"store_precision">> >>,
  <<"EmpiricalCovariance", "sklearn.covariance.empirical_covariance_", "EmpiricalCovariance", <<>> >>,
  <<"ExpSineSquared", "sklearn.gaussian_process.kernels", "ExpSineSquared", <<>> >>,
  <<"Exponentiation", "sklearn.gaussian_process.kernels", "Exponentiation", <<>> >>,
  <<"ExtraTreeClassifier", "sklearn.tree.tree", "ExtraTreeClassifier", <<>> >>,
  <<"ExtraTreeRegressor", "sklearn.tree.tree", "ExtraTreeRegressor", <<>> >>,
  <<"ExtraTreesClassifier", "sklearn.ensemble.forest", "etc", <<"n_jobs", "oob_score", "verbose">> >>,
  <<"ExtraTreesRegressor", "sklearn.ensemble.forest", "etr", <<"n_jobs", "oob_score", "verbose">> >>,
  <<"FactorAnalysis", "sklearn.decomposition.factor_analysis", "FactorAnalysis", <<"copy">> >>,
  <<"FastICA", "sklearn.decomposition.fastica_", "FastICA", <<>> >>,
  <<"FeatureAgglomeration", "sklearn.cluster.hierarchical", "FeatureAgglomeration", <<"memory">> >>,
  <<"FeatureHasher", "sklearn.feature_extraction.hashing", "FeatureHasher", <<>> >>,
  <<"FeatureUnion", "sklearn.pipeline", "FeatureUnion", <<"n_jobs">> >>,
  <<"FunctionTransformer", "sklearn.preprocessing._function_transformer", "FunctionTransformer", <<>> >>,
  <<"GaussianMixture", "sklearn.mixture.gaussian_mixture", "GaussianMixture", <<"verbose", "verbose_interval">> >>,
  <<"GaussianNB", "sklearn.naive_bayes", "gnb", <<>> >>,
  <<"GaussianProcessClassifier", "sklearn.gaussian_process.gpc", "gpc", <<"copy_X_train", "n_jobs">> >>,
  <<"GaussianProcessRegressor", "sklearn.gaussian_process.gpr", "gpr", <<"copy_X_train">> >>,
  <<"GaussianRandomProjection", "sklearn.random_projection", "GaussianRandomProjection", <<>> >>,
  <<"GenericUnivariateSelect", "sklearn.feature_selection.univariate_selection", "GenericUnivariateSelect", <<>> >>,
  <<"GradientBoostingClassifier", "sklearn.ensemble.gradient_boosting", "gbc", <<"verbose">> >>,
  <<"GradientBoostingRegressor", "sklearn.ensemble.gradient_boosting", "gbr", <<"verbose">> >>,
  <<"GraphLasso", "sklearn.covariance.graph_lasso_", "GraphLasso", <<"verbose">> >>,
  <<"GraphLassoCV", "sklearn.covariance.graph_lasso_", "GraphLassoCV", <<"n_jobs", "verbose">> >>,
  <<"GridSearchCV", "sklearn.model_selection._search", "GridSearchCV", <<"error_score", "n_jobs", "pre_dispatch", "refit", "return_train_score", "verbose">> >>,
  <<"GroupKFold", "sklearn.model_selection._split", "GroupKFold", <<>> >>,
  <<"GroupShuffleSplit", "sklearn.model_selection._split", "GroupShuffleSplit", <<>> >>,
  <<"HashingVectorizer", "sklearn.feature_extraction.text", "HashingVectorizer", <<>> >>,
  <<"HuberRegressor", "sklearn.linear_model.huber", "HuberRegressor", <<>> >>,
  <<"Imputer", "sklearn.preprocessing.imputation", "Imputer", <<"copy", "verbose">> >>,
  <<"IncrementalPCA", "sklearn.decomposition.incremental_pca", "IncrementalPCA", <<"copy">> >>,
  <<"IsolationForest", "sklearn.ensemble.iforest", "IsolationForest", <<"n_jobs", "verbose">> >>,
  <<"Isomap", "sklearn.manifold.isomap", "Isomap", <<"n_jobs">> >>,
  <<"IsotonicRegression", "sklearn.isotonic", "IsotonicRegression", <<>> >>,
  <<"KFold", "sklearn.model_selection._split", "KFold", <<>> >>,
  <<"KMeans", "sklearn.cluster.k_means_", "KMeans", <<"copy_x", "n_jobs", "precompute_distances", "verbose">> >>,
  <<"KNeighborsClassifier", "sklearn.neighbors.classification", "knc", <<"n_jobs">> >>,
  <<"KNeighborsRegressor", "sklearn.neighbors.regression", "knr", <<"n_jobs">> >>,
  <<"KernelCenterer", "sklearn.preprocessing.data", "KernelCenterer", <<>> >>,
  <<"KernelDensity", "sklearn.neighbors.kde", "KernelDensity", <<>> >>,
  <<"KernelPCA", "sklearn.decomposition.kernel_pca", "KernelPCA", <<"copy_X", "n_jobs">> >>,
  <<"KernelRidge", "sklearn.kernel_ridge", "KernelRidge", <<>> >>,
  <<"LabelBinarizer", "sklearn.preprocessing.label", "LabelBinarizer", <<>> >>,
  <<"LabelEncoder", "sklearn.preprocessing.label", "LabelEncoder", <<>> >>,
  <<"LabelPropagation", "sklearn.semi_supervised.label_propagation", "LabelPropagation", <<"n_jobs">> >>,
  <<"LabelSpreading", "sklearn.semi_supervised.label_propagation", "LabelSpreading", <<"n_jobs">> >>,
  <<"Lars", "sklearn.linear_model.least_angle", "lars", <<"copy_X", "fit_path", "verbose">> >>,
  <<"LarsCV", "sklearn.linear_model.least_angle", "larscv", <<"copy_X", "fit_path", "n_jobs", "verbose">> >>,
  <<"Lasso", "sklearn.linear_model.coordinate_descent", "lasso", <<"copy_X">> >>,
  <<"LassoCV", "sklearn.linear_model.coordinate_descent", "lassocv", <<"copy_X", "n_jobs", "verbose">> >>,
  <<"LassoLars", "sklearn.linear_model.least_angle", "lassolars", <<"copy_X", "fit_path", "verbose">> >>,
  <<"LassoLarsCV", "sklearn.linear_model.least_angle", "lassolarscv", <<"copy_X", "fit_path", "n_jobs", "verbose">> >>,
  <<"LassoLarsIC", "sklearn.linear_model.least_angle", "lassolarsic", <<"copy_X", "verbose">> >>,
  <<"LatentDirichletAllocation", "sklearn.decomposition.online_lda", "LatentDirichletAllocation", <<"n_jobs", "verbose">> >>,
  <<"LeaveOneGroupOut", "sklearn.model_selection._split", "LeaveOneGroupOut", <<>> >>,
  <<"LeaveOneOut", "sklearn.model_selection._split", "LeaveOneOut", <<>> >>,
  <<"LeavePGroupsOut", "sklearn.model_selection._split", "LeavePGroupsOut", <<>> >>,
  <<"LeavePOut", "sklearn.model_selection._split", "LeavePOut", <<>> >>,
  <<"LedoitWolf", "sklearn.covariance.shrunk_covariance_", "LedoitWolf", <<>> >>,
  <<"LinearDiscriminantAnalysis", "sklearn.discriminant_analysis", "LinearDiscriminantAnalysis", <<"store_covariance">> >>,
  <<"LinearRegression", "sklearn.linear_model.base", "linreg", <<"copy_X", "n_jobs">> >>,
  <<"LinearSVC", "sklearn.svm.classes", "linsvc", <<"verbose">> >>,
  <<"LinearSVR", "sklearn.svm.classes", "linsvr", <<"verbose">> >>,
  <<"LocalOutlierFactor", "sklearn.neighbors.lof", "lof", <<"n_jobs">> >>,
  <<"LocallyLinearEmbedding", "sklearn.manifold.locally_linear", "LocallyLinearEmbedding", <<"n_jobs", "neighbors_algorithm">> >>,
  <<"LogisticRegression", "sklearn.linear_model.logistic", "logreg", <<"n_jobs", "verbose">> >>,
  <<"LogisticRegressionCV", "sklearn.linear_model.logistic", "logregcv", <<"n_jobs", "verbose">> >>,
  <<"MDS", "sklearn.manifold.mds", "MDS", <<"n_jobs", "verbose">> >>,
  <<"MLPClassifier", "sklearn.neural_network.multilayer_perceptron", "MLPClassifier", <<"verbose">> >>,
  <<"MLPRegressor", "sklearn.neural_network.multilayer_perceptron", "MLPRegressor", <<"verbose">> >>,
  <<"Matern", "sklearn.gaussian_process.kernels", "Matern", <<>> >>,
  <<"MaxAbsScaler", "sklearn.preprocessing.data", "MaxAbsScaler", <<"copy">> >>,
  <<"MeanShift", "sklearn.cluster.mean_shift_", "MeanShift", <<"n_jobs">> >>,
  <<"MinCovDet", "sklearn.covariance.robust_covariance", "MinCovDet", <<>> >>,
  <<"MinMaxScaler", "sklearn.preprocessing.data", "MinMaxScaler", <<"copy">> >>,
  <<"MiniBatchDictionaryLearning", "sklearn.decomposition.dict_learning", "MiniBatchDictionaryLearning", <<"n_jobs", "verbose">> >>,
  <<"MiniBatchKMeans", "sklearn.cluster.k_means_", "MiniBatchKMeans", <<"compute_labels", "verbose">> >>,
  <<"MiniBatchSparsePCA", "sklearn.decomposition.sparse_pca", "MiniBatchSparsePCA", <<"callback", "n_jobs", "verbose">> >>,
  <<"MultiLabelBinarizer", "sklearn.preprocessing.label", "MultiLabelBinarizer", <<>> >>,
  <<"MultiOutputClassifier", "sklearn.multioutput", "MultiOutputClassifier", <<"n_jobs">> >>,
  <<"MultiOutputRegressor", "sklearn.multioutput", "MultiOutputRegressor", <<"n_jobs">> >>,
  <<"MultiTaskElasticNet", "sklearn.linear_model.coordinate_descent", "MultiTaskElasticNet", <<"copy_X">> >>,
  <<"MultiTaskElasticNetCV", "sklearn.linear_model.coordinate_descent", "MultiTaskElasticNetCV", <<"copy_X", "n_jobs", "verbose">> >>,
  <<"MultiTaskLasso", "sklearn.linear_model.coordinate_descent", "MultiTaskLasso", <<"copy_X">> >>,
  <<"MultiTaskLassoCV", "sklearn.linear_model.coordinate_descent", "MultiTaskLassoCV", <<"copy_X", "n_jobs", "verbose">> >>,
  <<"MultinomialNB", "sklearn.naive_bayes", "mnb", <<>> >>,
  <<"NMF", "sklearn.decomposition.nmf", "NMF", <<"verbose">> >>,
  <<"NearestCentroid", "sklearn.neighbors.nearest_centroid", "nc", <<>> >>,
  <<"NearestNeighbors", "sklearn.neighbors.unsupervised", "NearestNeighbors", <<"n_jobs">> >>,
  <<"Normalizer", "sklearn.preprocessing.data", "Normalizer", <<"copy">> >>,
  <<"NuSVC", "sklearn.svm.classes", "nusvc", <<"cache_size", "verbose">> >>,
  <<"NuSVR", "sklearn.svm.classes", "nusvr", <<"cache_size", "verbose">> >>,
  <<"Nystroem", "sklearn.kernel_approximation", "Nystroem", <<>> >>,
  <<"OAS", "sklearn.covariance.shrunk_covariance_", "OAS", <<>> >>,
  <<"OneClassSVM", "sklearn.svm.classes", "ocsvm", <<"cache_size", "verbose">> >>,
  <<"OneHotEncoder", "sklearn.preprocessing._encoders", "OneHotEncoder", <<>> >>,
  <<"OneVsOneClassifier", "sklearn.multiclass", "OneVsOneClassifier", <<"n_jobs">> >>,
  <<"OneVsRestClassifier", "sklearn.multiclass", "OneVsRestClassifier", <<"n_jobs">> >>,
  <<"OrthogonalMatchingPursuit", "sklearn.linear_model.omp", "omp", <<>> >>,
  <<"OrthogonalMatchingPursuitCV", "sklearn.linear_model.omp", "ompcv", <<"copy", "n_jobs", "verbose">> >>,
  <<"OutputCodeClassifier", "sklearn.multiclass", "OutputCodeClassifier", <<"n_jobs">> >>,
  <<"PCA", "sklearn.decomposition.pca", "PCA", <<"copy">> >>,
  <<"PLSCanonical", "sklearn.cross_decomposition.pls_", "plscan", <<"copy">> >>,
  <<"PLSRegression", "sklearn.cross_decomposition.pls_", "plsr", <<"copy">> >>,
  <<"PLSSVD", "sklearn.cross_decomposition.pls_", "plssvd", <<"copy">> >>,
  <<"PairwiseKernel", "sklearn.gaussian_process.kernels", "PairwiseKernel", <<>> >>,
  <<"PassiveAggressiveClassifier", "sklearn.linear_model.passive_aggressive", "PassiveAggressiveClassifier", <<"n_jobs", "verbose">> >>,
  <<"PassiveAggressiveRegressor", "sklearn.linear_model.passive_aggressive", "PassiveAggressiveRegressor", <<"verbose">> >>,
  <<"PatchExtractor", "sklearn.feature_extraction.image", "PatchExtractor", <<>> >>,
  <<"Perceptron", "sklearn.linear_model.perceptron", "perceptron", <<"n_jobs", "verbose">> >>,
  <<"Pipeline", "sklearn.pipeline", "Pipeline", <<"memory">> >>,
  <<"PolynomialFeatures", "sklearn.preprocessing.data", "PolynomialFeatures", <<>> >>,
  <<"PredefinedSplit", "sklearn.model_selection._split", "PredefinedSplit", <<>> >>,
  <<"Product", "sklearn.gaussian_process.kernels", "Product", <<>> >>,
  <<"QuadraticDiscriminantAnalysis", "sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", <<"store_covariance">> >>,
  <<"QuantileTransformer", "sklearn.preprocessing.data", "QuantileTransformer", <<"copy">> >>,
  <<"RANSACRegressor", "sklearn.linear_model.ransac", "RANSACRegressor", <<>> >>,
  <<"RBF", "sklearn.gaussian_process.kernels", "RBF", <<>> >>,
  <<"RBFSampler", "sklearn.kernel_approximation", "RBFSampler", <<>> >>,
  <<"RFE", "sklearn.feature_selection.rfe", "RFE", <<"verbose">> >>,
  <<"RFECV", "sklearn.feature_selection.rfe", "RFECV", <<"n_jobs", "verbose">> >>,
  <<"RadiusNeighborsClassifier", "sklearn.neighbors.classification", "rnc", <<>> >>,
  <<"RadiusNeighborsRegressor", "sklearn.neighbors.regression", "rnr", <<>> >>,
  <<"RandomForestClassifier", "sklearn.ensemble.forest", "rfc", <<"n_jobs", "oob_score", "verbose">> >>,
  <<"RandomForestRegressor", "sklearn.ensemble.forest", "rfr", <<"n_jobs", "oob_score", "verbose">> >>,
  <<"RandomTreesEmbedding", "sklearn.ensemble.forest", "rte", <<"n_jobs", "verbose">> >>,
  <<"RandomizedSearchCV", "sklearn.model_selection._search", "RandomizedSearchCV", <<"error_score", "n_jobs", "pre_dispatch", "refit", "return_train_score", "verbose">> >>,
  <<"RationalQuadratic", "sklearn.gaussian_process.kernels", "RationalQuadratic", <<>> >>,
  <<"RepeatedStratifiedKFold", "sklearn.model_selection._split", "RepeatedStratifiedKFold", <<>> >>,
  <<"Ridge", "sklearn.linear_model.ridge", "ridge", <<"copy_X">> >>,
  <<"RidgeCV", "sklearn.linear_model.ridge", "RidgeCV", <<>> >>,
  <<"RidgeClassifier", "sklearn.linear_model.ridge", "RidgeClassifier", <<"copy_X">> >>,
  <<"RidgeClassifierCV", "sklearn.linear_model.ridge", "RidgeClassifierCV", <<>> >>,
  <<"RobustScaler", "sklearn.preprocessing.data", "RobustScaler", <<"copy">> >>,
  <<"SGDClassifier", "sklearn.linear_model.stochastic_gradient", "sgdc", <<"n_jobs", "verbose">> >>,
  <<"SGDRegressor", "sklearn.linear_model.stochastic_gradient", "sgdr", <<"verbose">> >>,
  <<"SVC", "sklearn.svm.classes", "svc", <<"cache_size", "verbose">> >>,
  <<"SVR", "sklearn.svm.classes", "svr", <<"cache_size", "verbose">> >>,
  <<"SelectFdr", "sklearn.feature_selection.univariate_selection", "SelectFdr", <<>> >>,
  <<"SelectFpr", "sklearn.feature_selection.univariate_selection", "SelectFpr", <<>> >>,
  <<"SelectFromModel", "sklearn.feature_selection.from_model", "SelectFromModel", <<>> >>,
  <<"SelectFwe", "sklearn.feature_selection.univariate_selection", "SelectFwe", <<>> >>,
  <<"SelectKBest", "sklearn.feature_selection.univariate_selection", "SelectKBest", <<>> >>,
  <<"SelectPercentile", "sklearn.feature_selection.univariate_selection", "SelectPercentile", <<>> >>,
  <<"ShrunkCovariance", "sklearn.covariance.shrunk_covariance_", "ShrunkCovariance", <<>> >>,
  <<"ShuffleSplit", "sklearn.model_selection._split", "ShuffleSplit", <<>> >>,
  <<"SkewedChi2Sampler", "sklearn.kernel_approximation", "SkewedChi2Sampler", <<>> >>,
  <<"SparseCoder", "sklearn.decomposition.dict_learning", "SparseCoder", <<"n_jobs">> >>,
  <<"SparsePCA", "sklearn.decomposition.sparse_pca", "SparsePCA", <<"n_jobs", "verbose">> >>,
  <<"SparseRandomProjection", "sklearn.random_projection", "SparseRandomProjection", <<>> >>,
  <<"SpectralBiclustering", "sklearn.cluster.bicluster", "SpectralBiclustering", <<"n_jobs">> >>,
  <<"SpectralClustering", "sklearn.cluster.spectral", "SpectralClustering", <<"n_jobs">> >>,
  <<"SpectralCoclustering", "sklearn.cluster.bicluster", "SpectralCoclustering", <<"n_jobs">> >>,
  <<"SpectralEmbedding", "sklearn.manifold.spectral_embedding_", "SpectralEmbedding", <<"n_jobs">> >>,
  <<"StandardScaler", "sklearn.preprocessing.data", "StandardScaler", <<"copy">> >>,
  <<"StratifiedKFold", "sklearn.model_selection._split", "StratifiedKFold", <<>> >>,
  <<"StratifiedShuffleSplit", "sklearn.model_selection._split", "StratifiedShuffleSplit", <<>> >>,
  <<"Sum", "sklearn.gaussian_process.kernels", "Sum", <<>> >>,
  <<"TSNE", "sklearn.manifold.t_sne", "TSNE", <<"verbose">> >>,
  <<"TfidfTransformer", "sklearn.feature_extraction.text", "TfidfTransformer", <<>> >>,
  <<"TfidfVectorizer", "sklearn.feature_extraction.text", "TfidfVectorizer", <<>> >>,
  <<"TheilSenRegressor", "sklearn.linear_model.theil_sen", "TheilSenRegressor", <<"copy_X", "n_jobs", "verbose">> >>,
  <<"TimeSeriesSplit", "sklearn.model_selection._split", "TimeSeriesSplit", <<>> >>,
  <<"TruncatedSVD", "sklearn.decomposition.truncated_svd", "TruncatedSVD", <<>> >>,
  <<"VarianceThreshold", "sklearn.feature_selection.variance_threshold", "VarianceThreshold", <<>> >>,
  <<"VotingClassifier", "sklearn.ensemble.voting_classifier", "VotingClassifier", <<"n_jobs">> >>,
  <<"WhiteKernel", "sklearn.gaussian_process.kernels", "WhiteKernel", <<>> >>
>>
=============================================================================
