F = "fortuna/"
prop("C01", "Conformal classification sets follow the rank rule and cover",
 "For every calibration set, test batch and error level, a split conformal classifier (simple or adaptive score) returns for each test input exactly the labels for which fewer than (1-error)(n+1) of the n calibration scores lie strictly below the label's score, the simple score being one minus the label's probability and the adaptive score the total probability of the labels at least as probable; the CV+ variants apply the same rule to the scores pooled over the folds. Hence, leaving each of n+1 labelled points out in turn, at least (1-error)(n+1) sets contain the true label, sets only shrink as the error grows, and they depend neither on the order of the calibration data nor on the other test inputs. The membership check reports exactly whether each label is in its set.",
 ["inputs"], "all calibration probabilities and labels, test probabilities, error levels, folds and orderings",
 "Tests use a handful of fixed arrays and check mostly shapes; ranks, ties, boundary errors and coverage over orderings are not touched.",
 [F+"conformal/classification/base.py", F+"conformal/classification/simple_prediction.py", F+"conformal/classification/adaptive_prediction.py"],
 [("rank rule", "ConformalClassifier._get_conformal_sets_from_scores"), ("scores", "score_fn in simple_prediction.py and adaptive_prediction.py"), ("membership", "ConformalClassifier.is_in")],
 "generated probabilities are dyadic so that the reference (exact fractions) decides every tie; 1-19 calibration points, 2-4 classes")
prop("C02", "Jackknife+, CV+ and minmax intervals use the right residual quantiles",
 "For every set of leave-one-out (or fold-out) predictions, the jackknife+, jackknife-minmax and CV+ regressors return, for each test input, an interval whose ends are the error and 1-error (linearly interpolated) empirical quantiles, over all held-out points, of the held-out predictions minus / plus the absolute held-out residual (using, for minmax, the smallest / largest held-out prediction), each residual being paired with the predictions of the very model that did not see the point. Intervals do not depend on the order of points and folds or on the other test inputs, shift and scale with the data, widen as the error shrinks, and the inputs passed by the caller are left unchanged. The membership check reports exactly whether each value lies within its interval.",
 ["inputs"], "all predictions, targets, fold structures, error levels, orderings",
 "Tests only check shapes and ordering of a fixed example.",
 [F+"conformal/regression/jackknifeplus.py", F+"conformal/regression/jackknife_minmax.py", F+"conformal/regression/cvplus.py", F+"conformal/regression/base.py"],
 [("jackknife+ interval", "JackknifePlusConformalRegressor.conformal_interval"), ("minmax interval", "JackknifeMinmaxConformalRegressor.conformal_interval"), ("CV+ pairing", "CVPlusConformalRegressor.conformal_interval")],
 "quantile convention left open between neighbouring order statistics; 1-12 points, up to 4 folds")
prop("C03", "Split conformal regression intervals cover at the stated level",
 "For every calibration set of n points, calibrating an interval (or a one-dimensional uncertainty) predictor yields new intervals that adjust the given ones by the calibrated quantile of the conformity scores (signed distance outside the interval; absolute residual over uncertainty), which is the linearly interpolated empirical quantile at level ceil((n+1)(1-error))/n, capped at 1, so that leaving each of n+1 points out in turn at least min(n, ceil((n+1)(1-error))) of the n+1 targets lie in their intervals, up to interpolation. The quantile does not depend on the order of the data and does not decrease as the error decreases; a single test input gets the same interval as within a batch.",
 ["inputs"], "all targets, interval bounds, uncertainties, errors, orderings, sizes",
 "Tests use constant arrays; rank, ties, tiny calibration sets and coverage are unexamined.",
 [F+"conformal/regression/quantile.py", F+"conformal/regression/onedim_uncertainty.py", F+"conformal/regression/base.py"],
 [("CQR score and quantile", "QuantileConformalRegressor"), ("uncertainty score", "OneDimensionalUncertaintyConformalRegressor")],
 "coverage counted by rotation, deterministic; 1-20 points")
prop("C04", "EnbPI intervals use only out-of-bag residuals and slide over all of them",
 "For every bootstrap history, the EnbPI regressor aggregates, for each training point, only the predictions of the replicates whose sample did not contain the point, and centres test intervals at the aggregate of those leave-one-out predictors plus and minus the residual quantile of the requested level. Feeding back new residuals drops exactly as many of the oldest residuals as there are new ones, keeps the rest in order, never changes the array the caller holds, and the resulting intervals are those computed from the slid residuals alone; this holds over any sequence of updates and batch sizes.",
 ["histories", "inputs"], "all bootstrap index tables, predictions, targets, errors and sequences of residual updates",
 "Tests check output shapes for one update.",
 [F+"conformal/regression/enbpi.py"],
 [("leave-one-out aggregation", "EnbPI.conformal_interval"), ("sliding residuals", "EnbPI.conformal_interval_from_residuals")],
 "stateful comparison of update sequences with a list model; tables of up to 6 replicates and 8 points")
prop("C05", "Adaptive conformal error tracks the target coverage over any history",
 "For every sequence of observed outcomes, the adaptive conformal rule moves the working error by learning rate times (target error minus miscoverage), where miscoverage is 0 if the outcome lay in its set or interval and 1 otherwise (or, when weights are given, the weighted average of the past miscoverages with normalised weights), with bounds respected, so that over any history the running miscoverage frequency deviates from the target by exactly the total movement divided by steps and rate. The regression and classification variants agree on equal hit/miss histories.",
 ["histories"], "all outcome sequences, intervals/sets, rates, target errors, weights",
 "Tests run a single update.",
 [F+"conformal/regression/adaptive_conformal_regressor.py", F+"conformal/classification/adaptive_conformal_classifier.py"],
 [("update rule", "AdaptiveConformalRegressor.update_error, AdaptiveConformalClassifier.update_error")],
 "histories of up to 12 steps compared with an exact float model")
prop("C06", "Iterative multicalibration returns the patched scores it promises",
 "For every score, target and group history, iterative multicalibration starts from the given or constant initial values and in every round patches one group and level set of probability at least the given minimum, the one with the largest calibration error (probability times squared mean residual), by step size times its mean residual (or multiplicatively, by the ratio of mean score to mean value), values being clipped to [0,1]; it stops when every such error is below the tolerance, when no eligible set is left, after the given number of rounds, or when the loss would grow, so the reported losses on the held-out part never end above their start. Test values returned, and those obtained by applying the stored patches to the same initial values, are the same patches applied row by row; inputs are left unchanged, targets and scores follow the class (scores, binary targets, top-label accuracies), and the reported calibration errors per group are the probability-weighted sums they are defined as.",
 ["inputs", "histories"], "all scores, targets, group masks, bucket numbers, tolerances, rounds",
 "Tests cover one fixed random data set per class and mostly check shapes.",
 [F+"conformal/multivalid/iterative/base.py", F+"conformal/multivalid/iterative/multicalibrator.py", F+"conformal/multivalid/iterative/classification/top_label_multicalibrator.py", F+"conformal/multivalid/iterative/classification/binary_multicalibrator.py"],
 [("calibrate loop", "IterativeMultivalidMethod.calibrate"), ("patch application", "IterativeMultivalidMethod.apply_patches")],
 "reference loop re-implemented in NumPy; up to 24 points, 3 groups, 10 buckets")
prop("C07", "One-shot multicalibration maps every level to its mean outcome",
 "For every data set, one-shot multicalibration replaces each value by the patch of its nearest level: the mean target of the calibration points whose values lie within half a bucket width of that level when their fraction exceeds the minimum probability, and the level itself otherwise (for the top-label variant only the probability of the top label changes, and only calibration points with the same top label count). Results are inside [0,1], do not depend on the order of the calibration data or on the other test values, and the inputs are left unchanged.",
 ["inputs"], "all scores, targets, group masks, numbers of buckets",
 "Tests check shapes on one random data set.",
 [F+"conformal/multivalid/one_shot/base.py", F+"conformal/multivalid/one_shot/classification/binary_multicalibrator.py", F+"conformal/multivalid/one_shot/classification/top_label_multicalibrator.py"],
 [("cell means", "OneShotMultivalidMethod.calibrate"), ("patches", "OneShotMultivalidMethod.apply_patches")],
 "reference in NumPy; up to 24 points, 3 groups")
prop("C08", "Fixed-precision calibration reaches maximal coverage at the given precision",
 "For every calibration set and precision levels, the fixed-precision binary calibrator multiplies the probabilities above one half by one scale and those below by another (capped at 1, one half untouched), each taken from the stated grid, such that the calibration points then predicted positive (at or above the threshold; negative: at or below one minus the threshold) have at least the required precision plus margin, and no scale of the grid satisfying it covers more points; a side that cannot satisfy it is left unscaled. Test probabilities are rescaled the same way, inputs are unchanged, and the reported true-positive and true-negative precisions and coverages are exactly the fractions they are named after.",
 ["inputs"], "all scores, binary targets, precision levels, grid sizes",
 "One fixed data set is tested.",
 [F+"conformal/classification/maxcovfixprec_binary_classfication.py"],
 [("threshold search", "MaxCoverageFixedPrecisionBinaryClassifier")],
 "brute-force over the same grid")
prop("C09", "Batch multivalid thresholds move as defined towards the wanted coverage",
 "For every score set, groups and coverage, the batch multivalid predictor in every round picks the group and threshold level set with the largest weighted coverage error and moves its thresholds by step size times the shift of its grid that leaves the smallest coverage error there; thresholds stay in [0,1], points outside the set keep theirs, re-applying the stored patches to the same initial thresholds reproduces them row by row, on calibration data and on test data alike, inputs are left unchanged, and the reported calibration errors equal their definition. Conformal sets of the classifier contain exactly the labels whose score does not exceed the threshold.",
 ["inputs", "histories"], "all scores, groups, coverage levels, buckets, rounds",
 "Tests use one random data set.",
 [F+"conformal/multivalid/iterative/batch_mvp.py", F+"conformal/multivalid/iterative/regression/batch_mvp.py"],
 [("patch search", "BatchMVPConformalMethod._get_patch"), ("calibrate loop", "IterativeMultivalidMethod.calibrate")],
 "reference in NumPy")
prop("C10", "Metrics equal their definitions on every input",
 "For every prediction and target array, accuracy, Brier score (binary, multi-class, targets as an array or a loader), expected and maximum calibration error, mean squared and absolute errors and their roots, and interval coverage probability equal their textbook definitions; confidences are binned without losing or repeating a point, each bin reporting its count, mean confidence and mean accuracy; metrics lie within their ranges, do not depend on the order of the data, and vanish where they should (data as accurate as confident have zero calibration error; perfect predictions have zero loss).",
 ["inputs"], "all probabilities, labels, intervals, sizes",
 "Tests check a few arrays.",
 [F+"metric/classification.py", F+"metric/regression.py"],
 [("classification metrics", "metric/classification.py"), ("regression metrics", "metric/regression.py")],
 "reference in NumPy float64 on exactly representable inputs")
prop("C11", "Output distributions cohere: density, moments, entropy, samples agree",
 "For every model output, the classification and regression output layers define one distribution: log-probabilities are the normalised log-density of the targets, and mean, mode, prediction, variance, standard deviation, entropy, quantiles and credible intervals (those of the samples of the given key) are those of that same distribution, row by row, class probabilities being invariant to adding a constant to the logits. Samples come with the requested shape, are reproducible from the key, are independent between inputs and draws, and their empirical distribution matches the stated one. Cross-entropy, focal and scaled squared losses are the averages of that log-density they are defined as.",
 ["inputs"], "all outputs, targets, keys, sample sizes",
 "Tests check shapes only.",
 [F+"prob_output_layer/classification.py", F+"prob_output_layer/regression.py", F+"prob_output_layer/base.py", F+"loss/classification/focal_loss.py"],
 [("categorical layer", "ClassificationProbOutputLayer"), ("Gaussian layer", "RegressionProbOutputLayer")],
 "reference in SciPy; sampling checked at > 6 sigma")
prop("C12", "Array data loaders lose, duplicate and mispair nothing",
 "For every data set, batch size and way of building it (arrays, callable, iterable, torch or TensorFlow loader), iterating a loader yields each (input, target) pair exactly once, inputs paired with their own targets, in batches of the stated size except the last, in the original order, or in one fixed permutation when shuffling was asked for, every time it is iterated; inputs and targets loaders derived from it, and conversions back to arrays, keep the data and its order, and reported sizes, batch counts, input shapes and label counts agree with what is yielded. Splitting partitions the data after exactly the stated number of points, chopping drops the remainder of each batch modulo the divisor, sampling yields the stated number of pairs of the data, transforming applies the function once per batch, passing the status on, and dropping empty batches, and loaders merged from inputs loaders assign each its target.",
 ["inputs", "histories"], "all data sets, sizes, batch sizes, dictionaries of inputs, combinations of loader operations",
 "Tests iterate one small loader and check types and shapes.",
 [F+"data/loader/base.py", F+"data/loader/array_loaders.py", F+"data/loader/utils.py"],
 [("iterating", "data/loader/utils.py"), ("loader conversions", "data/loader/array_loaders.py")],
 "generated chains of loader operations compared with a list model", "stateful property-based testing (Hypothesis) against a list model")
prop("C13", "Combined, device-sharded and tokenized loaders deliver the same data",
 "For every list of loaders, concatenating them yields all batches of the first, then all batches of the next; sharding batches over devices yields the same batches, in order, exactly once per pass, split evenly over the devices, and refuses batches that cannot be split. Data loaders made from tokenized text yield each sentence (or multiple-choice question, or full chunk of text) once per pass with its own tokens, mask, padding and label, in order or in a fixed permutation, incomplete batches being dropped only when asked for, and report the sizes and shapes they yield. Masked language modelling selects non-special tokens with the stated probability, replaces 80% by the mask and 10% at random, and labels exactly the selected ones.",
 ["inputs", "schedules"], "all data sets, buffer sizes, device counts, batch sizes",
 "Tests iterate one loader on one device.",
 [F+"data/loader/base.py", F+"data/loader/utils.py", F+"utils/device.py"],
 [("prefetch generator thread", "data/loader/utils.py PrefetchedGenerator"), ("device prefetch", "DeviceDimensionAugmentedLoader")],
 "simulated multi-device CPU in worker processes", "stateful property-based testing (Hypothesis) against a list model")
prop("C14", "Parameter-tree utilities address exactly the leaves they name",
 "For every nested parameter tree, getting, setting, pairing, unpairing, updating and finding by path or key touch exactly the addressed entries and nothing else, writing back what was read (or unpairing what was paired) gives an equal tree, missing paths are errors unless they may be created, and the trees given are never mutated. Freezing functions label each leaf once, the trainable (frozen) paths are exactly those labelled so, unknown labels are errors, with no freezing function everything is trainable, and a frozen optimiser leaves frozen entries bit-for-bit and updates the others as the optimiser would.",
 ["inputs"], "all nested trees, paths, labels",
 "Tests use one two-level tree.",
 [F+"utils/nested_dicts.py", F+"utils/freeze.py"],
 [("nested access", "utils/nested_dicts.py"), ("labels", "utils/freeze.py")],
 "recursive model on plain dictionaries")
prop("C15", "States survive encoding, checkpointing and repositories unchanged",
 "For every state and every sequence of put, pull, get, update, replace and extract operations on a state repository, in memory or backed by a checkpoint directory, what comes back equals what was last stored for that slot, other slots and fields are untouched, and an in-memory and an on-disk repository given the same operations agree (a pulled checkpoint is consumed on disk). Encodings of path lists and class names into arrays decode to what was encoded.",
 ["histories", "inputs"], "all states, sequences of repository operations, slots",
 "Tests store one state and check equality of a few fields.",
 [F+"training/train_state_repository.py", F+"prob_model/posterior/posterior_state_repository.py", F+"prob_model/posterior/posterior_multi_state_repository.py", F+"prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py", F+"training/mixin.py", F+"utils/strings.py"],
 [("repository", "TrainStateRepository"), ("multi repository", "PosteriorMultiStateRepository"), ("encoding", "utils/strings.py")],
 "stateful, in-memory model of the store; real checkpoints in a scratch directory", "stateful property-based testing (Hypothesis) against a reference model")
prop("C16", "Training changes only what it may; run options do not change the result",
 "For every model, freezing choice and training configuration, frozen parameters come out bit-for-bit as they went in, the trained ones follow the optimiser applied to the batch gradients of the stated objective, disabling just-in-time compilation does not change the result, the same seed gives the same result, gradient accumulation over k batches equals one step on their mean gradient, and the reported loss history is the one of the visited parameters. Early stopping stops exactly when the monitored validation metric has not improved by more than the minimum delta for the stated patience, and not before.",
 ["configurations", "histories"], "all freezing functions, optimisers, batch sizes, accumulation counts, epochs, monitors",
 "Tests train tiny models and check that nothing crashes.",
 [F+"training/trainer.py", F+"prob_model/posterior/map/map_trainer.py", F+"utils/freeze.py", F+"training/mixin.py"],
 [("training step", "TrainerABC.training_step"), ("freezing", "get_trainable_paths / optax.multi_transform"), ("early stopping", "WithEarlyStoppingMixin")],
 "reference training loop in NumPy/optax on linear models")
prop("C17", "Posteriors restore and sample consistently",
 "For every posterior approximation, the state obtained after saving and loading samples the same parameters from the same key as before saving, sampled parameters have the fitted tree structure with frozen entries equal to the fitted ones, sampling is a deterministic function of the key, and ensemble members or chain samples are returned as fitted (each with its own mutable variables).",
 ["inputs", "histories"], "all approximations, keys, freezing choices, ensemble sizes",
 "Tests save and load one model per method and check types.",
 [F+"prob_model/posterior/base.py", F+"prob_model/posterior/map/map_posterior.py", F+"prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py", F+"prob_model/posterior/laplace/laplace_posterior.py", F+"prob_model/posterior/swag/swag_posterior.py", F+"prob_model/posterior/normalizing_flow/advi/advi_posterior.py", F+"prob_model/posterior/sgmcmc/sgmcmc_posterior.py"],
 [("save/load", "Posterior.save_state, load_state"), ("sampling", "Posterior.sample")],
 "small linear models, real checkpoints in a scratch directory")
prop("C18", "Gaussian posterior approximations have the moments they are defined by",
 "For every model and data set, the diagonal Laplace approximation has as variances the inverse of the diagonal Gauss-Newton precision of the log-joint and is centred at the fitted parameters, the SWAG approximation has the mean and variance over all the iterates visited at its interval and the last of their deviations from the running mean, and the variational approximation samples mean plus scale times standard normal with matching log-density.",
 ["inputs"], "all data sets, prior variances, iterates, ranks",
 "Tests check that the methods run.",
 [F+"prob_model/posterior/laplace/laplace_posterior.py", F+"prob_model/posterior/swag/swag_trainer.py", F+"prob_model/posterior/swag/swag_posterior.py", F+"prob_model/posterior/normalizing_flow/advi/advi_architecture.py"],
 [("GGN diagonal", "LaplacePosterior._gnn_approx"), ("SWAG moments", "SWAGTrainer"), ("ADVI map", "ADVIArchitecture")],
 "closed forms for linear models")
prop("C19", "Stochastic-gradient samplers follow their schedules, updates and thinning",
 "For every configuration, step-size schedules equal their formulas (constant, cosine, cyclical restarts at cycle ends, polynomial), preconditioners multiply gradients and noise as specified, one integrator step equals the documented Langevin or Hamiltonian update with zero noise where no noise is due, samples are stored only after burn-in and at the thinning interval until the requested number is reached, the callbacks of the user run as well, and chain diagnostics (effective sample size, kernel stein discrepancy) are permutation-equivariant and equal their definitions.",
 ["configurations", "histories"], "all schedules, steps, preconditioners, gradients, burn-in and thinning settings, chains",
 "Tests check a handful of steps and finiteness.",
 [F+"prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py", F+"prob_model/posterior/sgmcmc/sgmcmc_preconditioner.py", F+"prob_model/posterior/sgmcmc/sghmc/sghmc_integrator.py", F+"prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_integrator.py", F+"prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py", F+"prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py"],
 [("schedules", "sgmcmc_step_schedule.py"), ("integrators", "sghmc_integrator.py, cyclical_sgld_integrator.py"), ("diagnostics", "sgmcmc_diagnostic.py")],
 "reference formulas in NumPy")
prop("C20", "Likelihood and joint computations do not depend on batching or distribution",
 "For every data set and batch size, the likelihood's log-probabilities, means, modes, variances, standard deviations, entropies and samples evaluated over a loader equal the ones on all the data at once, in order, distributed over devices or not; the batched log-joint is the prior plus the batch log-likelihood scaled by the number of data over the batch size, so that batch losses average to the full loss, and the negative log-joint is its negative divided by nothing else.",
 ["inputs", "configurations"], "all data sets, batch sizes, device settings, parameters",
 "Tests check shapes.",
 [F+"likelihood/base.py", F+"likelihood/classification.py", F+"likelihood/regression.py", F+"prob_model/joint/base.py"],
 [("batch concatenation and device unsharding", "Likelihood._unshard_array, Likelihood.log_prob"), ("log-joint", "Joint._batched_log_joint_prob")],
 "linear models; simulated devices")
prop("C21", "Posterior predictive statistics equal their Monte-Carlo definitions",
 "For every set of posterior samples, the predictive log-probability is the log of the average likelihood over samples, the mean the average of means, the aleatoric variance (entropy) the average of variances (entropies), the epistemic part the remaining variance (mutual information), the total their sum, and the standard deviation the square root; results do not depend on batching, and ensemble methods return the individual member outputs unaggregated.",
 ["inputs"], "all data sets, posteriors, numbers of samples, keys, batch sizes",
 "Tests check shapes.",
 [F+"prob_model/predictive/base.py", F+"prob_model/predictive/classification.py", F+"prob_model/predictive/regression.py"],
 [("aggregation", "Predictive._batched_log_prob and friends")],
 "reference from the individual posterior samples in NumPy")
prop("C22", "Temperature scaling and output calibration rescale as stated",
 "For every set of outputs and targets, temperature scaling divides logits (or probabilities) by one positive temperature chosen to minimise the stated loss on the calibration data over its search grid, so class order is preserved and calibration data are never fitted worse than without scaling; output calibrators applied to outputs act as their formula and calibrated models' predictions are those of the calibrated outputs.",
 ["inputs"], "all outputs, targets, temperatures",
 "Tests use one random data set and check shapes.",
 [F+"calibration/binary_classification/temp_scaling/base.py", F+"calibration/classification/temp_scaling/base.py", F+"output_calibrator/classification.py", F+"output_calib_model/predictive/base.py"],
 [("temperature search", "calibration/*/temp_scaling"), ("output calibrators", "output_calibrator/")],
 "reference objective in NumPy")
prop("C23", "Kernel regression, Gaussian densities and priors equal their formulas",
 "For every training set, query and bandwidth, the kernel regressor returns the kernel-weighted average of training targets (hence within their range, equivariant to shifts and scalings, and independent of data order and batching), a Gaussian distribution's log-density and samples match its mean and variance, and Gaussian priors give the sum of the parameters' Gaussian log-densities with the stated precision for any parameter tree.",
 ["inputs"], "all points, targets, queries, bandwidths, parameter trees, variances",
 "Tests check a couple of values.",
 [F+"kernel_regression/nadaraya_watson.py", F+"distribution/gaussian.py", F+"prob_model/prior/gaussian.py"],
 [("kernel weights", "NadarayaWatsonKernelRegressor.predict"), ("prior", "IsotropicGaussianPrior, DiagonalGaussianPrior")],
 "reference in NumPy")
prop("C24", "Probit scaling and value-and-Jacobian agree with automatic differentiation",
 "For every function and point, values and Jacobian diagonals / products computed together equal the ones from full automatic differentiation in either direction, and probit scaling divides logits by sqrt(1 + pi/8 times the variance propagated from the parameters through the model's Jacobian) touching only the selected parameters and outputs.",
 ["inputs"], "all functions, parameters, variances, batch sizes, freezing choices",
 "Tests use one fixed case.",
 [F+"utils/grad.py", F+"utils/probit.py", F+"model_editor/probit.py"],
 [("jacobian", "utils/grad.py"), ("scaling", "utils/probit.py")],
 "reference by jax.jacobian on small functions")
prop("C25", "Spectral normalisation and random-feature GPs meet their definitions",
 "For every weight and input, spectrally normalised layers have spectral norm at most the stated bound once power iteration has converged and leave weights already within the bound unchanged; random-feature Gaussian process layers return features of the stated size with outputs as their formula, covariance estimates symmetric positive definite and equal to the inverse of the accumulated precision, shrinking as data accumulate and reset when asked.",
 ["inputs", "histories"], "all weights, inputs, batch histories, ridge and momentum settings",
 "Tests check a single random case.",
 [F+"model/utils/spectral_norm.py", F+"model/utils/random_features.py", F+"prob_model/posterior/sngp/sngp_callback.py"],
 [("power iteration", "spectral_norm.py"), ("precision accumulation", "random_features.py")],
 "reference linear algebra in NumPy")
prop("C26", "Out-of-distribution scores equal their fitted-density definitions",
 "For every labelled embedding set and test point, the Mahalanobis score is the smallest squared distance to the class means under the shared covariance, and the density score is the class-weighted Gaussian mixture log-density of the fitted moments, larger scores meaning further out; scores do not depend on data order or batching, and thresholds or fitted probabilities use them monotonically.",
 ["inputs"], "all embeddings, labels, test points, batch sizes",
 "Tests check shapes on one random data set.",
 [F+"ood_detection/mahalanobis.py", F+"ood_detection/ddu.py", F+"ood_detection/base.py"],
 [("distance", "MalahanobisOODClassifier"), ("mixture", "DeepDeterministicUncertaintyOODClassifier")],
 "reference in NumPy/SciPy")
prop("C27", "Hallucination scores combine token probabilities and groups as defined",
 "For every text-generation probability history, answer scores are the normalised combination of token log-probabilities the method defines, grouping assigns each item the group memberships the fitted clustering defines with thresholds and compression kept consistent between fitting and use, and calibrated scores come from applying the fitted patches to the same initial scores.",
 ["inputs"], "all logits, token sequences, embeddings, clusterings",
 "Tests use mocked models and check shapes.",
 [F+"hallucination/base.py", F+"hallucination/grouping/clustering/base.py", F+"hallucination/scoring/inv_perplexity.py"],
 [("scoring", "hallucination/scoring"), ("grouping", "GroupingModel")],
 "reference in NumPy with stub models")
prop("C28", "Credible sets, intervals and quantiles have the posterior mass they state",
 "For every predictive distribution and error, the credible set is the smallest set of most probable labels whose mass exceeds one minus the error (all labels if none does), credible intervals contain exactly the stated sample quantiles and are nested in the error, quantiles are those of the predictive samples; conformal sets and intervals requested from a predictive are those of the stand-alone conformal methods on its outputs.",
 ["inputs"], "all probabilities, errors, sample sizes, keys",
 "Tests check shapes.",
 [F+"prob_model/predictive/classification.py", F+"prob_model/predictive/regression.py"],
 [("credible set", "ClassificationPredictive.credible_set"), ("quantiles", "RegressionPredictive.quantile")],
 "models with prescribed outputs; reference sets")
prop("C29", "Networks and optimiser schedules compute what their configuration says",
 "For every configuration and batch, feed-forward networks return outputs of the stated dimension that treat each batch row independently and are deterministic outside training, heads and feature extractors compose to the full model, and learning-rate schedules equal their formulas at every step.",
 ["configurations", "inputs"], "all widths, activations, dropout rates, batches, schedule settings, steps",
 "Tests check one shape per model.",
 [F+"model/mlp.py", F+"model/lenet.py", F+"model/cnn.py", F+"utils/optimizer.py"],
 [("networks", "model/"), ("schedules", "utils/optimizer.py")],
 "NumPy forward pass")
prop("C30", "Calibration models train, predict, save and load consistently",
 "For every calibration model, training with a stated loss and predicting use the same output distribution, calibration parameters alone change in calibration, predictions after loading a saved state equal those before saving, and predictions over loaders equal predictions on the full arrays.",
 ["configurations", "inputs"], "all data sets, losses, configurations, batch sizes",
 "Tests check that the methods run.",
 [F+"calib_model/base.py", F+"calib_model/loss.py", F+"calib_model/predictive/base.py", F+"output_calib_model/base.py", F+"prob_model/base.py"],
 [("calibration", "CalibModel.calibrate, OutputCalibModel.calibrate")],
 "small linear models")
