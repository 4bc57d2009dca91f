"""Writes /verif/properties.jsonl. Kept so the file can be regenerated and reviewed as code."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Target scaling is an exact, invertible affine map",
  "For every training target with at least two distinct values, the target the model works on is an increasing affine image of it whose minimum is -0.5 and whose maximum is 0.5, and mapping it back yields the original values. The noise level and the residuals reported in original units use that same range as their scale. Data built with normalisation switched off is left unscaled.",
  ["inputs"], "all numeric targets with y.max() > y.min()",
  "Tests round-trip one five-element vector; the law is about every vector and about all the places that must share the same offset and scale.",
  ["bartpy/data.py", "bartpy/sigma.py", "bartpy/model.py", "bartpy/sklearnmodel.py"],
  [("normalisation and its inverse", "Target.normalize_y / unnormalize_y"), ("range handed to the noise term", "SklearnModel._construct_model -> Sigma"), ("unnormalised residuals", "Model.unnormalized_residuals")],
  ["Target.values", "Target.unnormalized_y", "Target.normalizing_scale", "Sigma.current_unnormalized_value", "Model.unnormalized_residuals"])

p("C02", "Splits partition rows; training and prediction route rows alike",
  "For every covariate matrix without missing values and every chain of splits, a row whose value is at most the threshold belongs to the left child only and every other row of the node to the right child only. Applying the same chain of splits to new data selects exactly the rows that satisfy every one of its conditions, i.e. training rows and new rows are routed by one and the same rule. A condition whose comparison is neither 'less or equal' nor 'greater' is rejected with a TypeError when applied to training data.",
  ["inputs", "histories"], "all matrices without NaN, all sequences of split conditions",
  "Tests route a handful of rows through at most two conditions on one column; the law covers all values (including ties with the threshold), repeated and mixed columns, and the agreement of two independent implementations.",
  ["bartpy/data.py", "bartpy/splitcondition.py", "bartpy/split.py", "bartpy/node.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py", "bartpy/initializers/sklearntreeinitializer.py"],
  [("training-row mask update", "CovariateMatrix.update_mask"), ("out-of-sample box test", "CombinedCondition.condition / CombinedVariableCondition.add_condition"), ("both kept in step", "Split.__add__"), ("producers of condition pairs", "sample_split_condition, map_sklearn_split_into_bartpy_split_conditions")],
  ["Split.condition()", "Split.condition(X)", "Data.mask"])

p("C03", "Node row counts and target sums always describe the node's own rows",
  "For every node obtained by splitting, the reported row count and target sum equal the number of rows in the node and the sum of the node's current target over exactly those rows, whether they were computed, cached or derived from the parent's figures. After the target is replaced, every node of the tree reports the new target's values and the new sum.",
  ["inputs", "histories"], "all data, all sequences of splits, target updates and reads",
  "The figures are cached and carried between nodes; tests read them once or twice after one update, the law is about every interleaving of reads, splits and updates.",
  ["bartpy/data.py", "bartpy/node.py", "bartpy/tree.py"],
  [("sum cache and its invalidation", "Target.summed_y / update_y"), ("figures carried to the right child", "split_node"), ("propagation to all nodes", "Tree.update_y / TreeNode.update_y")],
  ["data.X.n_obsv", "data.y.summed_y()", "data.y.values"],
  [("y_sum_cache_up_to_date", "whether the cached sum is valid", "bartpy/data.py Target")])

p("C04", "Grow and prune keep every tree well formed",
  "After any grow or prune is applied, the tree's node collection consists of exactly the nodes reachable from its root, each once; the parent of the replaced node points to the replacement on the same side, and all other links are as before. Children created by a split sit one level below their parent, and a leaf created by pruning keeps the level and the rows of the node it replaces. Growing anything but a leaf, or pruning anything but a decision node with two leaf children, is refused with a TypeError.",
  ["histories"], "all trees and all sequences of grow and prune mutations",
  "Tests apply single mutations to one five-node tree and mostly check membership, not the links on both sides nor the untouched part of the tree.",
  ["bartpy/tree.py", "bartpy/mutation.py", "bartpy/node.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py"],
  [("structural update", "tree.mutate"), ("construction guards", "GrowMutation / PruneMutation"), ("depth bookkeeping", "split_node, prune proposers")],
  ["Tree.nodes", "TreeNode.left_child/right_child/depth"])

p("C05", "Predictions sum, per row, the value of its one leaf in every tree",
  "For every tree, the prediction for a row is the current value of the leaf containing that row, for training rows and for new rows alike, and the ensemble predicts the sum over all of its trees. Training predictions remembered from earlier are never returned once the tree's structure has changed or the tree has been given a new target, whatever the order of earlier calls.",
  ["inputs", "histories"], "all trees, leaf values, data, and interleavings of mutate / target update / leaf redraw / predict",
  "Staleness only shows after specific call orders (predict, reject, redraw, predict); no test exercises training-row prediction at all.",
  ["bartpy/tree.py", "bartpy/model.py", "bartpy/node.py"],
  [("per-leaf assignment", "Tree.predict / _out_of_sample_predict"), ("cache invalidation", "Tree.update_y, tree.mutate"), ("ensemble sum", "Model.predict / _out_of_sample_predict")],
  ["Tree.predict", "Model.predict"],
  [("cache_up_to_date", "validity of the remembered training prediction", "bartpy/tree.py Tree")])

p("C06", "Proposed splits are never degenerate and no usable column is missed",
  "A column is available for splitting at a node exactly when the node's own rows contain at least two distinct values of it. Every split that is proposed uses an available column and a threshold taken from the node's own rows and smaller than their maximum, so both children receive at least one row. Leaves without an available column are never grown, and asking for a split there raises the no-splittable-variable error.",
  ["inputs"], "all covariate matrices without NaN, all nodes, all random draws",
  "Tests draw repeatedly from one five-row matrix; where the distinct value sits and ties at the maximum are what matters.",
  ["bartpy/data.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py", "bartpy/node.py", "bartpy/tree.py"],
  [("distinctness test", "is_not_constant / CovariateMatrix.splittable_variables"), ("threshold draw", "CovariateMatrix.random_splittable_value"), ("candidate leaves", "random_splittable_leaf_node, oblivious grow_mutations")],
  ["splittable_variables", "random_splittable_value", "proposed mutations"])

p("C07", "A Gibbs sweep updates every tree, then its leaves, then the noise",
  "Each sweep visits every tree of the model exactly once; at each visit it makes exactly one structural update and afterwards redraws every leaf of the tree as it then stands, each exactly once. The noise level is redrawn exactly once per sweep, after the last tree.",
  ["histories", "configurations"], "all models, numbers of trees, accepted or rejected updates",
  "No test runs a sweep; a stale leaf list or a skipped tree gives plausible output.",
  ["bartpy/samplers/schedule.py", "bartpy/samplers/modelsampler.py", "bartpy/model.py"],
  [("order of steps", "SampleSchedule.steps"), ("execution of steps", "ModelSampler.step"), ("tree visits", "Model.refreshed_trees")],
  ["calls to the three samplers during ModelSampler.step"])

p("C08", "Each tree is fitted to the residual of all the other trees",
  "Whenever a tree is visited in a sweep, the target it is given is the training target minus the current predictions of all other trees, including trees already updated in the same sweep. After the visit the running total includes that tree's new values, so it always equals the ensemble's prediction; before the first sweep each tree's target is an equal share of the training target.",
  ["histories"], "all models and histories of sweeps",
  "The running total is updated incrementally; an off-by-one-tree error only shows as slightly wrong fits.",
  ["bartpy/model.py", "bartpy/samplers/schedule.py"],
  [("running total", "Model.refreshed_trees"), ("initial targets", "Model.initialize_trees"), ("full residual", "Model.residuals")],
  ["target passed to each tree", "Model.residuals"],
  [("_prediction", "running sum of all trees' predictions", "bartpy/model.py Model")])

p("C09", "Leaf values and noise are drawn from their full conditionals",
  "A leaf is redrawn from a normal distribution whose mean and variance combine a zero-mean prior with standard deviation 0.5/(k*sqrt(number of trees)) and the leaf's mean target with variance noise^2/rows, weighted by precision. The noise level is redrawn as the inverse square root of a gamma variate with shape prior-shape + rows/2 and rate prior-rate + half the sum of squared residuals of the whole ensemble. In both cases the drawn value is what is stored and returned.",
  ["inputs"], "all models, leaves, targets and prior settings",
  "No test touches the samplers; a wrong scale still yields finite plausible numbers.",
  ["bartpy/samplers/leafnode.py", "bartpy/samplers/sigma.py", "bartpy/model.py", "bartpy/sigma.py"],
  [("leaf conditional", "LeafNodeSampler.sample/step"), ("noise conditional", "SigmaSampler.sample/step"), ("leaf prior scale", "Model.sigma_m")],
  ["LeafNode.current_value", "Sigma.current_value"])

p("C10", "Proposals follow the Metropolis rule and rejection changes nothing",
  "A proposed change to a tree is accepted exactly when the logarithm of a fresh uniform(0,1) draw is below the proposal's log score, the score being the sum of its selection, data-fit and tree-prior components (summed over the changes when several are proposed together). An accepted proposal is applied exactly once, to the tree it was made for; a rejected one applies nothing and is reported as no change.",
  ["inputs", "histories"], "all scores, draws, models and trees, for both tree samplers",
  "No test runs the accept step, and the wrong side of a comparison or a log left out is invisible to type-level tests.",
  ["bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/oblivioustrees/treemutation.py", "bartpy/samplers/treemutation.py"],
  [("accept test", "UnconstrainedTreeMutationSampler.sample"), ("application", "UnconstrainedTreeMutationSampler.step"), ("score", "TreeMutationLikihoodRatio.log_probability_ratio")],
  ["return value of step", "tree after step"])

p("C11", "A growth and the prune that undoes it have opposite log scores",
  "For every tree, every growable leaf and every split of it, the log score of the growth plus the log score, in the grown tree, of the prune that exactly undoes it is zero, whichever of the new leaves could be split again. This holds for the default and for the oblivious tree sampler.",
  ["inputs", "histories"], "all trees, leaves, splits, data, hyperparameters, grow/prune probabilities",
  "Reversibility relates two different code paths on two different trees; no test evaluates any score.",
  ["bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/samplers/oblivioustrees/likihoodratio.py", "bartpy/tree.py"],
  [("selection, prior and data-fit components of both directions", "UniformTreeMutationLikihoodRatio"), ("selection counts", "n_prunable_decision_nodes, n_splittable_leaf_nodes")],
  ["log_probability_ratio"])

p("C12", "The score of a growth is the BART posterior ratio",
  "The log score of a growth is the log ratio of the normal marginal likelihoods of the two children versus the parent, plus the log ratio of the depth prior (a node at depth d splits with probability alpha*(1+d)^-beta), plus the log ratio of the prune and grow probabilities; the default sampler also adds the log of the number of growable leaves before over prunable nodes after the growth. The noise variance and the leaf-prior variance, not their standard deviations, enter the marginal likelihood.",
  ["inputs"], "all trees, data, noise levels and hyperparameters, for both tree samplers",
  "The formula has a dozen symbols and no test evaluates it.",
  ["bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/samplers/oblivioustrees/likihoodratio.py", "bartpy/model.py"],
  [("marginal likelihood", "log_grow_ratio"), ("depth prior", "log_probability_node_split / log_probability_node_not_split"), ("selection", "log_grow_transition_ratio")],
  ["log_probability_ratio"])

p("C13", "Proposing and scoring a change leaves the model unchanged",
  "Generating a proposal and computing its score never alter the tree, its nodes, their links, levels, values, rows and targets, nor the model's noise level; only applying an accepted proposal does.",
  ["inputs", "histories"], "all trees and proposals of either kind, for both tree samplers",
  "Tests check node membership after one proposal on one tree, not values, links, rows or targets.",
  ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py", "bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/samplers/oblivioustrees/likihoodratio.py", "bartpy/node.py"],
  [("proposals build new nodes", "split_node, proposers"), ("scores only read", "likelihood ratio classes")],
  ["tree and model state before/after propose and log_probability_ratio"])

p("C14", "Retained samples are complete, frozen snapshots",
  "A retained model sample predicts, for any new data, exactly what the model predicted at the moment it was retained, and reports the same trees, levels, leaf values, links, noise level and prior settings. Nothing that later sampling changes is shared with a retained sample or with a retained vector of training predictions.",
  ["histories"], "all models and all later sampling steps",
  "Aliasing only shows when sampling continues after the snapshot and the right attribute is read.",
  ["bartpy/model.py", "bartpy/tree.py", "bartpy/node.py", "bartpy/trace.py", "bartpy/samplers/modelsampler.py"],
  [("snapshot", "deep_copy_model / deep_copy_tree / deep_copy_node"), ("what is stored", "TraceLogger, ModelSampler.samples")],
  ["SklearnModel.model_samples", "in-sample prediction samples"])

p("C15", "User data is never modified",
  "Fitting, predicting, computing residuals, running several data sets, importance and selection procedures never modify the arrays or frames passed in by the caller; internal state that is updated in place never shares memory with them.",
  ["inputs", "histories"], "all arrays/frames passed to the public entry points",
  "Needs aliasing knowledge about every in-place write; tests do not compare inputs afterwards.",
  ["bartpy/sklearnmodel.py", "bartpy/data.py", "bartpy/model.py", "bartpy/runner.py", "bartpy/features/featureimportance.py", "bartpy/diagnostics/features.py", "bartpy/extensions/ols.py", "bartpy/extensions/baseestimator.py"],
  [("copies at the boundary", "SklearnModel._convert_covariates_to_data, Model.__init__"), ("copies before permuting", "null_rmse_distribution")],
  ["caller's X and y after any public call"])

p("C16", "Every user setting reaches the sampling run",
  "Each setting of the estimator (numbers of trees, chains, samples and burn-in steps, thinning, the two noise-prior and two tree-prior parameters, the storage switches, tree sampler, initializer, parallelism) is used unchanged by the next fit, also when it was changed with set_params after construction. The grow and prune probabilities given to a tree sampler are the ones used both for choosing moves and for scoring them.",
  ["configurations"], "all values of all settings, set at construction or through set_params",
  "Tests never fit the estimator; a dropped or swapped setting silently falls back to a default.",
  ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/oblivioustrees/treemutation.py", "bartpy/extensions/ols.py", "bartpy/extensions/baseestimator.py"],
  [("parameter storage", "SklearnModel.__init__"), ("hand-over", "SklearnModel._construct_model, run_chain, fit"), ("move probabilities", "get_tree_sampler")],
  ["Model attributes and arguments of the sampling run"])

p("C17", "Only post-burn-in states are recorded and recorded series line up",
  "A chain performs exactly the requested number of burn-in sweeps without recording anything, then exactly the requested number of sampling sweeps; what is recorded at a step is the state after that step's sweep. Models, training predictions and acceptance rates are recorded at the same steps whenever they are recorded at all, and combining chains keeps every recorded entry of every chain, in chain order.",
  ["configurations", "histories"], "all n_burn, n_samples, thin, n_chains and storage switches",
  "No test runs a chain; a record taken before the sweep or a dropped chain goes unnoticed.",
  ["bartpy/samplers/modelsampler.py", "bartpy/sklearnmodel.py"],
  [("burn-in and recording loops", "ModelSampler.samples"), ("combination", "SklearnModel._combine_chains"), ("distribution to attributes", "SklearnModel.fit")],
  ["SklearnModel.model_samples", "acceptance_trace", "prediction_samples"])

p("C18", "Runs over many data sets pair each data set with its own samples",
  "Running a model over a list of data sets returns one model per data set, in order; each returned model holds exactly the samples, training predictions and acceptance rates of the chains run on that data set, and its scale is that data set's. The model passed in is not altered and keeps whatever samples it had.",
  ["inputs", "configurations"], "all lists of data sets and numbers of chains",
  "No test runs more than one data set.",
  ["bartpy/runner.py", "bartpy/sklearnmodel.py"],
  [("launch and grouping", "run_models / convert_chains_models"), ("rehydration", "SklearnModel.from_extract")],
  ["return value of run_models"])

p("C19", "Permutation importance is scored strictly out of sample",
  "Every error in the null distribution comes from a model trained on the training rows of a fold in which only the chosen column was permuted, and evaluated on the held-out rows of that same fold with the same permutation; there is one entry per fold and permutation. The baseline errors come from unpermuted data, each from a fresh model trained on the training rows and evaluated on the held-out rows of the same fold.",
  ["inputs", "configurations"], "all data sets, fold counts, permutation counts and columns",
  "No test covers the procedure; using training rows for scoring still runs when folds have equal size.",
  ["bartpy/features/featureimportance.py"],
  [("null distribution", "null_rmse_distribution"), ("baseline", "original_model_rmse")],
  ["lists returned by feature_importance"])

p("C20", "Feature selection decides every column from its true share of splits",
  "A column's split proportion is the number of splits on it divided by the number of all splits in all retained samples, so the proportions of all columns sum to one whenever there is any split. Selection yields exactly one decision per column of the training matrix, in column order: keep if and only if its proportion is above its threshold, where null-distribution thresholds are the requested quantile (given between 0 and 1) of that column's null proportions, or, for the global method, of the per-run maxima.",
  ["inputs", "configurations"], "all fitted models, matrices (including columns that are never split on) and quantiles",
  "No test covers selection; unused columns and the quantile scale are exactly what sampling inputs misses.",
  ["bartpy/diagnostics/features.py", "bartpy/features/featureselection.py"],
  [("proportions", "feature_split_proportions"), ("thresholds", "local_thresholds / global_thresholds"), ("decision", "is_kept, kept_features, _get_support_mask")],
  ["feature_split_proportions", "get_support"])

p("C21", "Residual extensions add BART to the base model they were fitted on",
  "The extensions fit the base model to the target, fit BART to what the base model leaves unexplained on the same rows, and predict the sum of both models' predictions for the same covariates; without covariates they predict for the training covariates. The estimator object supplied by the caller is never itself fitted.",
  ["inputs", "configurations"], "all base estimators, data and prediction requests",
  "No test touches the extensions.",
  ["bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py"],
  [("fit on residuals", "ResidualBART.fit / OLS.fit"), ("sum of predictions", "ResidualBART.predict / OLS.predict")],
  ["predict"])

p("C22", "Random numbers come from numpy's generator and each is used once",
  "All randomness of the package is drawn from numpy's global generator, so seeding it fixes a single-process run. Prefetched draws are independent draws of the advertised distribution, each handed out at most once, replenished only when used up, and never carried along when a model or sampler is copied or sent to another process, so chains do not share draws.",
  ["histories", "configurations"], "all sequences of draws, cache sizes, copies and parallel runs",
  "Reuse of a draw or a second source of entropy is invisible in any single result.",
  ["bartpy/samplers/scalar.py", "bartpy/data.py", "bartpy/samplers", "bartpy/features/featureimportance.py", "bartpy/diagnostics/features.py"],
  [("prefetching samplers", "NormalScalarSampler / UniformScalarSampler / DiscreteSampler"), ("direct draws", "np.random calls")],
  ["np.random state", "sampler.sample()"])

p("C23", "Every internal reference resolves",
  "No public function or method of the package can fail because it names an attribute, method, function, module member or parameter of the package's own objects that does not exist, because it calls an imported library function by a name or with arguments it does not take, or because it does nothing but call itself.",
  ["programs", "inputs"], "all functions of the package and all calls within it",
  "Whole modules (plotting, diagnostics, initializer, importance, extensions) are never executed by the tests.",
  ["bartpy"],
  [("name, attribute and call resolution", "all modules of bartpy")],
  ["AttributeError / NameError / TypeError / RecursionError from any public call"])

p("C24", "Impossible requests fail loudly with the documented error",
  "Fitting on a covariate matrix without rows or without columns raises ValueError, and asking for training predictions that were not stored raises ValueError instead of returning something else. Choosing a leaf to grow, a node to prune or a column to split when there is none raises the package's own error for it, and mutation kinds, split operators, snapshot node types, log channels and selection methods the package does not know are rejected rather than ignored, as are changes that prune anything but a decision node with two leaves or grow anything but a leaf. Valid requests are not rejected.",
  ["inputs", "configurations"], "all invalid inputs of the listed kinds, and no valid input",
  "Tests cover two of these on single inputs; the law includes that valid inputs are not rejected.",
  ["bartpy/sklearnmodel.py", "bartpy/data.py", "bartpy/node.py", "bartpy/trace.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/samplers/oblivioustrees/likihoodratio.py"],
  [("guards", "SklearnModel._construct_model, SklearnModel.predict, random_splittable_leaf_node, random_prunable_decision_node, CovariateMatrix.random_splittable_variable, log_*_ratio, deep_copy_node, TraceLogger.__getitem__")],
  ["raised exceptions"])

p("C25", "Reported predictions are posterior means in original units, errors follow",
  "The prediction for new covariates is the average, over all retained samples of all chains, of the ensemble prediction, mapped to the original units of the data the model was fitted on; for training rows it is the same average of the stored training predictions. Residuals are observed minus predicted values, squared errors their squares and the total error the square root of the sum of squares; fitting and predicting in one call equals fitting and then predicting the training rows.",
  ["inputs", "configurations"], "all fitted models, data and storage settings",
  "No test calls fit or predict on the estimator.",
  ["bartpy/sklearnmodel.py"],
  [("averaging and rescaling", "SklearnModel.predict / _out_of_sample_predict"), ("errors", "residuals / l2_error / rmse"), ("combination", "fit_predict")],
  ["SklearnModel.predict", "residuals", "l2_error", "rmse", "fit_predict"])

p("C26", "Chains converge to the posterior and intervals are calibrated",
  "With enough samples the retained draws represent the posterior distribution, and credible intervals computed from them have their nominal coverage.",
  ["inputs", "histories"], "all data sets and chain lengths",
  "A limit statement about distributions of random histories.",
  ["bartpy/samplers"], [("whole sampler", "bartpy/samplers")], ["model_samples"])
p("C27", "Sampling always terminates",
  "Every sweep finishes after finitely many steps on every data set, including data without any usable split.",
  ["inputs", "histories"], "all data sets and random draws",
  "Termination of rejection loops and retry recursion depends on the random draws.",
  ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py", "bartpy/data.py"],
  [("retry of impossible moves", "UniformMutationProposer.propose"), ("rejection loop", "CovariateMatrix.random_splittable_value")], ["fit returns"])
p("C28", "All computed quantities stay finite",
  "For finite, non-constant inputs no score, leaf value, noise level or prediction overflows or becomes NaN.",
  ["inputs"], "all finite inputs of any magnitude",
  "Floating-point range of data-dependent quantities.",
  ["bartpy"], [("formulas", "bartpy/samplers")], ["predictions, sigma"])
p("C29", "The share of sampling steps retained equals the thinning setting",
  "For every thinning fraction in (0, 1] and every number of requested samples, the number of samples a chain has retained after any number of sampling steps differs from that fraction of these steps by less than one; with fraction one every step is retained. Every chain of a fit retains the same number.",
  ["configurations"], "all thin in (0, 1] and n_samples",
  "No test thins a chain; whether a floating-point test selects the right steps depends on the fraction.",
  ["bartpy/samplers/modelsampler.py"], [("retention test", "ModelSampler.samples")], ["number of model_samples"])

p("C30", "The gradient boosting initializer copies exactly the tree it fits",
  "SklearnTreeInitializer fits, for each tree, a gradient boosting regressor with the given depth, minimum node size and loss (sklearn's defaults otherwise) to that tree's covariates and its current target, and gives the tree the structure, split columns, thresholds and leaf values of the regressor's first tree, so both predict the same for training rows and new rows; if that tree has no split the tree is left as it is. In a model the trees are initialized one after the other, each on what the trees before it leave unexplained, and the ensemble's predictions and residuals are those of the initialized trees.",
  ["inputs", "configurations"], "all data, tree shapes and settings",
  "Tests map no fitted tree, and check neither leaf values nor later predictions.",
  ["bartpy/initializers/sklearntreeinitializer.py", "bartpy/initializers/initializer.py", "bartpy/model.py"],
  [("fit", "SklearnTreeInitializer.initialize_tree"), ("copy", "map_sklearn_tree_into_bartpy"), ("backfitting", "Model.__init__ / refreshed_trees")],
  ["tree nodes, leaf values and predictions after initialization"])

p("C31", "Proposals are drawn from the distribution their score assumes",
  "The default sampler proposes a growth or a prune with the configured probabilities whenever both are possible, and the possible one otherwise. Every growable leaf is equally likely to be grown and every prunable node to be pruned; the split column is equally likely to be any usable column of the leaf, and the threshold is drawn from the leaf's own values below their maximum in proportion to how many rows carry each value. The oblivious sampler draws the kind in the same way, proposes the change for all growable leaves or all prunable nodes at once, and draws each leaf's column and threshold in the same way.",
  ["inputs", "random draws"], "all trees, data and random draws",
  "Tests stub the random draws or check one outcome; the score (C11, C12) is only right for this distribution.",
  ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/oblivioustrees/proposer.py", "bartpy/data.py", "bartpy/samplers/scalar.py"],
  [("kind", "UniformMutationProposer.propose / DiscreteSampler"), ("node", "random_splittable_leaf_node / random_prunable_decision_node"), ("rule", "CovariateMatrix.random_splittable_variable / random_splittable_value")],
  ["distribution of proposed mutations"])

p("C32", "Data without a usable split are fitted by constant trees",
  "If all covariates are constant no tree can be grown: a tree update then leaves the tree, its leaf value and the noise level as they are instead of retrying, sampling goes on and redraws leaf values and noise in every sweep, the fit completes, and predictions are the same for every row.",
  ["inputs"], "all data with constant covariates and all random draws",
  "No test fits such data; the failure (endless retry) only shows when no change is possible.",
  ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/oblivioustrees/proposer.py", "bartpy/samplers/oblivioustrees/treemutation.py"],
  [("impossible change", "UniformMutationProposer.propose"), ("update", "UnconstrainedTreeMutationSampler.sample / step")],
  ["fit returns; predictions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
