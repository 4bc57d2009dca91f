"""C23 every internal reference resolves"""
import numpy as np
from ..harness import H, vec, mat, sym, Vacuous, Undecided, T
from ..program import Program
from .. import harness
from ..refs import Refs
from .common import SHAPES, summarise_distinctness
from .estim import EST

EXPLAIN = """Two analyses.  (1) On the syntax tree of every module: free names of every scope, imports inside the package, attributes read
from self (class hierarchy and every attribute assigned anywhere), arguments of every call whose callee can be resolved (package
functions, methods, constructors and pure-Python library functions, whose source is parsed), and functions all of whose paths call
themselves.  (2) Type and attribute flow by abstract interpretation: every public function, method and property of the package is
applied to symbolic objects of the package (data, nodes, trees, mutations, models, samplers, fitted estimators with all storage
settings, both extensions, selectors); a path ending in AttributeError, NameError, ImportError, RecursionError or a TypeError for a
wrong call is reported at the construct that raises it."""

CLIENT = EST + """
from bartpy.data import *
from bartpy.splitcondition import CombinedCondition, CombinedVariableCondition

X0, y0 = None, None

def low(X, y, c):
    data = Data(X, y, normalize=True)
    tree = Tree([LeafNode(Split(data))])
    root = grow(tree, tree.nodes[0], 0, c[0])
    other = Tree([LeafNode(Split(Data(X, y, normalize=True)))])
    sigma = Sigma(1., 1., data.y.normalizing_scale)
    model = Model(data, sigma, trees=[tree, other], alpha=0.9, beta=2.)
    return data, tree, root, other, sigma, model

def kinds(tree, root, c):
    leaf = root.left_child
    g = GrowMutation(leaf, split_node(leaf, pair(1, c[1])))
    p = PruneMutation(root, LeafNode(root.split, depth=root.depth))
    return leaf, g, p

def fitted(X, y, c, kind, est, plan, store=True):
    kw = dict(tree_sampler=Scripted(plan, c), n_trees=2, n_chains=2, n_samples=2, n_burn=1, thin=1., n_jobs=1, initializer=None, store_in_sample_predictions=store,
              store_acceptance_trace=True)
    if kind == "residual":
        from bartpy.extensions.baseestimator import ResidualBART
        m = ResidualBART(base_estimator=est(), **kw)
    elif kind == "ols":
        from bartpy.extensions.ols import OLS
        m = OLS(stat_model=StatModel, **kw)
    else:
        m = SklearnModel(**kw)
    m.fit(X, y)
    return m
"""

# expressions over: X, y, Xn (new rows), c (thresholds), ax (some axes), est
LOW = """
data.y; data.X; data.mask; data.update_y(y); data + SplitCondition(0, c[0], le); data + SplitCondition(1, c[0], gt)
data.X.mask; data.X.values; data.X.get_column(0); data.X.splittable_variables(); data.X.n_splittable_variables; data.X.is_at_least_one_splittable_variable()
data.X.random_splittable_variable(); data.X.is_column_unique(0); data.X.max_value_of_column(1); data.X.random_splittable_value(0); data.X.proportion_of_value_in_variable(0, c[0])
data.X.update_mask(SplitCondition(0, c[0], gt)); data.X.variables; data.X.n_obsv
data.y.normalize_y(y); data.y.unnormalize_y(y); data.y.unnormalized_y; data.y.normalizing_scale; data.y.summed_y(); data.y.update_y(y); data.y.values
is_not_constant(y); ensure_numpy_array(X); ensure_float_array(X); format_covariate_matrix(X); make_bartpy_data(X, y); make_bartpy_data(X, y, normalize=False)
root.data; root.left_child; root.right_child; root.split; root.update_y(y); root.depth; root.is_prunable(); root.most_recent_split_condition()
leaf.data; leaf.left_child; leaf.right_child; leaf.split; leaf.update_y(y); leaf.set_value(1.); leaf.current_value; leaf.predict(); leaf.is_splittable()
leaf.split.data; leaf.split.combined_condition(); leaf.split.condition(); leaf.split.condition(X); leaf.split.out_of_sample_condition(X); leaf.split.out_of_sample_conditioner()
leaf.split.most_recent_split_condition(); root.split.most_recent_split_condition(); leaf.split + SplitCondition(0, c[0], le)
str(SplitCondition(0, c[0], le)); SplitCondition(0, c[0], le) == SplitCondition(0, c[1], le); CombinedCondition([0, 1], [SplitCondition(0, c[0], le)]).condition(X)
CombinedCondition([0, 1], [SplitCondition(0, c[0], le)]) + SplitCondition(1, c[1], gt); CombinedCondition([0, 1], []).most_recent_split_condition(); CombinedCondition([0, 1], []).condition(X)
CombinedVariableCondition(0, 0., 1.).add_condition(SplitCondition(0, c[0], le)); CombinedVariableCondition(0, 0., 1.).add_condition(SplitCondition(1, c[0], gt))
str(g); str(p); g.kind; p.kind; g.existing_node; p.updated_node; mutate(tree, g); mutate(tree, p)
tree.nodes; tree.leaf_nodes; tree.splittable_leaf_nodes; tree.decision_nodes; tree.prunable_decision_nodes; tree.update_y(y); tree.predict(); tree.predict(X); tree.remove_node(leaf); tree.add_node(leaf)
sigma.set_value(2.); sigma.current_value(); sigma.current_unnormalized_value()
model.residuals(); model.unnormalized_residuals(); model.predict(); model.predict(X); model.trees; [t for t in model.refreshed_trees()]; model.sigma_m; model.sigma; model.initialize_trees()
Model(data, sigma, n_trees=2, initializer=None).predict()
"""
MODULES = {
    "bartpy.tree": "deep_copy_tree(tree); deep_copy_tree(tree).predict(X); mutate(deep_copy_tree(other), GrowMutation(other.nodes[0], split_node(other.nodes[0], pair(0, c[0]))))",
    "bartpy.node": "deep_copy_node(leaf); deep_copy_node(root); split_node(leaf, pair(0, c[1])); TreeNode(leaf.split, 1).data; TreeNode(leaf.split, 1).update_y(y)",
    "bartpy.model": "deep_copy_model(model); deep_copy_model(model).predict(X); deep_copy_model(model).sigma_m; deep_copy_model(model).sigma.current_value()",
    "bartpy.trace": "TraceLogger()['Tree'](g); TraceLogger()['Tree'](None); TraceLogger()['Model'](model); TraceLogger()['In Sample Prediction'](y); TraceLogger()['Node'](1.); TraceLogger()['Sigma'](1.)",
    "bartpy.mutation": "TreeMutation('grow', leaf, root).kind; str(TreeMutation('grow', leaf, root))",
    "bartpy.initializers.initializer": "Initializer().initialize_tree(other); Initializer().initialize_trees(model.refreshed_trees())",
    "bartpy.initializers.sklearntreeinitializer": "SklearnTreeInitializer(); SklearnTreeInitializer(2, 3, 'absolute_error').max_depth",
    "bartpy.samplers.leafnode": "LeafNodeSampler().step(model, leaf); LeafNodeSampler().sample(model, leaf)",
    "bartpy.samplers.sigma": "SigmaSampler().step(model, sigma); SigmaSampler().sample(model, sigma)",
    "bartpy.samplers.scalar": "NormalScalarSampler(10).sample(); UniformScalarSampler(10).sample(); DiscreteSampler([1, 2], [0.5, 0.5], 10).sample(); DiscreteSampler([1, 2]).sample(); "
                              "NormalScalarSampler().sample(); UniformScalarSampler().sample(); NormalScalarSampler(3).refresh_cache(); UniformScalarSampler(3).refresh_cache(); DiscreteSampler([1, 2]).refresh_cache(); "
                              "deepcopy(NormalScalarSampler(3)).sample(); deepcopy(UniformScalarSampler(3)).sample(); deepcopy(DiscreteSampler([1, 2])).sample()",
    "bartpy.samplers.schedule": "[k for k, s in SampleSchedule(Scripted(['none'], c), LeafS(), SigS()).steps(model)]; [s() for k, s in SampleSchedule(Scripted(['grow', 'prune'], c), LeafS(), SigS()).steps(model)]",
    "bartpy.samplers.modelsampler": "ModelSampler(sched(c)).samples(model, 2, 1, 1.); ModelSampler(sched(c)).samples(model, 2, 1, 0.5, False, False); ModelSampler(sched(c)).step(model, TraceLogger())",
    "bartpy.samplers.treemutation": "TreeMutationSampler; TreeMutationProposer; TreeMutationLikihoodRatio",
}
for _k in ("unconstrainedtree", "oblivioustrees"):
    _p = "bartpy.samplers.%s." % _k
    _a = "UniformMutationProposer([0.5, 0.5])" if _k == "unconstrainedtree" else "UniformMutationProposer(0.5, 0.5)"
    MODULES[_p + "treemutation"] = "get_tree_sampler(0.5, 0.5).sample(model, other); get_tree_sampler(0.3, 0.7).step(model, other)"
    MODULES[_p + "proposer"] = "%s.propose(other); sample_split_condition(leaf); sample_split_node(leaf)" % _a + (
        "; uniformly_sample_grow_mutation(tree); uniformly_sample_prune_mutation(tree); random_splittable_leaf_node(tree); random_prunable_decision_node(tree); UniformMutationProposer().propose(other)"
        if _k == "unconstrainedtree" else "; grow_mutations(tree); prune_mutations(tree); UniformMutationProposer().propose(other)")
    MODULES[_p + "likihoodratio"] = ("LR().log_probability_ratio(model, tree, g); LR().log_probability_ratio(model, tree, p); LR([0.3, 0.7]).log_transition_ratio(tree, g); LR([0.3, 0.7]).log_transition_ratio(tree, p); "
                                     "LR().log_tree_ratio(model, tree, g); LR().log_tree_ratio(model, tree, p); LR().log_likihood_ratio(model, tree, g); LR().log_likihood_ratio(model, tree, p); "
                                     "LR().log_grow_transition_ratio(tree, g); LR().log_prune_transition_ratio(tree, p); LR.log_likihood_ratio_grow(model, g); LR.log_likihood_ratio_prune(model, p); "
                                     "LR.log_tree_ratio_grow(model, tree, g); LR.log_tree_ratio_prune(model, p); log_grow_ratio(root, root.left_child, root.right_child, sigma, model.sigma_m); "
                                     "log_probability_split_within_tree(tree, g); log_probability_split_within_node(g); log_probability_node_split(model, leaf); log_probability_node_not_split(model, leaf)")
MODULES["bartpy.samplers.unconstrainedtree.likihoodratio"] += "; n_prunable_decision_nodes(tree); n_splittable_leaf_nodes(tree)"

PRE = {
    "bartpy.samplers.schedule": "from bartpy.samplers.leafnode import LeafNodeSampler as LeafS\nfrom bartpy.samplers.sigma import SigmaSampler as SigS\n",
    "bartpy.samplers.modelsampler": "from bartpy.trace import TraceLogger\nfrom bartpy.samplers.schedule import SampleSchedule\nfrom bartpy.samplers.leafnode import LeafNodeSampler\nfrom bartpy.samplers.sigma import SigmaSampler\n"
                                    "def sched(c):\n    return SampleSchedule(Scripted(['grow', 'prune', 'none'], c), LeafNodeSampler(), SigmaSampler())\n",
    "bartpy.samplers.unconstrainedtree.likihoodratio": "LR = UniformTreeMutationLikihoodRatio\n",
    "bartpy.samplers.oblivioustrees.likihoodratio": "LR = UniformTreeMutationLikihoodRatio\n",
}

FIT = """
m.fit(X, y); m.predict(); m.predict(Xn); m.predict(X); m.residuals(); m.residuals(X, y); m.l2_error(); m.l2_error(X, y); m.rmse(X, y); m.fit_predict(X, y)
m.model_samples; m.acceptance_trace; m.prediction_samples; m.from_extract(m.extract, X, y).predict(Xn); m.f_delayed_chains(X, y); m.f_chains(); m.f_chains()[0](m, X, y)
m.set_params(n_trees=3).n_trees; m.get_params(); deepcopy(m).predict(Xn); run_models(m, [X, X], [y, y]); m.set_params(tree_sampler=Scripted(['none'], c)).fit(X, y)
[s.predict(np.asarray(Xn)) for s in m.model_samples]; [[t.predict(np.asarray(Xn)) for t in s.trees] for s in m.model_samples]; [s.sigma.current_unnormalized_value() for s in m.model_samples]
"""
USERS = {
    "bartpy.plotting": "plot_residuals(m); plot_modelled_against_actual(m)",
    "bartpy.diagnostics.diagnostics": "plot_diagnostics(m)",
    "bartpy.diagnostics.residuals": "plot_qq(m); plot_qq(m, ax); plot_homoskedasity_diagnostics(m); plot_homoskedasity_diagnostics(m, ax)",
    "bartpy.diagnostics.sampling": "plot_tree_mutation_acceptance_rate(m); plot_tree_mutation_acceptance_rate(m, ax)",
    "bartpy.diagnostics.sigma": "plot_sigma_convergence(m); plot_sigma_convergence(m, ax)",
    "bartpy.diagnostics.trees": "plot_tree_depth(m); plot_tree_depth(m, ax)",
    "bartpy.diagnostics.features": "feature_split_proportions(m); feature_split_proportions(m, [0, 1]); plot_feature_split_proportions(m); plot_feature_split_proportions(m, ax); "
                                   "null_feature_split_proportions_distribution(m, X, y); null_feature_split_proportions_distribution(m, X, y, 2); "
                                   "plot_null_feature_importance_distributions({0: [0.2, 0.4], 1: [0.8, 0.6]}); plot_null_feature_importance_distributions({0: [0.2, 0.4], 1: [0.8, 0.6]}, ax); "
                                   "local_thresholds({0: [0.2, 0.4], 1: [0.8, 0.6]}, 0.5); global_thresholds({0: [0.2, 0.4], 1: [0.8, 0.6]}, 0.5); "
                                   "kept_features({0: 0.3, 1: 0.7}, {0: 0.4, 1: 0.5}); is_kept({0: 0.3, 1: 0.7}, {0: 0.4, 1: 0.5}); partition_into_passed_and_failed_features({0: 0.3, 1: 0.7}, {0: 0.4, 1: 0.5}); "
                                   "plot_feature_proportions_against_thresholds({0: 0.3, 1: 0.7}, {0: 0.4, 1: 0.5}); plot_feature_proportions_against_thresholds({0: 0.3, 1: 0.7}, {0: 0.4, 1: 0.5}, ax)",
    "bartpy.features.featureimportance": "original_model_rmse(m, X, y, 2); null_rmse_distribution(m, X, y, 1, 2, 2); feature_importance(m, X, y, 0, 2, 1); feature_importance(m, X, y, 1, 2)",
    "bartpy.features.featureselection": "SelectSplitProportionThreshold(m).fit(X, y)._get_support_mask(); SelectSplitProportionThreshold(m, 0.1).fit(X, y).plot(); SelectSplitProportionThreshold(m).fit(X, y).transform(X); "
                                        "SelectNullDistributionThreshold(m, n_permutations=2).fit(X, y)._get_support_mask(); SelectNullDistributionThreshold(m, 0.5, 'global', 2, 3).fit(X, y).plot(); "
                                        "SelectNullDistributionThreshold(m, n_permutations=1).fit(X, y).plot(); SelectNullDistributionThreshold(m, n_permutations=1).fit(X, y).transform(X)",
    "bartpy.runner": "convert_chains_models(m, [X, X], [y, y], m.extract + m.extract); run_models(m, [X], [y])",
    "bartpy.sklearnmodel": "run_chain(m, X, y); delayed_run_chain(); SklearnModel(); SklearnModel(n_trees=3).f_chains(); SklearnModel().model_samples; SklearnModel().prediction_samples; SklearnModel(n_jobs=1).get_params()",
}

BAD = {"AttributeError", "NameError", "UnboundLocalError", "ImportError", "ModuleNotFoundError", "RecursionError"}
RULE = {"AttributeError": "missing-attribute", "NameError": "undefined-name", "UnboundLocalError": "undefined-name", "ImportError": "missing-import",
        "ModuleNotFoundError": "missing-import", "RecursionError": "self-recursion", "TypeError": "call-signature"}


def split(text):
    return [e.strip() for line in text.strip().splitlines() for e in line.split(";") if e.strip()]


def run(rep):
    refs = Refs(Program(harness.ROOT))
    problems = refs.run()
    for rule, site, msg in problems:
        rep.violation(rule, site, msg)
    for k, v in refs.counts.items():
        rep.obligation("%d %s resolved on the syntax tree" % (v, k), "violated" if problems else "discharged")
    h = H()
    for r in h.load_raises:
        names = h.it.exc_classes(r.st, r.exc)
        rep.violation("module-load", r.site, "loading the package fails with %s" % (names if isinstance(names, str) else names.name))
    rep.obligation("loading every module", "violated" if h.load_raises else "discharged")
    c = [sym("c0"), sym("c1")]
    X, y, Xn = mat("X"), vec("y"), mat("Xn", rows="Q")
    EXTEST = T("ext", "stub.Regressor")
    AX = T("ext", "stub.AXES")
    import ast
    import textwrap

    def decide(name, r, need=None):
        wrong = {e.site for e in r.ev_kind("arity", "not-callable", "unpack", "attr-miss")}

        def pred(env, o):
            if o.kind != "raise":
                return None
            if o.exc.startswith("NoSplittable") or "<client>" in str(o.site):
                raise Vacuous()
            k = o.classes[0]
            if k in BAD or (k == "TypeError" and o.site in wrong):
                return "%s fails with %s" % (name, o.exc), o.site
            return None
        rule = "reference"
        n0 = len(rep.violations)
        rep.holds(name, r, pred, rule=rule, n=6, rows=(4, 5, 3), err_ok=True)
        for v in rep.violations[n0:]:
            for k, x in RULE.items():
                if "fails with " + k in v["message"]:
                    v["rule"] = x
                    break

    # expressions on the package's own objects
    def client(h, pre, exprs, setup, args, data):
        for e in exprs:
            text = pre + "\ndef main(%s):\n%s    return %s\n" % (args, textwrap.indent(setup, "    "), e)
            yield e, h.client(text, "main", args=data, budget=25)

    low = "data, tree, root, other, sigma, model = low(X, y, c)\nleaf, g, p = kinds(tree, root, c)\n"
    summarise_distinctness(h)
    for e, r in client(h, CLIENT, split(LOW), low, "X, y, c", [X, y, c]):
        decide(e, r)
    for mod, text in MODULES.items():
        pre = CLIENT + "\nfrom %s import *\n" % mod + PRE.get(mod, "")
        for e, r in client(h, pre, split(text), low, "X, y, c", [X, y, c]):
            decide("%s: %s" % (mod[7:], e), r)
    def after(name, h, pre, exprs, setup, data, budget=25):
        """the set-up is analysed once, every expression from the state it leaves"""
        text = CLIENT + pre + "\ndef main(%s):\n%s    return m\n" % (", ".join(data), textwrap.indent(setup, "    "))
        r0 = h.client(text, "main", args=list(data.values()), budget=60)
        decide(name % "setting up", r0)
        if r0.why or r0.st.dead:
            rep.obligation(name % "expressions", "undecided", why=r0.why or "set-up does not end normally")
            return
        for e in exprs:
            t = CLIENT + pre + "\ndef main():\n    return %s\n" % e
            decide(name % e, h.client(t, "main", st=r0.st, inject=dict(data, m=r0.value), budget=budget))

    quick = rep.tier == "quick"
    for frame in (False, True):
        X, y, Xn = mat("X", frame=frame), vec("y"), mat("Xn", rows="Q", frame=frame)
        f = " (frames)" if frame else ""
        data = lambda kind: dict(X=X, y=y, Xn=Xn, c=c, kind=kind, est=EXTEST, ax=AX)
        for kind in ("plain", "residual", "ols"):
            setup = "m = fitted(X, y, c, kind, est, ['grow', 'none'])\n"
            h = H()
            after(kind + ": %s" + f, h, "", split(FIT), setup, data(kind))
            for mod, text in USERS.items():
                if kind != "plain" and (mod == "bartpy.sklearnmodel" or (quick and "feature" in mod)):
                    continue
                if frame and (kind != "plain" or (quick and "feature" not in mod)):
                    continue
                h = H()
                exprs = [e for e in split(text) if not quick or e not in ("feature_importance(m, X, y, 1, 2)", "null_feature_split_proportions_distribution(m, X, y)")]
                after(mod[7:] + " on " + kind + ": %s" + f, h, "\nfrom %s import *\n" % mod, exprs, setup, data(kind), 25 if quick else 120)
