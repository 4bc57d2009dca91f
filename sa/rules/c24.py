"""C24 impossible requests fail loudly"""
import numpy as np
from ..harness import H, const, vec, mat, sym, same, Vacuous, Undecided, T
from ..terms import TRUE
from .common import SHAPES, summarise_distinctness
from .estim import EST

EXPLAIN = """Which exceptions escape from every request of the listed kinds, computed by exceptional data flow through the call graph
for symbolic data: matrices without rows or columns (arrays and frames, through every entry point that fits), training
predictions that were never stored (before a fit, after a fit, after the setting was changed), trees without growable leaf,
prunable node or usable column (every shape, free splittability per leaf and column), mutation kinds, split operators,
snapshot node types, log channels and selection methods the package does not know.  The same requests on valid symbolic
inputs must not raise."""

CLIENT = EST + """
from bartpy.mutation import TreeMutation
from bartpy.node import TreeNode, deep_copy_node
from bartpy.tree import deep_copy_tree
from bartpy.trace import TraceLogger
from bartpy.errors import NoSplittableVariableException, NoPrunableNodeException

def make(store, plan="grow"):
    return estimator([plan, "none"], [0., 1.], n_trees=1, n_chains=1, n_samples=2, n_burn=0, thin=1., n_jobs=1, store_in_sample_predictions=store)

def fit(X, y, how):
    m = make(False, "none")
    if how == "fit":
        m.fit(X, y)
    if how == "fit_predict":
        m.fit_predict(X, y)
    if how == "chain":
        m.f_chains()[0](m, X, y)
    if how == "runs":
        run_models(m, [X], [y])
    if how == "second":
        m.fit(X[:0], y[:0])
    return m

def ask(X, y, how, store):
    m = make(store)
    if how == "fitted":
        m.fit(X, y)
    if how == "switched":
        m.fit(X, y)
        m.set_params(store_in_sample_predictions=True)
    if how == "switched attribute":
        m.fit(X, y)
        m.store_in_sample_predictions = True
    return m

def read(X, y, how, store, what):
    m = ask(X, y, how, store)
    if what == "predict":
        return m.predict()
    if what == "residuals":
        return m.residuals()
    if what == "l2":
        return m.l2_error()
    if what == "residuals y":
        return m.residuals(None, y)

def read_new(X, y, Xn, how, store):
    m = ask(X, y, how, store)
    return m.predict(Xn), m.fit_predict(X, y)

def pick_leaf(X, y, shape, cuts):
    from bartpy.samplers.unconstrainedtree.proposer import random_splittable_leaf_node
    t = build(stump(X, y), shape, cuts)
    return random_splittable_leaf_node(t)

def pick_node(X, y, shape, cuts):
    from bartpy.samplers.unconstrainedtree.proposer import random_prunable_decision_node
    t = build(stump(X, y), shape, cuts)
    return random_prunable_decision_node(t)

def pick_column(X, y, shape, cuts):
    t = build(stump(X, y), shape, cuts)
    return t.leaf_nodes[0].data.X.random_splittable_variable()

def pick_value(X, y, shape, cuts, col):
    t = build(stump(X, y), shape, cuts)
    return t.leaf_nodes[0].data.X.random_splittable_value(col)

def split_leaf(X, y, shape, cuts, kind):
    t = build(stump(X, y), shape, cuts)
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.proposer import sample_split_node
    else:
        from bartpy.samplers.oblivioustrees.proposer import sample_split_node
    return sample_split_node(t.leaf_nodes[0])

def usable(X, y, shape, cuts):
    t = build(stump(X, y), shape, cuts)
    return [l.split.condition() for l in t.leaf_nodes]

def score(X, y, cuts, kind, sampler, part):
    if sampler == "default":
        from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
    else:
        from bartpy.samplers.oblivioustrees.likihoodratio import UniformTreeMutationLikihoodRatio
    lr = UniformTreeMutationLikihoodRatio([0.5, 0.5])
    data = Data(X, y, normalize=True)
    tree = Tree([LeafNode(Split(data))])
    model = Model(data, Sigma(1., 1., data.y.normalizing_scale), trees=[tree], alpha=0.9, beta=2.)
    leaf = tree.nodes[0]
    if kind == "grow":
        m = GrowMutation(leaf, split_node(leaf, pair(0, cuts[0])))
    elif kind == "prune":
        d = grow(tree, leaf, 0, cuts[0])
        m = PruneMutation(d, LeafNode(d.split, depth=d.depth))
    else:
        m = TreeMutation(kind, leaf, split_node(leaf, pair(0, cuts[0])))
    if part == "all":
        return lr.log_probability_ratio(model, tree, m)
    if part == "transition":
        return lr.log_transition_ratio(tree, m)
    return lr.log_likihood_ratio(model, tree, m)

def operate(X, y, op, val):
    d = Data(X, y)
    return d + SplitCondition(0, val, op)

def snapshot(X, y, kind, cuts):
    t = stump(X, y)
    if kind == "leaf":
        return deep_copy_node(t.nodes[0])
    if kind == "decision":
        return deep_copy_node(grow(t, t.nodes[0], 0, cuts[0]))
    if kind == "base":
        return deep_copy_node(TreeNode(t.nodes[0].split, 0))
    if kind == "none":
        return deep_copy_node(None)
    if kind == "tree":
        return deep_copy_tree(Tree([TreeNode(t.nodes[0].split, 0)]))

def channel(name):
    return TraceLogger()[name]

def mutation(X, y, cuts, kind):
    t = stump(X, y)
    a = grow(t, t.nodes[0], 0, cuts[0])
    b = grow(t, a.left_child, 1, cuts[1])
    leaf = LeafNode(a.split, depth=0)
    if kind == "prune inner":
        return PruneMutation(a, leaf)
    if kind == "prune leaf":
        return PruneMutation(a.right_child, leaf)
    if kind == "grow decision":
        return GrowMutation(b, b)
    if kind == "prune ok":
        return PruneMutation(b, LeafNode(b.split, depth=1))
    if kind == "grow ok":
        return GrowMutation(a.right_child, split_node(a.right_child, pair(0, cuts[1])))

def selector(method):
    from bartpy.features.featureselection import SelectNullDistributionThreshold
    if method == "default":
        return SelectNullDistributionThreshold(make(False))
    return SelectNullDistributionThreshold(make(False), method=method)
"""

DATA = "bartpy/data.py"
SK = "bartpy/sklearnmodel.py"
UP = "bartpy/samplers/unconstrainedtree/proposer.py"


def run(rep):
    h = H()
    cuts = [sym("c%d" % i) for i in range(4)]

    def must(name, r, exc, what, rule, site, when=None, n=8, **k):
        def pred(env, o):
            if when is not None and not when(env):
                raise Vacuous()
            if o.kind != "raise":
                return "%s is accepted instead of raising %s" % (what, exc or "an error"), site
            if exc is not None and exc not in o.classes:
                return "%s fails with %s instead of %s" % (what, o.exc, exc), o.site or site
        rep.holds(name, r, pred, rule=rule, n=n, site=site, **k)

    def mustnot(name, r, what, rule, site, when=None, n=8, value=None, **k):
        def pred(env, o):
            if when is not None and not when(env):
                raise Vacuous()
            if o.kind != "ok":
                return "%s is rejected with %s" % (what, o.exc), o.site or site
            if value is not None:
                return value(env, r.get(env, r.value))
        rep.holds(name, r, pred, rule=rule, n=n, site=site, **k)

    distinct = lambda *names: (lambda env: all(len(set(env.sym(q).tolist())) > 1 for q in names))

    # ---- empty covariates
    for frame in (False, True):
        f = " (frame)" if frame else ""
        for how in ("fit", "fit_predict", "chain", "runs"):
            y = vec("y")
            r = h.client(CLIENT, "fit", args=[mat("X", frame=frame), y, how])
            must("no rows, %s%s" % (how, f), r, "ValueError", "a covariate matrix without rows", "empty-covariates", (SK, 0, "SklearnModel._construct_model"), rows=(0,), n=3)
            mustnot("with rows and columns, %s%s" % (how, f), r, "a matrix with rows and columns", "valid-accepted", (SK, 0, "SklearnModel._construct_model"),
                    when=distinct(y), rows=(3, 2, 5, 4))
            r = h.client(CLIENT, "fit", args=[mat("X", cols=0, frame=frame), y, how])
            must("no columns, %s%s" % (how, f), r, "ValueError", "a covariate matrix without columns", "empty-covariates", (SK, 0, "SklearnModel._construct_model"), rows=(0, 3, 1), n=6)
            # the target has rows, the covariates do not
            r = h.client(CLIENT, "fit", args=[mat("X", n=0, frame=frame), y, how])
            must("no rows but targets, %s%s" % (how, f), r, "ValueError", "a covariate matrix without rows", "empty-covariates", (SK, 0, "SklearnModel._construct_model"), rows=(4, 3), n=4)
        y = vec("y")
        r = h.client(CLIENT, "fit", args=[mat("X", cols=1, frame=frame), y, "fit"])
        mustnot("one column, one tree" + f, r, "a matrix with one column", "valid-accepted", (SK, 0, "SklearnModel._construct_model"), when=distinct(y), rows=(3, 2, 5, 4))

    # ---- training predictions that were not stored
    X, y, Xn = mat("X"), vec("y"), mat("Xn", rows="Q")
    P = (SK, 0, "SklearnModel.predict")
    for how in ("fitted", "new", "switched", "switched attribute"):
        for what in ("predict", "residuals", "l2", "residuals y"):
            if how != "new" or what == "predict":
                r = h.client(CLIENT, "read", args=[X, y, how, False, what])
                must("not stored: %s, %s" % (how, what), r, "ValueError", "reading training predictions that were not stored", "predictions-not-stored", P, when=distinct(y))
            if how == "fitted":
                r = h.client(CLIENT, "read", args=[X, y, how, True, what])
                mustnot("stored: %s" % what, r, "reading stored training predictions", "valid-accepted", P, when=distinct(y),
                        value=lambda env, v: None if np.shape(v) == np.shape(env.sym(y)) else ("reading stored training predictions gives an array of shape %s" % (np.shape(v),), P))
    for how in ("fitted", "switched"):
        r = h.client(CLIENT, "read_new", args=[X, y, Xn, how, False])
        mustnot("new covariates: %s" % how, r, "predicting for given covariates", "valid-accepted", P, when=distinct(y))

    # ---- nothing to choose
    h = H()
    summarise_distinctness(h)
    rows = (3, 4, 2, 5, 1)

    def leaves(env, shape):
        M, kv = env.sym(X), [env.sym(c) for c in cuts]
        M = np.asarray(M, dtype=float)
        masks = {"": np.ones(len(M), dtype=bool)}
        order = [""]
        for (p, c), v in zip(shape, kv):
            L = masks[p] & (M[:, c] <= v)
            R = masks[p] & ~(M[:, c] <= v)
            del masks[p]
            masks[p + "L"], masks[p + "R"] = L, R
        return M, masks

    def growable(env, shape):
        M, masks = leaves(env, shape)
        return any(len(set(M[m, c].tolist())) > 1 for m in masks.values() for c in range(2))

    for name, shape in SHAPES.items():
        if name in ("full", "chain") and rep.tier == "quick" and name == "chain":
            continue
        r = h.client(CLIENT, "pick_leaf", args=[X, y, shape, cuts])
        must("no leaf to grow, %s" % name, r, "NoSplittableVariableException", "a tree without growable leaf", "nothing-to-grow", (UP, 0, "random_splittable_leaf_node"),
             when=lambda env: not growable(env, shape), rows=(1, 2, 2, 3), n=40)
        mustnot("a leaf to grow, %s" % name, r, "a tree with a growable leaf", "valid-accepted", (UP, 0, "random_splittable_leaf_node"), when=lambda env: growable(env, shape), rows=rows, n=20)
        r = h.client(CLIENT, "pick_node", args=[X, y, shape, cuts])
        if shape:
            mustnot("a node to prune, %s" % name, r, "a tree with a prunable node", "valid-accepted", (UP, 0, "random_prunable_decision_node"), rows=rows, n=6)
        else:
            must("no node to prune", r, "NoPrunableNodeException", "a tree without prunable node", "nothing-to-prune", (UP, 0, "random_prunable_decision_node"), rows=rows, n=6)

    def first(env, shape):
        M, masks = leaves(env, shape)
        u = r0.get(env, r0.value)[0]
        return [len(set(M[np.asarray(u), c].tolist())) > 1 for c in range(2)]

    for name in ("stump", "one", "left"):
        shape = SHAPES[name]
        r0 = h.client(CLIENT, "usable", args=[X, y, shape, cuts])
        r = h.client(CLIENT, "pick_column", args=[X, y, shape, cuts])
        site = (DATA, 0, "CovariateMatrix.random_splittable_variable")
        must("no column to split on, %s" % name, r, "NoSplittableVariableException", "a leaf without usable column", "nothing-to-split", site,
             when=lambda env: not any(first(env, shape)), rows=(1, 2, 3), n=40)
        mustnot("a column to split on, %s" % name, r, "a leaf with a usable column", "valid-accepted", site, when=lambda env: any(first(env, shape)), rows=rows, n=20)
        for col in (0, 1):
            r = h.client(CLIENT, "pick_value", args=[X, y, shape, cuts, col])
            site = (DATA, 0, "CovariateMatrix.random_splittable_value")
            must("no value to split column %d at, %s" % (col, name), r, "NoSplittableVariableException", "a column with one distinct value", "nothing-to-split", site,
                 when=lambda env: not first(env, shape)[col], rows=(1, 2, 3), n=40)
        for kind in ("default", "oblivious"):
            r = h.client(CLIENT, "split_leaf", args=[X, y, shape, cuts, kind])
            must("splitting a leaf without usable column, %s %s" % (kind, name), r, "NoSplittableVariableException", "a leaf without usable column", "nothing-to-split",
                 (UP if kind == "default" else UP.replace("unconstrainedtree", "oblivioustrees"), 0, "sample_split_node"), when=lambda env: not any(first(env, shape)), rows=(1, 2, 3), n=40)

    # ---- names the package does not know
    h = H()
    for sampler in ("default", "oblivious"):
        site = ("bartpy/samplers/%s/likihoodratio.py" % ("unconstrainedtree" if sampler == "default" else "oblivioustrees"), 0, "UniformTreeMutationLikihoodRatio.%s")
        for part, f in (("all", "log_probability_ratio"), ("transition", "log_transition_ratio"), ("likelihood", "log_likihood_ratio")):
            s = (site[0], 0, site[2] % f)
            for kind in ("swap", "change", "", "GROW", "prune ", None):
                r = h.client(CLIENT, "score", args=[X, y, cuts, kind, sampler, part])
                must("mutation kind %r, %s %s" % (kind, sampler, part), r, None if sampler == "oblivious" or part == "all" else "NotImplementedError", "a mutation of unknown kind", "unknown-mutation", s,
                     when=distinct(y), rows=(4, 3), n=4)
            for kind in ("grow", "prune"):
                r = h.client(CLIENT, "score", args=[X, y, cuts, kind, sampler, part])
                mustnot("mutation kind %s, %s %s" % (kind, sampler, part), r, "a %s mutation" % kind, "valid-accepted", s, when=distinct(y), rows=(4, 3, 2), n=8)
    s = (DATA, 0, "CovariateMatrix.update_mask")
    for op in ("operator.lt", "operator.ge", "operator.eq", "operator.ne"):
        r = h.client(CLIENT, "operate", args=[X, y, T("ext", op), cuts[0]])
        must("split operator %s" % op, r, None, "a split with an unknown operator", "unknown-operator", s, n=4)
    for op in ("operator.le", "operator.gt"):
        r = h.client(CLIENT, "operate", args=[X, y, T("ext", op), cuts[0]])
        mustnot("split operator %s" % op, r, "a split with operator %s" % op, "valid-accepted", s, n=4)
    s = ("bartpy/node.py", 0, "deep_copy_node")
    for kind in ("base", "none", "tree"):
        r = h.client(CLIENT, "snapshot", args=[X, y, kind, cuts])
        must("snapshot of node kind %s" % kind, r, "TypeError", "a node of unknown type", "unknown-node-type", s, n=3)
    for kind in ("leaf", "decision"):
        r = h.client(CLIENT, "snapshot", args=[X, y, kind, cuts])
        mustnot("snapshot of node kind %s" % kind, r, "a %s node" % kind, "valid-accepted", s, n=3)
    s = ("bartpy/trace.py", 0, "TraceLogger.__getitem__")
    for c in ("tree", "Trees", "", "In Sample", "node", "Leaf", "sigma", None, "Acceptance"):
        r = h.client(CLIENT, "channel", args=[c])
        must("log channel %r" % c, r, "KeyError", "an unknown log channel", "unknown-channel", s, n=2)
    for c in ("Tree", "Model", "In Sample Prediction", "Node", "Sigma"):
        r = h.client(CLIENT, "channel", args=[c])
        mustnot("log channel %r" % c, r, "log channel %s" % c, "valid-accepted", s, n=2)
    s = ("bartpy/mutation.py", 0, "%s.__init__")
    for kind, cls in (("prune inner", "PruneMutation"), ("prune leaf", "PruneMutation"), ("grow decision", "GrowMutation")):
        r = h.client(CLIENT, "mutation", args=[X, y, cuts, kind])
        must("mutation object: %s" % kind, r, "TypeError", "a change that is not possible (%s)" % kind, "impossible-mutation", (s[0], 0, s[2] % cls), n=3)
    for kind, cls in (("prune ok", "PruneMutation"), ("grow ok", "GrowMutation")):
        r = h.client(CLIENT, "mutation", args=[X, y, cuts, kind])
        mustnot("mutation object: %s" % kind, r, "a possible change", "valid-accepted", (s[0], 0, s[2] % cls), n=3)
    s = ("bartpy/features/featureselection.py", 0, "SelectNullDistributionThreshold.__init__")
    for m in ("Local", "loc", "", "quantile", None, "glob"):
        r = h.client(CLIENT, "selector", args=[m])
        must("selection method %r" % m, r, "NotImplementedError", "an unknown selection method", "unknown-method", s, n=2)
    for m in ("local", "global", "default"):
        r = h.client(CLIENT, "selector", args=[m])
        mustnot("selection method %r" % m, r, "selection method %s" % m, "valid-accepted", s, n=2)
