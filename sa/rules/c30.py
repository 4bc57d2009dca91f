"""C30 the gradient boosting initializer copies the tree it fits"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, literals
from .common import LIB, SHAPES
from .c04 import wellformed
from .estim import log_stub, logged

EXPLAIN = """sklearn's GradientBoostingRegressor is represented by a summary: a class that reports the settings and the data it is given and
whose first estimator is a tree of a given shape (stump, one split, lopsided both ways, full, chain; nodes numbered as sklearn does,
depth first) with symbolic thresholds and values.  SklearnTreeInitializer is analysed on a single tree and through Model and the
estimator with one to three trees: the reported data must be the covariates and the current target of the tree being initialized, the
settings must be the ones given and sklearn's defaults otherwise, and structure, columns, thresholds, leaf values, in-sample and new-row predictions of the
result must be those of the fitted tree."""

CLIENT = LIB + """
import numpy as np
from bartpy.sklearnmodel import SklearnModel
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.samplers.treemutation import TreeMutationSampler

class Cell:
    # a (1, 1) cell of sklearn's three dimensional value array
    def __init__(self, v):
        self.v = v
    def __getitem__(self, i):
        if type(i) == tuple:
            return self.v
        return [self.v]
    def item(self):
        return self.v
    def ravel(self):
        return [self.v]
    def flatten(self):
        return [self.v]

class Values:
    def __init__(self, vs):
        self.vs = vs
    def __getitem__(self, i):
        if type(i) == tuple:
            return self.vs[i[0]] if len(i) == 3 else [self.vs[i[0]]]
        return Cell(self.vs[i])
    def __len__(self):
        return len(self.vs)

class Inner:
    def __init__(self, spec):
        left, right, feature, threshold, value = spec
        self.children_left = np.array(left)
        self.children_right = np.array(right)
        self.feature = np.array(feature)
        self.threshold = np.array(threshold)
        self.value = Values(value)
        self.node_count = len(left)
        self.capacity = len(left)
        self.n_outputs = 1
        self.n_leaves = len([x for x in left if x == -1])

class Est:
    def __init__(self, spec):
        self.tree_ = Inner(spec)

class Grid:
    def __init__(self, x):
        self.x = x
    def __getitem__(self, i):
        if type(i) == tuple:
            return self.x
        return [self.x]
    def __len__(self):
        return 1
    def ravel(self):
        return [self.x]
    def flatten(self):
        return [self.x]

GIVEN = []
class GBR:
    def __init__(self, **kw):
        self.kw = kw
    def fit(self, X, y):
        k, log, spec = GIVEN[0], GIVEN[1], GIVEN[2]
        GIVEN[0] = k + 1
        log("fit", k, X, y, self.kw)
        self.estimators_ = Grid(Est(spec[k % len(spec)]))
        return self

class Quiet(TreeMutationSampler):
    def step(self, model, tree):
        return None

def look(t):
    return [(n, n.left_child, n.right_child, n.depth, n.split.condition(), type(n) == LeafNode) for n in t.nodes]

def desc(n):
    if type(n) == LeafNode:
        return n.current_value
    a, b = n.left_child.split.most_recent_split_condition(), n.right_child.split.most_recent_split_condition()
    return (a.splitting_variable, a.splitting_value, a.operator == le, b.splitting_variable, b.splitting_value, b.operator == gt, desc(n.left_child), desc(n.right_child))

def report(trees, Xn):
    return [(look(t), desc(root_of(t)), t.predict() + 0., t.predict(Xn)) for t in trees]

def single(X, y, Xn, log, spec, v0, depth, mss, loss, how):
    GIVEN.extend([0, log, [spec]])
    t = stump(X, y)
    t.leaf_nodes[0].set_value(v0)
    if how == "positional":
        i = SklearnTreeInitializer(depth, mss, loss)
    else:
        i = SklearnTreeInitializer(loss=loss, max_depth=depth, min_samples_split=mss)
    i.initialize_tree(t)
    return report([t], Xn)

def updated(X, y, y2, Xn, log, spec, depth, mss, loss):
    # after the target of the tree has been replaced
    GIVEN.extend([0, log, [spec]])
    t = stump(X, y)
    t.predict()
    t.update_y(y2)
    SklearnTreeInitializer(depth, mss, loss).initialize_tree(t)
    return report([t], Xn)

def model(X, y, Xn, log, specs, depth, mss, loss):
    GIVEN.extend([0, log, specs])
    m = Model(Data(X, y), Sigma(1., 1., 1.), n_trees=len(specs), initializer=SklearnTreeInitializer(depth, mss, loss))
    return report(m.trees, Xn), m.predict(), m.residuals(), m.predict(Xn)

def default_model(X, y, Xn, log, specs):
    GIVEN.extend([0, log, specs])
    m = Model(Data(X, y), Sigma(1., 1., 1.), n_trees=len(specs))
    return report(m.trees, Xn), m.predict(), m.residuals(), m.predict(Xn)

def estimator(X, y, log, specs, depth, mss, loss):
    GIVEN.extend([0, log, specs])
    m = SklearnModel(n_trees=len(specs), n_chains=1, n_samples=1, n_burn=0, n_jobs=1, tree_sampler=Quiet(), initializer=SklearnTreeInitializer(depth, mss, loss))
    m.fit(X, y)
    return [[desc_shape(root_of(t)) for t in s.trees] for s in m.model_samples]

def desc_shape(n):
    if type(n) == LeafNode:
        return 0
    a = n.left_child.split.most_recent_split_condition()
    return (a.splitting_variable, a.splitting_value, desc_shape(n.left_child), desc_shape(n.right_child))
"""

# everything that influences the fitted tree, with the values that leave it as it is
NEUTRAL = {"criterion": ("friedman_mse",), "subsample": (1, 1.0), "min_samples_leaf": (1,), "min_weight_fraction_leaf": (0, 0.0), "min_impurity_decrease": (0, 0.0),
           "init": (None,), "max_features": (None,), "alpha": (0.9,), "max_leaf_nodes": (None,), "ccp_alpha": (0, 0.0)}


def numbered(shape):
    """(paths in depth-first order, left, right, feature)"""
    col = dict(shape)
    paths, left, right, feat = [], [], [], []

    def go(p):
        k = len(paths)
        paths.append(p)
        left.append(-1)
        right.append(-1)
        feat.append(col.get(p, -2))
        if p in col:
            left[k] = len(paths)
            go(p + "L")
            right[k] = len(paths)
            go(p + "R")
    go("")
    return paths, left, right, feat


def run(rep):
    X, y, y2, Xn = mat("X"), vec("y"), vec("y2"), mat("Xn")
    v0 = sym("v0")
    site = ("bartpy/initializers/sklearntreeinitializer.py", 0, "SklearnTreeInitializer")
    sub = {("sklearn", "GradientBoostingRegressor"): "GBR"}
    settings = [(4, 2, "squared_error"), (2, 7, "absolute_error"), (1, 3, "huber"), (9, 5, "quantile")]

    def spec(shape, tag):
        paths, left, right, feat = numbered(shape)
        thr = [sym("t%s_%d" % (tag, i)) if f >= 0 else -2.0 for i, f in enumerate(feat)]
        val = [sym("w%s_%d" % (tag, i)) for i in range(len(paths))]
        return (left, right, feat, thr, val), (shape, paths, thr, val)

    def E(env, x):
        return x if isinstance(x, (int, float)) else env.sym(x)

    def expected(env, info):
        shape, paths, thr, val = info
        col = dict(shape)

        def d(p):
            i = paths.index(p)
            if p not in col:
                return E(env, val[i])
            return (col[p], E(env, thr[i]), True, col[p], E(env, thr[i]), True, d(p + "L"), d(p + "R"))
        return d("")

    def value(env, info, M, d=None):
        d = expected(env, info) if d is None else d
        if not isinstance(d, tuple):
            return np.full(len(M), d)
        return np.where(M[:, d[0]] <= d[1], value(env, info, M, d[6]), value(env, info, M, d[7]))

    def eq(a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
        return same(a, b)

    def tree_ok(env, got, info, start):
        nodes, d, ins, outs = got
        w = wellformed(nodes)
        if w:
            return w
        if not info[0]:
            # nothing to copy: the tree stays as it was
            if isinstance(d, tuple):
                return "the fitted tree has no split but the initialized one has"
            if not same(d, start) and not same(d, E(env, info[3][0])):
                return "the fitted tree has no split but the leaf value became %s" % d
            return None
        if not eq(d, expected(env, info)):
            return "the tree is %s, the fitted one is %s" % (d, expected(env, info))
        for M, p, what in ((env.sym(X), ins, "the training rows"), (env.sym(Xn), outs, "new rows")):
            if not same(p, value(env, info, M)):
                return "its predictions for %s are not those of the fitted tree" % what

    def fit_ok(env, e, k, target, setting):
        if not same(e[2], env.sym(X)):
            return "tree %d is fitted to other covariates" % k
        if not same(e[3], target):
            return "tree %d is fitted to %s instead of its current target %s" % (k, e[3], target)
        kw = e[4]
        for name, want in zip(("max_depth", "min_samples_split", "loss"), setting):
            if kw.get(name) != want:
                return "the tree is fitted with %s = %s, set was %s" % (name, kw.get(name), want)
        for name, ok in NEUTRAL.items():
            if name in kw and not any(kw[name] == q and (kw[name] is None) == (q is None) for q in ok):
                return "the tree is fitted with %s = %s, which changes it" % (name, kw[name])
        if "init" in kw and kw["init"] is not None:
            return "the tree is fitted with init = %s" % kw["init"]

    def balanced(n):
        """a tree of at least n nodes, breadth first"""
        out, todo = [], [""]
        while 2 * len(out) + 1 < n:
            q = todo.pop(0)
            out.append((q, len(q) % 2))
            todo += [q + "L", q + "R"]
        return sorted(out, key=lambda e: len(e[0]))
    k = 0
    big = [31] + [2 * c + 3 for c in literals(modules=["bartpy.initializers"], lo=8, hi=60)][:2]
    settings += [(None, 4, "squared_error")]
    shapes = list(SHAPES.items()) + [("balanced %d" % n, balanced(n)) for n in big]
    for name, shape in shapes:
        for how in ("positional", "keyword"):
            st = settings[k % 5]
            k += 1
            for route in ("fresh", "updated"):
                if route == "updated" and how == "keyword" or len(shape) > 12 and (route, how) != ("fresh", "positional"):
                    continue
                s, info = spec(shape, "a")
                h = H()
                if route == "fresh":
                    r = h.client(CLIENT, "single", args=[X, y, Xn, log_stub, s, v0] + list(st) + [how], subst=sub)
                else:
                    r = h.client(CLIENT, "updated", args=[X, y, y2, Xn, log_stub, s] + list(st), subst=sub)

                def pred(env, o, r=r, st=st, info=info, route=route):
                    if o.kind != "ok":
                        return "initializing a tree fails with %s" % o.exc, o.site
                    log = logged(r, env)
                    if len(log) != 1:
                        return "%d regressors are fitted for one tree" % len(log), site
                    w = fit_ok(env, log[0], 0, env.sym(y if route == "fresh" else y2), st)
                    if w:
                        return w, site
                    w = tree_ok(env, r.get(env, r.value)[0], info, E(env, v0) if route == "fresh" else 0.)
                    if w:
                        return w, site
                rep.holds("%s tree, %s, %s" % (name, route, how), r, pred, rule="initializer-copies-tree", n=12 if len(shape) > 12 else None if route == "fresh" and how == "positional" else 20)

    for combo in (["one"], ["left", "right"], ["full", "stump", "chain"], ["stump", "one"]):
        for st in (settings[1], None):
            ss = [spec(SHAPES[c], "abc"[i]) for i, c in enumerate(combo)]
            h = H()
            if st is not None:
                r = h.client(CLIENT, "model", args=[X, y, Xn, log_stub, [s for s, _ in ss]] + list(st), subst=sub)
            else:
                r = h.client(CLIENT, "default_model", args=[X, y, Xn, log_stub, [s for s, _ in ss]], subst=sub)

            def pred(env, o, r=r, ss=ss, st=st or settings[0]):
                if o.kind != "ok":
                    return "initializing a model fails with %s" % o.exc, o.site
                log = logged(r, env)
                if len(log) != len(ss):
                    return "%d regressors are fitted for %d trees" % (len(log), len(ss)), site
                M, N, Y = env.sym(X), env.sym(Xn), env.sym(y)
                trees, p, res, pn = [r.get(env, q) for q in r.value.args]
                tot, totn = np.zeros(len(M)), np.zeros(len(N))
                for i, (_, info) in enumerate(ss):
                    w = fit_ok(env, log[i], i, Y - tot, st) or tree_ok(env, trees[i], info, 0.)
                    if w:
                        return w, site
                    tot = tot + trees[i][2]
                    totn = totn + trees[i][3]
                if not same(p, tot) or not same(res, Y - tot) or not same(pn, totn):
                    return "predictions or residuals of the initialized model are not those of its trees", ("bartpy/model.py", 0, "Model")
            rep.holds("model with %s, %s settings" % ("+".join(combo), "given" if st else "default"), r, pred, rule="initializer-backfits", n=30)

    for combo in (["one", "left"],):
        ss = [spec(SHAPES[c], "abc"[i]) for i, c in enumerate(combo)]
        h = H()
        r = h.client(CLIENT, "estimator", args=[X, y, log_stub, [s for s, _ in ss]] + list(settings[2]), subst=sub)

        def pred(env, o, r=r, ss=ss):
            Y = env.sym(y)
            if len(set(Y.tolist())) < 2:
                raise Vacuous()
            if o.kind != "ok":
                return "fitting fails with %s" % o.exc, o.site
            log = logged(r, env)
            if not log or len(log) % len(ss):
                return "%d regressors are fitted for %d trees" % (len(log), len(ss)), site
            log = log[-len(ss):]
            tot = np.zeros(len(Y))
            z = (Y - Y.min()) / (Y.max() - Y.min()) - 0.5
            for i, (_, info) in enumerate(ss):
                w = fit_ok(env, log[i], i, z - tot, settings[2])
                if w:
                    return w, site
                tot = tot + value(env, info, env.sym(X))

            def shape(d):
                return (d[0], d[1], shape(d[6]), shape(d[7])) if isinstance(d, tuple) else 0
            for s in r.get(env, r.value):
                if not all(eq(a, shape(expected(env, i))) for a, (_, i) in zip(s, ss)) or len(s) != len(ss):
                    return "the retained model does not start from the fitted trees", site
        rep.holds("estimator with %s" % "+".join(combo), r, pred, rule="initializer-reaches-run", n=30)
