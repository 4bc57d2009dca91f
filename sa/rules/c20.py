"""C20 feature selection decides every column from its true share of splits"""
import numpy as np
from ..terms import const
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, literals
from .common import SHAPES
from .estim import EST, log_stub, logged

EXPLAIN = """feature_split_proportions is analysed on retained samples with trees of every shape up to three splits (several samples and
trees, columns in every order, columns without a split, trees without a split); local_thresholds, global_thresholds, is_kept and
kept_features on symbolic proportions with keys in any order and symbolic quantiles; null_feature_split_proportions_distribution and
both selectors with a stand-in tree sampler that splits on scripted columns and reports the data it was trained on.  The values are
compared with shares counted by the rule, numpy's quantiles and the strict comparison, one entry per column of the training matrix."""

CLIENT = EST + """
from bartpy.tree import deep_copy_tree
from bartpy.diagnostics.features import (feature_split_proportions, null_feature_split_proportions_distribution, local_thresholds,
                                         global_thresholds, is_kept, kept_features, partition_into_passed_and_failed_features)
from bartpy.features.featureselection import SelectSplitProportionThreshold, SelectNullDistributionThreshold

def tick():
    return COUNT()

class Holder:
    pass

class OnColumns(TreeMutationSampler):
    # performs a fixed sequence of growths (of the last leaf, on the given column), prunes (-2) and steps without a change (-1)
    def __init__(self, plan, cuts, log):
        self.plan, self.cuts, self.log = plan, cuts, log
    def step(self, model, tree):
        k = tick()
        what = self.plan[k % len(self.plan)]
        cut = self.cuts[k % len(self.cuts)]
        out = None
        if what >= 0:
            out = grow(tree, [l for l in tree.leaf_nodes][-1], what, cut)
        elif what == -2 and len(tree.nodes) > 1:
            out = prune(tree, [n for n in tree.prunable_decision_nodes][0])
        self.log(model.data.X.values, model.data.y.unnormalized_y, [[n.most_recent_split_condition().splitting_variable for n in t.decision_nodes] for t in model.trees])
        return out

def shares(X, y, shapes, cuts, columns):
    m = Holder()
    m.model_samples = []
    for sample in shapes:
        s = Holder()
        s.trees = [deep_copy_tree(build(stump(X, y), shape, cuts)) for shape in sample]
        m.model_samples.append(s)
    p = feature_split_proportions(m, columns) if columns is not None else feature_split_proportions(m)
    return [(k, v) for k, v in p.items()]

def thresholds(null, order, q, how):
    d = {}
    for i in order:
        d[i] = null[i]
    t = local_thresholds(d, q) if how == "local" else global_thresholds(d, q)
    return [(k, v) for k, v in t.items()]

def kept(p, t, porder, torder):
    a, b = {}, {}
    for i in porder:
        a[i] = p[i]
    for i in torder:
        b[i] = t[i]
    passed, failed = partition_into_passed_and_failed_features(a, b)
    return is_kept(a, b), kept_features(a, b), [k for k in passed], [k for k in failed]

def model(plan, cuts, log, nt, nc, ns):
    return SklearnModel(tree_sampler=OnColumns(plan, cuts, log), n_trees=nt, n_chains=nc, n_samples=ns, n_burn=0, thin=1., n_jobs=1, initializer=None)

def null(X, y, plan, cuts, log, nt, nc, ns, perms, default):
    m = model(plan, cuts, log, nt, nc, ns)
    d = null_feature_split_proportions_distribution(m, X, y) if default else null_feature_split_proportions_distribution(m, X, y, perms)
    return [(k, v, len(v)) for k, v in d.items()], m.model_samples is None

def split_columns(m):
    return [[n.left_child.split.splitting_variable for t in s.trees for n in t.decision_nodes] for s in m.model_samples]

def simple(X, y, plan, cuts, log, nt, nc, ns, q, again):
    s = SelectSplitProportionThreshold(model(plan, cuts, log, nt, nc, ns), q)
    if again:
        s.fit(X, y)
    s.fit(X, y)
    return s.get_support(), [(k, v) for k, v in s.feature_proportions.items()], split_columns(s.model), len(s.get_support())

def nulled(X, y, plan, cuts, log, nt, nc, ns, perms, q, how):
    s = SelectNullDistributionThreshold(model(plan, cuts, log, nt, nc, ns), q, how, perms)
    s.fit(X, y)
    return s.get_support(), [(k, v) for k, v in s.feature_proportions.items()], split_columns(s.model), [(k, v) for k, v in s.null_distribution.items()], [(k, v) for k, v in s.thresholds.items()], s.model.n_trees
"""


class Tick:
    """stub that numbers the tree updates of a client, across copies of the sampler"""
    __name__ = "tick"

    def __init__(self):
        self.k = 0

    def __call__(self, it, st, args, kwargs, site):
        self.k += 1
        return const(self.k - 1)


def share(cols, n):
    tot = len(cols)
    return {c: (cols.count(c) / tot if tot else 0.0) for c in n}


def run(rep):
    DF, FS = "bartpy/diagnostics/features.py", "bartpy/features/featureselection.py"
    site = (DF, 0, "feature_split_proportions")
    h = H()
    X, y = mat("X", cols=3), vec("y")
    cuts = [sym("c%d" % i) for i in range(3)]
    one2 = [("", 2)]
    chain = [("", 0), ("R", 0), ("RL", 1)]
    shapesets = [
        [[SHAPES["one"]]], [[SHAPES["stump"]]], [[SHAPES["full"], SHAPES["stump"]], [SHAPES["one"], SHAPES["left"]]], [[one2], [SHAPES["one"]], [SHAPES["chain"]]],
        [[chain, one2]], [[SHAPES["stump"], SHAPES["stump"]], [one2, SHAPES["stump"]]], [[SHAPES["right"], SHAPES["right"]], [SHAPES["full"], SHAPES["chain"]], [SHAPES["stump"], SHAPES["stump"]]],
    ]
    for k in literals(modules=["bartpy.diagnostics", "bartpy.features"], lo=3, hi=150)[:3]:
        # as many samples, trees, nodes as the code mentions
        long = [("R" * i, i % 3) for i in range(k // 2 + 1)]
        shapesets += [[[SHAPES["one"]]] * k + [[one2]], [[SHAPES["one"]] * k + [one2]], [[one2]] + [[SHAPES["one"]]] * k]
        if k <= 100:
            shapesets.append([[long, one2]])
    for i, shapes in enumerate(shapesets):
        for columns in (None, [0, 1, 2], [2, 0], [1]) if i < 7 else ([0, 1, 2],):
            r = h.client(CLIENT, "shares", args=[X, y, shapes, cuts, columns])
            cols = [c for s in shapes for t in s for _, c in t]
            keys = columns if columns is not None else sorted(set(cols))
            want = share(cols, keys)

            def pred(env, o, r=r, want=want, keys=keys):
                if o.kind != "ok":
                    return "counting the splits fails with %s" % o.exc, o.site
                got = r.get(env, r.value)
                if sorted(k for k, _ in got) != sorted(keys):
                    return "proportions are reported for the columns %s instead of %s" % ([k for k, _ in got], keys), site
                for k, v in got:
                    if not same(v, want[k]):
                        return "the proportion of column %s is %s, its share of all splits is %s" % (k, v, want[k]), site
            rep.holds("proportions %d columns=%s" % (i, columns), r, pred, rule="split-share", n=4, site=site)

    def dist(rows, ncol):
        return [[sym("p%d_%d" % (c, i)) for i in range(rows)] for c in range(ncol)]
    q = sym("q", "unit")
    for how in ("local", "global"):
        for rows, ncol, order in ((1, 1, [0]), (2, 2, [1, 0]), (3, 3, [2, 0, 1]), (4, 2, [0, 1]), (3, 2, [0, 1])):
            D = dist(rows, ncol)
            r = h.client(CLIENT, "thresholds", args=[D, order, q, how])
            tsite = (DF, 0, how + "_thresholds")

            def pred(env, o, r=r, D=D, how=how, order=order, tsite=tsite):
                if o.kind != "ok":
                    return "computing thresholds fails with %s" % o.exc, o.site
                v = np.array([[env.sym(x) for x in c] for c in D], dtype=float)
                got = r.get(env, r.value)
                if sorted(k for k, _ in got) != sorted(order):
                    return "thresholds for the columns %s instead of %s" % ([k for k, _ in got], sorted(order)), tsite
                for k, t in got:
                    want = np.quantile(v[k] if how == "local" else v.max(axis=0), env.sym(q))
                    if not same(t, want):
                        return "the %s threshold of column %d for the quantile %s is %s instead of %s" % (how, k, env.sym(q), t, want), tsite
            rep.holds("%s thresholds %d runs %d columns" % (how, rows, ncol), r, pred, rule="threshold", site=tsite, n=40)
            for c in (0., 1., .5):
                rep.holds("%s thresholds %d runs %d columns, quantile %g" % (how, rows, ncol, c), r, pred, rule="threshold", site=tsite, n=6, over={q: c})
    for n, po, to in ((12, [3, 10, 2, 0, 11, 1, 9, 4, 8, 5, 7, 6], [11, 1, 9, 4, 8, 5, 7, 6, 3, 10, 2, 0]), (1, [0], [0]), (2, [1, 0], [0, 1]), (3, [2, 0, 1], [1, 2, 0]), (4, [0, 1, 2, 3], [3, 1, 0, 2])):
        P, TH = [sym("a%d" % i) for i in range(n)], [sym("b%d" % i) for i in range(n)]
        r = h.client(CLIENT, "kept", args=[P, TH, po, to])
        for eq in (False, True):
            def pred(env, o, r=r, P=P, TH=TH, n=n):
                if o.kind != "ok":
                    return "deciding columns fails with %s" % o.exc, o.site
                want = [bool(env.sym(a) > env.sym(b)) for a, b in zip(P, TH)]
                got, keep, passed, failed = r.get(env, r.value)
                if [bool(x) for x in got] != want:
                    return "the decisions are %s for proportions %s and thresholds %s" % (list(got), [env.sym(a) for a in P], [env.sym(b) for b in TH]), (DF, 0, "is_kept")
                if list(keep) != [i for i in range(n) if want[i]]:
                    return "columns %s are kept, the decisions say %s" % (list(keep), want), (DF, 0, "kept_features")
                if sorted(passed) != [i for i in range(n) if want[i]] or sorted(failed) != [i for i in range(n) if not want[i]]:
                    return "passed %s and failed %s disagree with the decisions %s" % (passed, failed, want), (DF, 0, "partition_into_passed_and_failed_features")
            over = {a: 0.25 for a in P[:-1]} if eq else {}
            over.update({b: 0.25 for b in TH[:-1]} if eq else {})
            rep.holds("decisions %d columns%s" % (n, " with ties" if eq else ""), r, pred, rule="decision", n=30, over={k: v for k, v in over.items()} or None)

    plans = [([0, 1, 0], 1, 1, 3), ([2, -1, 0, -2], 1, 2, 2), ([-1], 2, 1, 2), ([1, 1, -2, 0, 2], 2, 1, 2), ([-1, 2], 2, 2, 1), ([0], 1, 1, 2)]
    for frame in (False, True):
        hh = H() if frame else h
        Xf = mat("X", cols=3, frame=frame)
        for plan, nt, nc, ns in plans[:2] if frame else plans:
            nm = " plan=%s trees=%d chains=%d samples=%d%s" % (plan, nt, nc, ns, " (frame)" if frame else "")
            nsite = (DF, 0, "null_feature_split_proportions_distribution")
            for perms in (1, 3):
                r = hh.client(CLIENT, "null", inject={"COUNT": Tick()}, args=[Xf, y, plan, cuts, log_stub, nt, nc, ns, perms, False])
                seen = {}

                def pred(env, o, r=r, perms=perms, nt=nt, nc=nc, ns=ns, seen=seen):
                    Y = env.sym(y)
                    n = len(Y)
                    if len(set(Y.tolist())) < n:
                        raise Vacuous()
                    if o.kind != "ok":
                        return "the null distribution fails with %s" % o.exc, o.site
                    got = r.get(env, r.value)[0]
                    log = logged(r, env)
                    per = nc * ns * nt
                    if len(log) != perms * per:
                        return "%d tree updates for %d permuted data sets of %d updates each" % (len(log), perms, per), nsite
                    Xv = np.asarray(env.sym(Xf).values if hasattr(env.sym(Xf), "values") else env.sym(Xf), dtype=float)
                    for e in log:
                        if not same(e[0], Xv):
                            return "a null model is trained on changed covariates %s" % (e[0],), nsite
                        if sorted(np.round(e[1], 9)) != sorted(np.round(Y, 9)):
                            return "a null model is trained on the target %s, not on a permutation of %s" % (e[1], Y), nsite
                        if not same(e[1], Y):
                            seen["moved"] = True
                    if sorted(k for k, _, _ in got) != [0, 1, 2]:
                        return "null proportions for the columns %s instead of 0, 1, 2" % [k for k, _, _ in got], nsite
                    if any(l != perms for _, _, l in got):
                        return "%s null proportions per column for %d permutations" % ([l for _, _, l in got], perms), nsite
                    want = []
                    for d in range(perms):
                        cols = []
                        for s in range(nc * ns):
                            e = log[d * per + s * nt + nt - 1]
                            cols.extend(c for t in e[2] for c in t)
                        want.append(share(cols, [0, 1, 2]))
                    have = [{k: v[d] for k, v, _ in got} for d in range(perms)]
                    for d in range(perms):
                        for k in (0, 1, 2):
                            if not same(have[d][k], want[d][k]):
                                return "the null proportion of column %d in run %d is %s instead of %s" % (k, d, have[d][k], want[d][k]), nsite
                    if perms > 1 and len({tuple(np.round(log[d * per][1], 9)) for d in range(perms)}) > 1:
                        seen["several"] = True
                ok = rep.holds("null distribution %d permutations" % perms + nm, r, pred, rule="null-share", n=12, site=nsite)
                if ok:
                    rep.fact("target is permuted, %d" % perms + nm, bool(seen.get("moved")) or None, rule="null-share", site=nsite, msg="the target was never permuted in the valuations tried")
                    if seen and perms > 1:
                        rep.fact("permutations differ, %d" % perms + nm, bool(seen.get("several")), rule="null-share", site=nsite, msg="all null runs use the same permutation")
            ssite = (FS, 0, "SelectSplitProportionThreshold._get_support_mask")
            for again in (False, True):
                r = hh.client(CLIENT, "simple", inject={"COUNT": Tick()}, args=[Xf, y, plan, cuts, log_stub, nt, nc, ns, q, again])

                def pred(env, o, r=r):
                    if len(set(env.sym(y).tolist())) < 2:
                        raise Vacuous()
                    if o.kind != "ok":
                        return "the selection fails with %s" % o.exc, o.site
                    mask, props, cols, l = r.get(env, r.value)
                    flat = [c for s in cols for c in s]
                    want = share(flat, [0, 1, 2])
                    if sorted(k for k, _ in props) != [0, 1, 2] or any(not same(v, want[k]) for k, v in props):
                        return "the selector's proportions are %s instead of %s" % (props, want), (FS, 0, "SelectSplitProportionThreshold.fit")
                    m = [bool(want[c] > env.sym(q)) for c in (0, 1, 2)]
                    if len(mask) != 3 or [bool(x) for x in mask] != m:
                        return "the decisions are %s for proportions %s and threshold %s" % (list(mask), want, env.sym(q)), ssite
                rep.holds("split proportion selector%s" % (" fitted twice" if again else "") + nm, r, pred, rule="selection", n=14, site=ssite)
                if not again:
                    for c in (0., .25, 1 / 3., .5, 2 / 3., 1.):
                        rep.holds("split proportion selector with threshold %.3g" % c + nm, r, pred, rule="selection", n=3, site=ssite, over={q: c})
            nsite2 = (FS, 0, "SelectNullDistributionThreshold._get_support_mask")
            for how in ("local", "global"):
                for perms in (1, 2):
                    r = hh.client(CLIENT, "nulled", inject={"COUNT": Tick()}, args=[Xf, y, plan, cuts, log_stub, nt, nc, ns, perms, q, how])

                    def pred(env, o, r=r, how=how, perms=perms, nt=nt, nc=nc, ns=ns):
                        Y = env.sym(y)
                        if len(set(Y.tolist())) < len(Y):
                            raise Vacuous()
                        if o.kind != "ok":
                            return "the selection fails with %s" % o.exc, o.site
                        mask, props, cols, nulls, thr, _ = r.get(env, r.value)
                        fsite = (FS, 0, "SelectNullDistributionThreshold.fit")
                        want = share([c for s in cols for c in s], [0, 1, 2])
                        if sorted(k for k, _ in props) != [0, 1, 2] or any(not same(v, want[k]) for k, v in props):
                            return "the selector's proportions are %s instead of %s" % (props, want), fsite
                        log = logged(r, env)
                        per = nc * ns * nt
                        main = [d for d in range(len(log) // per) if same(log[d * per][1], Y)]
                        if len(log) != (perms + 1) * per:
                            return "%d tree updates for one fit and %d null runs of %d updates" % (len(log), perms, per), fsite
                        if 0 not in main:
                            raise Undecided("the fit to the data itself is not the first run")
                        nd = [share([c for s in range(nc * ns) for t in log[d * per + s * nt + nt - 1][2] for c in t], [0, 1, 2]) for d in range(1, perms + 1)]
                        if sorted(k for k, _ in nulls) != [0, 1, 2] or any(not same(np.asarray(v), [x[k] for x in nd]) for k, v in nulls):
                            return "the null distribution is %s instead of %s" % (nulls, nd), fsite
                        Q = env.sym(q)
                        if how == "local":
                            t = {k: np.quantile([x[k] for x in nd], Q) for k in (0, 1, 2)}
                        else:
                            g = np.quantile([max(x.values()) for x in nd], Q)
                            t = {k: g for k in (0, 1, 2)}
                        if sorted(k for k, _ in thr) != [0, 1, 2] or any(not same(v, t[k]) for k, v in thr):
                            return "the thresholds are %s, the requested quantile gives %s" % (thr, t), fsite
                        if any(abs(want[c] - t[c]) < 1e-9 and want[c] != t[c] for c in (0, 1, 2)):
                            raise Vacuous()
                        m = [bool(want[c] > t[c]) for c in (0, 1, 2)]
                        if len(mask) != 3 or [bool(x) for x in mask] != m:
                            return "the decisions are %s for proportions %s and thresholds %s" % (list(mask), want, t), nsite2
                    rep.holds("null selector %s %d permutations" % (how, perms) + nm, r, pred, rule="selection", n=10, site=nsite2)
