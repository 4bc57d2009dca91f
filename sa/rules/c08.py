"""C08 partial residuals"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous
from .common import LIB, SHAPES
from .c07 import SWEEP, runs

EXPLAIN = """Symbolic value of the target every tree holds at the moment its structural update is requested, over one and two
complete sweeps of models with one to three trees whose structure and leaf values change during the sweep, compared row by row
with training target minus the sum of the other trees' predictions at that moment; symbolic initial targets for 1..5 trees."""

INIT = LIB + """
def initial(X, y, n):
    model = Model(Data(X, y), Sigma(1., 1., 1.), n_trees=n, initializer=None)
    trees = model.trees
    return [t.nodes[0].data.y.values for t in trees], model.data.y.values, [len(t.nodes) for t in trees], [t.nodes[0].data.y.summed_y() for t in trees]

def between(X, y, shapes, cuts, leafvals, extra):
    # the running total over an interrupted history: leaf values changed at each visit, predictions asked in between
    model = Model(Data(X, y), Sigma(1., 1., 1.), trees=[build(stump(X, y), s, cuts) for s in shapes])
    k = 0
    for t in model.trees:
        for l in t.leaf_nodes:
            l.set_value(leafvals[k % 3] + k)
            k = k + 1
    out = []
    for sweep in range(2):
        for tree in model.refreshed_trees():
            out.append([[t.predict() + 0. for t in model.trees if t is not tree], tree.nodes[-1].data.y.values + 0., tree.nodes[0].data.y.values + 0.])
            for l in tree.leaf_nodes:
                l.set_value(leafvals[k % 3] + k)
                k = k + 1
            if extra == "ask":
                model.predict()
                model.residuals()
    return out, model.data.y.values
"""


def run(rep):
    h = H()
    X, y = mat("X"), vec("y")
    cuts = [sym("c%d" % i) for i in range(4)]
    vals = [sym("v%d" % i) for i in range(3)]
    at = ("bartpy/model.py", 0, "Model.refreshed_trees")

    for n in (1, 2, 3, 5):
        r = h.client(INIT, "initial", args=[X, y, n])

        def pred0(env, o, r=r, n=n):
            if len(set(env.sym(y).tolist())) < 2:
                raise Vacuous()
            if o.kind != "ok":
                return "building the model fails with %s" % o.exc, o.site
            ts, base, k, sums = [r.get(env, x) for x in r.value.args]
            if len(ts) != n:
                return "%d trees for n_trees=%d" % (len(ts), n)
            for t, s in zip(ts, sums):
                if not same(np.asarray(t), np.asarray(base) / n) or not same(s, float(np.sum(t))):
                    return "a tree starts with target %s, an equal share is %s" % (t, np.asarray(base) / n), ("bartpy/model.py", 0, "Model.initialize_trees")
        rep.holds("initial share n_trees=%d" % n, r, pred0, rule="initial-target", rows=(5, 4, 3))

    for name, r, n, nt in runs(h, X, y, rep.tier == "thorough"):
        def pred(env, o, r=r):
            if len(set(env.sym(y).tolist())) < 2:
                raise Vacuous()
            if o.kind != "ok":
                return "a sweep fails with %s" % o.exc, o.site
            log, trees, _, base, _, base2 = [r.get(env, x) for x in r.value.args]
            if not same(base, base2):
                return "the training target itself has changed during the sweep", at
            for e in log:
                if e[0] == "tree":
                    want = np.asarray(base) - sum([np.asarray(p) for p in e[4]], np.zeros(len(base)))
                    if not same(np.asarray(e[2]), want):
                        return "at its visit a tree's target is %s; the target minus the other trees' predictions is %s" % (e[2], want), at
                if e[0] == "sigma" and not same(np.asarray(e[2]), sum(np.asarray(q) for q in e[3])):
                    return "the ensemble prediction is not the sum of its trees' predictions"
        rep.holds("residual target " + name, r, pred, rule="partial-residual", rows=(5, 4))

    for shapes in (["one"], ["one", "left"], ["stump", "one", "right"]):
        for extra in ("", "ask"):
            r = h.client(INIT, "between", args=[X, y, [[tuple(s) for s in SHAPES[k]] for k in shapes], cuts, vals, extra])

            def pred2(env, o, r=r):
                if len(set(env.sym(y).tolist())) < 2:
                    raise Vacuous()
                if o.kind != "ok":
                    return "iterating the trees fails with %s" % o.exc, o.site
                out, base = [r.get(env, x) for x in r.value.args]
                for preds, tgt, tgt0 in out:
                    want = np.asarray(base) - sum([np.asarray(p) for p in preds], np.zeros(len(base)))
                    for t in (tgt, tgt0):
                        if not same(np.asarray(t), want):
                            return "a visited tree holds the target %s instead of %s" % (t, want), at
            rep.holds("running total %s %s" % ("+".join(shapes), extra), r, pred2, rule="running-total", rows=(5, 4))
