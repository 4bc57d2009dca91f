"""C32 data without a usable split are fitted by constant trees"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous
from ..terms import FALSE
from .estim import EST

EXPLAIN = """Tree updates, whole sweeps and fits are interpreted for covariates that are constant in every column of every node (the test for
distinct values is represented by its summary, decided in C06: it fails for every column), with both tree samplers, symbolic targets and
noise.  Every path must complete: a path that keeps calling the proposer with an unchanged tree is reported as endless retry.  The
trees must stay single leaves, their values be redrawn in every sweep, and the predictions be the same for every row."""

CLIENT = EST + """
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.sigma import SigmaSampler

def sampler(kind, a, b):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
        return get_tree_sampler(a, b)
    from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    return get_tree_sampler(a, b)

def update(X, y, kind, a, b, v, s):
    t = stump(X, y)
    n = t.nodes[0]
    n.set_value(v)
    sg = Sigma(1., 1., 1.)
    sg.set_value(s)
    m = Model(Data(X, y), sg, trees=[t])
    ts = sampler(kind, a, b)
    ts.step(m, t)
    ts.step(m, t)
    return len(t.nodes), t.nodes[0] is n, t.nodes[0].current_value, sg.current_value(), t.nodes[0].data.X.n_obsv, t.predict()

def fit(X, y, Xn, kind, a, b, nt, ns, nb):
    m = SklearnModel(tree_sampler=sampler(kind, a, b), n_trees=nt, n_chains=1, n_samples=ns, n_burn=nb, thin=1., n_jobs=1, initializer=None, store_in_sample_predictions=True,
                     store_acceptance_trace=True)
    m.fit(X, y)
    return [[len(t.nodes) for t in s.trees] for s in m.model_samples], [[t.nodes[0].current_value for t in s.trees] for s in m.model_samples], m.predict(Xn), m.predict(X), m.predict(), \\
        [s.sigma.current_value() for s in m.model_samples]
"""


def run(rep):
    X, y, Xn = mat("X"), vec("y"), mat("Xn", rows="M")
    a, b, v, s = .6, .4, sym("v"), sym("s", "pos")
    prop = "bartpy/samplers/%s/proposer.py"
    for kind in ("default", "oblivious"):
        site = (prop % ("unconstrainedtree" if kind == "default" else "oblivioustrees"), 0, "UniformMutationProposer.propose")
        runs = []
        h = H()
        h.it.stubs["bartpy.data.is_not_constant"] = lambda it, st, a, k, s: FALSE
        r = h.client(CLIENT, "update", args=[X, y, kind, a, b, v, s])
        runs.append(("two updates of a tree", r))
        for nt, ns, nb in ((1, 2, 1), (2, 2, 0), (3, 1, 2)):
            h = H()
            h.it.stubs["bartpy.data.is_not_constant"] = lambda it, st, a, k, s: FALSE
            runs.append(("fit with %d trees, %d samples, %d burn-in" % (nt, ns, nb), h.client(CLIENT, "fit", args=[X, y, Xn, kind, a, b, nt, ns, nb])))
        for name, r in runs:
            def pred(env, o, r=r, name=name, site=site):
                E = env.sym
                if len(set(E(y).tolist())) < 2 and not name.startswith("two"):
                    raise Vacuous()
                if o is None or o.kind != "ok":
                    return "fails with %s" % o.exc, o.site
                got = [r.get(env, q) for q in r.value.args]
                if name.startswith("two"):
                    n, same_node, val, sg, obs, p = got
                    if n != 1 or not same_node:
                        return "a tree that cannot be changed has %d nodes after two updates" % n, site
                    if not same(val, E(v)) or not same(sg, E(s)) or obs != env.rows or not same(p, np.full(env.rows, E(v))):
                        return "the update of a tree that cannot be changed alters its leaf or the noise level", site
                    return
                sizes, vals, pn, px, pt, sg = got
                if any(q != 1 for z in sizes for q in z):
                    return "trees with splits on constant columns: %s nodes" % sizes, site
                flat = [q for z in vals for q in z]
                if len(set(np.round(flat, 12).tolist())) != len(flat) or len(set(np.round(sg, 12).tolist())) != len(sg):
                    return "leaf values %s or noise levels %s are not redrawn in every sweep" % (vals, sg), site
                Y = E(y)
                want = (np.mean([np.sum(z) for z in vals]) + .5) * (Y.max() - Y.min()) + Y.min()
                for q, n, what in ((pn, len(E(Xn)), "new rows"), (px, env.rows, "training rows"), (pt, env.rows, "stored predictions")):
                    if not same(np.asarray(q), np.full(n, want)):
                        return "%s: %s, the constant fit is %s" % (what, q, want), site
            ok = rep.holds("%s, %s sampler" % (name, kind), r, pred, rule="constant-covariates", n=24, rows=(4, 5, 3, 6, 1))
            if ok and rep.obls[-1]["status"] == "undecided" and r.st.dead and not r.why and not r.raises and r.it.limits_hit:
                # no path through the code completes, whatever is drawn: each one calls the same function again
                rep.obls.pop()
                rep.undecided.pop()
                rep.fact("%s, %s sampler" % (name, kind), False, rule="endless-retry", site=site,
                         msg="on every path %s is called again for the same unchangeable tree" % r.it.limits_hit[-1])
