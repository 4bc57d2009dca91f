"""C14 retained samples are frozen snapshots"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided
from ..terms import NONE, ref
from .common import LIB, SHAPES
from .c13 import sameish

EXPLAIN = """A model with symbolic data, leaf values and settings is retained through the trace logger; observables of the retained
model (new-data predictions per tree and in total, node kinds, links, levels, leaf values, noise level, prior settings) are
compared with those of the live model at that moment and again after the live model has been grown, pruned, re-targeted, given
new leaf values and a new noise level by complete sweeps; retained training predictions are compared likewise.  Ownership: no
object reachable from the retained model is written by the later sweeps."""

CLIENT = LIB + """
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.trace import TraceLogger

class TreeSampler:
    def __init__(self, plan, cut):
        self.k, self.plan, self.cut = 0, plan, cut
    def step(self, model, tree):
        what = self.plan[self.k % len(self.plan)]
        self.k = self.k + 1
        if what == "grow":
            grow(tree, [l for l in tree.leaf_nodes][-1], 0, self.cut)
        if what == "prune":
            prune(tree, [n for n in tree.prunable_decision_nodes][0])
        return None

class LeafSampler:
    def __init__(self, v):
        self.k, self.v = 0, v
    def step(self, model, node):
        self.k = self.k + 1
        node.set_value(self.v * self.k)

class SigmaSampler:
    def __init__(self, v):
        self.v = v
    def step(self, model, sigma):
        sigma.set_value(self.v)

def node_obs(tree, n):
    own = [m for m in tree.nodes]
    leaf = type(n) == LeafNode
    return (leaf, n.depth, n.current_value if leaf else 0., n.left_child is None, n.right_child is None,
            (n.left_child in own) if n.left_child is not None else True, (n.right_child in own) if n.right_child is not None else True,
            len(own))

def obs(model, Xn, pathss):
    out = []
    for t, paths in zip(model.trees, pathss):
        out.append(([node_obs(t, at(t, p)) for p in paths], t.predict(Xn), len(t.leaf_nodes), len(t.decision_nodes)))
    s = model.sigma
    return out, [len(model.trees), model.n_trees, s.current_value(), s.current_unnormalized_value(), s.alpha, s.beta, s.scaling_factor, model.alpha, model.beta, model.k,
                 model.sigma_m, model.predict(Xn)]

def go(X, y, Xn, shapes, pathss, cuts, vals, plan, a, b, k, s0, sa, sb, sf, nv, ns, warm, mark, copier):
    trees = [build(stump(X, y), s, cuts) for s in shapes]
    i = 0
    for t in trees:
        for l in t.leaf_nodes:
            l.set_value(vals[i % 3] + i)
            i = i + 1
    sigma = Sigma(sa, sb, sf)
    sigma.set_value(s0)
    model = Model(Data(X, y), sigma, trees=trees, alpha=a, beta=b, k=k)
    logger = TraceLogger()
    sampler = ModelSampler(SampleSchedule(TreeSampler(plan, cuts[3]), LeafSampler(nv), SigmaSampler(ns)))
    if warm:
        ModelSampler(SampleSchedule(TreeSampler(["none"], cuts[3]), LeafSampler(nv + 7.), SigmaSampler(ns + 1.))).step(model, logger)
    live = obs(model, Xn, pathss)
    pred = logger["In Sample Prediction"](model.predict())
    pred0 = pred + 0.
    if copier == "log":
        snap = logger["Model"](model)
    else:
        from bartpy.model import deep_copy_model
        snap = deep_copy_model(model)
    first = obs(snap, Xn, pathss)
    nodes = [[n for n in t.nodes] for t in model.trees]
    links = [[(n.left_child, n.right_child) for n in t.nodes] for t in model.trees]
    mark()
    sampler.step(model, logger)
    sampler.step(model, logger)
    for t in model.trees:
        t.update_y(X[:, 0])
    mark()
    return live, first, obs(snap, Xn, pathss), pred0, pred, snap, [[n for n in t.nodes] for t in snap.trees], nodes, links
"""


def same_record(a, b):
    if a is b:
        return True
    if b is None or a.kind != b.kind:
        return False
    for f in ("fields", "items", "entries", "val"):
        if hasattr(a, f) and getattr(a, f) != getattr(b, f, None):
            return False
    return True


def reach(run, v):
    st, out, todo = run.st, set(), [v]
    while todo:
        x = todo.pop()
        if x.op == "ref":
            if x.args[0] in out:
                continue
            out.add(x.args[0])
            r = st.heap.get(x.args[0])
            if r is None:
                continue
            if r.kind in ("obj", "ext"):
                todo.extend(r.fields.values())
            elif r.kind in ("list", "set"):
                todo.extend(i for _, i in r.items)
            elif r.kind == "dict":
                for k, w, _ in r.entries:
                    todo += [k, w]
            elif r.kind == "arr" and r.view is not None:
                todo.append(ref(r.view[0]))
        elif x.op in ("tuple", "ite"):
            todo.extend(a for a in x.args if hasattr(a, "op"))
    return out


def run(rep):
    h = H()
    X, y, Xn = mat("X"), vec("y"), mat("Xn")
    cuts = [sym("c%d" % i) for i in range(4)]
    vals = [sym("v%d" % i) for i in range(3)]
    S = [sym("a", "unit"), sym("b", "pos"), sym("k", "pos"), sym("s0", "pos"), sym("sa", "pos"), sym("sb", "pos"), sym("sf", "pos"), sym("nv"), sym("ns", "pos")]
    names = ["number of trees", "number of trees", "noise level", "noise level in original units", "noise prior shape", "noise prior rate", "scale", "alpha", "beta", "k",
             "leaf prior", "prediction"]

    for shs, plan in ((["one"], ["grow"]), (["stump", "one"], ["grow", "prune", "grow", "none"]), (["left", "one"], ["prune", "grow"]), (["one", "stump"], ["none"]), (["full"], ["prune"])):
        pathss = [[""] + [p + s for p, _ in SHAPES[n] for s in "LR"] for n in shs]
        for warm in (False, True):
            marks = []

            def mark(it, st, args, kwargs, site, marks=marks):
                marks.append(dict(st.heap))
                return NONE
            r = h.client(CLIENT, "go", args=[X, y, Xn, [[tuple(s) for s in SHAPES[n]] for n in shs], pathss, cuts, vals, plan] + S + [warm, mark, "log"])

            def pred(env, o, r=r):
                if len(set(env.sym(y).tolist())) < 2:
                    raise Vacuous()
                if o.kind != "ok":
                    return "retaining a sample fails with %s" % o.exc, o.site
                live, first, later, p0, p, _, sn, ln, links = [r.get(env, q) for q in r.value.args]
                site = ("bartpy/model.py", 0, "deep_copy_model")
                for which, s, t in (("at the moment it is retained", live, first), ("after later sampling", live, later)):
                    for i, (u, v) in enumerate(zip(s[0], t[0])):
                        if not sameish(u, v):
                            what = "nodes" if not sameish(u[0], v[0]) else "new-data predictions" if not sameish(u[1], v[1]) else "node counts"
                            return "%s the retained sample's tree %d has %s %s, the model had %s" % (which, i, what, v[["nodes", "new-data predictions"].index(what)] if what != "node counts" else v[2:], u[["nodes", "new-data predictions"].index(what)] if what != "node counts" else u[2:]), site
                    for n, u, v in zip(names, s[1], t[1]):
                        if not sameish(u, v):
                            return "%s the retained sample's %s is %s, the model's was %s" % (which, n, v, u), site
                if not same(np.asarray(p0), np.asarray(p)):
                    return "a retained vector of training predictions changes from %s to %s with later sampling" % (p0, p), ("bartpy/model.py", 0, "Model.predict")
                for s, l in zip(sn, ln):
                    if any(a is b for a in s for b in l):
                        return "a node of the live model is part of the retained sample", site
            ok = rep.holds("snapshot %s then %s warm=%s" % ("+".join(shs), "/".join(plan), warm), r, pred, rule="frozen-snapshot", rows=(5, 4, 6))
            if not ok or not marks or r.value.op != "tuple":
                continue
            if len(marks) != 2:
                continue
            mine = reach(r, r.value.args[5]) | reach(r, r.value.args[4])
            bad = [o for o in mine if o in marks[0] and not same_record(marks[0][o], marks[1].get(o))]
            # a write to a shared object need not be visible (a memo, say): only the comparison above can be an alarm
            rep.fact("ownership %s then %s warm=%s (%d objects of the retained sample not written by later sweeps)" % ("+".join(shs), "/".join(plan), warm, len(mine)),
                     None if bad else True, msg="later sampling writes %d objects that are part of the retained sample" % len(bad))
