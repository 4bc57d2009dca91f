"""C13 proposing and scoring leave the model unchanged"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided
from .common import LIB, SHAPES, summarise_distinctness

EXPLAIN = """Two identical models with symbolic data are built; on one of them proposals are generated (random choices are free) and
scored by both tree samplers, several times; every observable of its trees (node identities, kinds, links, levels, leaf values,
rows, targets, sums, split rules, training and new-data predictions) and its noise level are compared with those before and with
those of the untouched twin, for several tree shapes."""

CLIENT = LIB + """
def sampler(kind, a, b):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    else:
        from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    return get_tree_sampler(a, b)

def model_of(X, y, shape, cuts, vals, s0, tgt, n):
    trees = [build(stump(X, y), shape, cuts) for i in range(n)]
    k = 0
    for t in trees:
        for l in t.leaf_nodes:
            l.set_value(vals[k % 3] + k)
            k = k + 1
        t.update_y(tgt)
    sigma = Sigma(2., 3., 1.)
    sigma.set_value(s0)
    return Model(Data(X, y), sigma, trees=trees)

def node_state(tree, path):
    n = at(tree, path)
    c = n.split.combined_condition().splits if hasattr(n.split.combined_condition(), "splits") else None
    return (type(n) == LeafNode, n.depth, n.data.X.n_obsv, n.data.y.values + 0., n.data.y.summed_y(), n.split.condition(), n.split.condition(n.data.X.values),
            n.current_value if type(n) == LeafNode else 0., [cc.splitting_value for cc in c] if c is not None else 0, n.data.X.values + 0.)

def state(model, paths):
    return [[[node_state(t, p) for p in paths], len(t.nodes), t.predict() + 0., t.predict(t.nodes[0].data.X.values)] for t in model.trees] + \\
        [model.sigma.current_value(), model.sigma.alpha, model.sigma.beta, model.data.y.values + 0., model.predict() + 0., model.alpha, model.beta, model.k, model.sigma_m]

def after_state(model, paths):
    try:
        return state(model, paths)
    except Exception as e:
        return None

def ids(model):
    return [[n for n in t.nodes] for t in model.trees], [[(n.left_child, n.right_child, n.split, n.data) for n in t.nodes] for t in model.trees]

def go(X, y, shape, paths, cuts, vals, s0, tgt, kind, a, b, times, look):
    m, twin = model_of(X, y, shape, cuts, vals, s0, tgt, 2), model_of(X, y, shape, cuts, vals, s0, tgt, 2)
    if look:
        before = state(m, paths)
    else:
        before = state(twin, paths)
    i0 = ids(m)
    only_one = {"grow": sampler(kind, 1., 0.), "prune": sampler(kind, 0., 1.)}
    s = sampler(kind, a, b)
    kinds = []
    for k in times:
        got = only_one[k].proposer.propose(m.trees[0])
        if type(got) != list:
            got = [got]
        for p in got:
            s.likihood_ratio.log_probability_ratio(m, m.trees[0], p)
            kinds.append(p.kind)
    return before, state(m, paths), i0, ids(m), kinds

def decide(X, y, shape, paths, cuts, vals, s0, tgt, kind, a, b, times, look):
    m, twin = model_of(X, y, shape, cuts, vals, s0, tgt, 2), model_of(X, y, shape, cuts, vals, s0, tgt, 2)
    before = state(twin, paths)
    i0 = ids(m)
    sampler(kind, a, b).sample(m, m.trees[0])
    return before, state(m, paths), i0, ids(m), []

class Given:
    def __init__(self, what, cut, col):
        self.what, self.cut, self.col = what, cut, col
    def propose(self, t):
        if self.what == "grow":
            leaf = [l for l in t.leaf_nodes][0]
            return GrowMutation(leaf, split_node(leaf, pair(self.col, self.cut)))
        n = [n for n in t.prunable_decision_nodes][-1]
        return PruneMutation(n, LeafNode(n.split, depth=n.depth))

class Half:
    def sample(self):
        return 0.5

def given(X, y, shape, paths, cuts, vals, s0, tgt, kind, a, b, what, col, look):
    # the decision about one explicit change, whatever it is, changes nothing yet
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    else:
        from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler
    m, twin = model_of(X, y, shape, cuts, vals, s0, tgt, 2), model_of(X, y, shape, cuts, vals, s0, tgt, 2)
    before = state(m, paths) if look else state(twin, paths)
    i0 = ids(m)
    g = Given(what, cuts[3], col)
    if kind != "default":
        g2 = g
        class Many:
            def propose(self, t):
                return [g2.propose(t)]
        g = Many()
    UnconstrainedTreeMutationSampler(g, sampler(kind, a, b).likihood_ratio, scalar_sampler=Half()).sample(m, m.trees[0])
    return before, after_state(m, paths), i0, ids(m), []

def only(X, y, shape, paths, cuts, vals, s0, tgt, kind, a, b, what, col):
    # scoring one explicit change, every component on its own
    m, twin = model_of(X, y, shape, cuts, vals, s0, tgt, 2), model_of(X, y, shape, cuts, vals, s0, tgt, 2)
    before = state(twin, paths)
    i0 = ids(m)
    r = sampler(kind, a, b).likihood_ratio
    t = m.trees[0]
    if what == "grow":
        leaf = [l for l in t.leaf_nodes][-1]
        p = GrowMutation(leaf, split_node(leaf, pair(col, cuts[3])))
    else:
        n = [n for n in t.prunable_decision_nodes][0]
        p = PruneMutation(n, LeafNode(n.split, depth=n.depth))
    r.log_likihood_ratio(m, t, p)
    r.log_transition_ratio(t, p)
    r.log_tree_ratio(m, t, p)
    return before, state(m, paths), i0, ids(m), [p.kind]
"""


def sameish(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(sameish(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (int, float, np.number)):
        return same(a, b)
    return a is b or a == b


FIELDS = ["kind", "level", "row count", "target", "target sum", "rows", "rows of new data", "leaf value", "thresholds", "covariates"]


def differ(a, b):
    for i, (s, t) in enumerate(zip(a[:2], b[:2])):
        if s[1] != t[1]:
            return "tree %d has %s nodes instead of %s" % (i, t[1], s[1])
        for j, (p, q) in enumerate(zip(s[0], t[0])):
            for f, u, v in zip(FIELDS, p, q):
                if not sameish(u, v):
                    return "the %s of node %d of tree %d becomes %s instead of %s" % (f, j, i, v, u)
        if not sameish(s[2], t[2]):
            return "the training predictions of tree %d become %s instead of %s" % (i, t[2], s[2])
        if not sameish(s[3], t[3]):
            return "the new-data predictions of tree %d become %s instead of %s" % (i, t[3], s[3])
    for f, u, v in zip(["noise level", "noise prior", "noise prior", "training target", "prediction", "alpha", "beta", "k", "leaf prior"], a[2:], b[2:]):
        if not sameish(u, v):
            return "the model's %s becomes %s instead of %s" % (f, v, u)


def run(rep):
    h = H()
    summarise_distinctness(h)
    X, y, tgt = mat("X"), vec("y"), vec("t")
    cuts = [sym("c%d" % i) for i in range(4)]
    vals = [sym("v%d" % i) for i in range(3)]
    s0, a, b = sym("s0", "pos"), sym("pg", "unit"), sym("pp", "unit")

    def check(name, r, rule):
        def pred(env, o):
            if len(set(env.sym(y).tolist())) < 2 or o.kind != "ok":
                raise Vacuous()
            before, after, i0, i1, kinds = [r.get(env, q) for q in r.value.args]
            if after is None:
                return "the model can no longer be read"
            d = differ(before, after)
            if d:
                return d
            for s, t in zip(i0[0], i1[0]):
                if len(s) != len(t) or any(p is not q for p, q in zip(s, t)):
                    return "a tree holds other nodes afterwards"
            for s, t in zip(i0[1], i1[1]):
                for p, q in zip(s, t):
                    for f, u, v in zip(("left child", "right child", "split", "data"), p, q):
                        if u is not v and not (u is None and v is None):
                            return "the %s of a node is another object afterwards" % f
        rep.holds(name, r, pred, rule=rule, rows=(5, 6, 8), err_ok=True, site=("bartpy/samplers", 0, "proposer/likihoodratio"))

    for name in ("stump", "one", "left", "full"):
        shape = SHAPES[name]
        paths = [""] + [p + s for p, _ in shape for s in "LR"]
        base = [X, y, [tuple(s) for s in shape], paths, cuts, vals, s0, tgt]
        for kind in ("default", "oblivious"):
            for times, look in ((["grow"], True), (["grow"], False), (["prune"], False), (["grow", "grow"], False), (["grow", "prune"], False)):
                if name == "stump" and "prune" in times or len(times) == 2 and not (rep.tier == "thorough" or name == "stump" or times[1] == "prune" and kind == "default" and name == "one"):
                    continue
                if times == ["grow", "grow"] or rep.tier == "quick" and name == "left" and look:
                    continue
                if name == "full" and times == ["grow"] and rep.tier == "quick":
                    continue
                check("%s %s proposals=%s look=%s" % (kind, name, "+".join(times), look), h.client(CLIENT, "go", args=base + [kind, a, b, times, look], budget=40), "proposal-is-pure")
            for what in ("grow", "prune"):
                if what == "prune" and name == "stump":
                    continue
                for col in (0, 1) if what == "grow" else (0,):
                    check("%s %s score %s column %d" % (kind, name, what, col), h.client(CLIENT, "only", args=base + [kind, a, b, what, col]), "score-is-pure")
                if name in ("one", "full"):
                    check("%s %s decision about %s" % (kind, name, what), h.client(CLIENT, "given", args=base + [kind, a, b, what, 0, name == "full"], budget=40), "decision-is-pure")
            if name == "stump" or name == "one" and kind == "default":
                check("%s %s sampled" % (kind, name), h.client(CLIENT, "decide", args=base + [kind, a, b, 1, False], budget=40), "decision-is-pure")
