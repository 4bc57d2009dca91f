"""C04 grow and prune keep trees well formed"""
import itertools
import numpy as np
from ..harness import H, vec, mat, sym, same, Ref, Missing, TRUE, literals
from .common import LIB, SHAPES

EXPLAIN = """Shape analysis on the abstract heap: every grow and every prune of every node of six tree shapes, pairs of
operations, chains of splits of eleven levels and more, and the operations proposed by both proposers (all random choices joined) are analysed through tree.mutate; node
collection, links, levels and rows before and after are compared object by object.  Constructing a grow of a non-leaf or
a prune of a non-prunable node must end in TypeError on every path."""

CLIENT = LIB + """
def look(tree):
    return [(n, n.left_child, n.right_child, n.depth, n.split.condition(), type(n) == LeafNode) for n in tree.nodes]

def direct(X, y, shape, cuts, ops, extra):
    tree = build(stump(X, y), shape, cuts)
    out = []
    k = 0
    for op, path in ops:
        before = look(tree)
        node = at(tree, path)
        if op == "G":
            new = split_node(node, pair(k % 2, extra[k]))
            m = GrowMutation(node, new)
        else:
            new = LeafNode(node.split, depth=node.depth)
            m = PruneMutation(node, new)
        k = k + 1
        kids = (node.left_child, node.right_child)
        mutate(tree, m)
        out.append((op, node, new, kids, (new.left_child, new.right_child), before, look(tree)))
    return out

def proposed(X, y, shape, cuts, sampler):
    tree = build(stump(X, y), shape, cuts)
    before = look(tree)
    got = sampler.proposer.propose(tree)
    ms = [got]
    if type(got) == list:
        ms = got
    out = []
    for m in ms:
        before = look(tree)
        node = m.existing_node
        kids = (node.left_child, node.right_child)
        mutate(tree, m)
        new = m.updated_node
        out.append((m.kind, node, new, kids, (new.left_child, new.right_child), before, look(tree)))
    return out

def default(X, y, shape, cuts, a, b):
    from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    return proposed(X, y, shape, cuts, get_tree_sampler(a, b))

def oblivious(X, y, shape, cuts, a, b):
    from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    return proposed(X, y, shape, cuts, get_tree_sampler(a, b))

def refused(X, y, shape, cuts, op, path, c):
    tree = build(stump(X, y), shape, cuts)
    node = None if path == "none" else at(tree, path)
    leaf = tree.leaf_nodes[0]
    if op == "G":
        return GrowMutation(node, split_node(leaf, pair(0, c)))
    return PruneMutation(node, LeafNode(leaf.split, depth=leaf.depth))

class Fake:
    def __init__(self, t):
        self.children_left = [1, 2, -1, -1, -1]
        self.children_right = [4, 3, -1, -1, -1]
        self.feature = [0, 1, -2, -2, -2]
        self.threshold = t
        self.value = [[[0.1]], [[0.2]], [[0.3]], [[0.4]], [[0.5]]]

def imported(X, y, t):
    from bartpy.initializers.sklearntreeinitializer import map_sklearn_tree_into_bartpy
    tree = stump(X, y)
    map_sklearn_tree_into_bartpy(tree, Fake(t))
    return look(tree)
"""


def wellformed(nodes, X=None):
    refs = [n[0] for n in nodes]
    if len(set(refs)) != len(refs):
        return "a node is listed twice"
    kids = {}
    child_of = {}
    for n, l, r, d, c, leaf in nodes:
        kids[n] = (l, r)
        if (l is None) != (r is None):
            return "a node has only one child"
        if leaf and l is not None:
            return "a leaf has children"
        if not leaf and l is None:
            return "a decision node has no children"
        for x in (l, r):
            if x is not None:
                child_of[x] = child_of.get(x, 0) + 1
    roots = [n for n in refs if n not in child_of]
    if len(roots) != 1:
        return "the collection has %d roots" % len(roots)
    seen, todo = [], [roots[0]]
    while todo:
        n = todo.pop()
        if n in seen:
            return "a node is reachable twice"
        seen.append(n)
        if n not in kids:
            return "a node reachable from the root is missing from the collection"
        for x in kids[n]:
            if x is not None:
                todo.append(x)
    if set(seen) != set(refs):
        return "the collection contains nodes that are not reachable from the root"
    info = {n[0]: n for n in nodes}
    if info[roots[0]][3] != 0:
        return "the root is at level %s" % info[roots[0]][3]
    for n in refs:
        for x in kids[n]:
            if x is not None and info[x][3] != info[n][3] + 1:
                return "a child at level %s below a parent at level %s" % (info[x][3], info[n][3])
    return None


def step_ok(st):
    op, node, new, kids, newkids, before, after = st
    op = {"grow": "G", "prune": "P"}.get(op, op)
    w = wellformed(before)
    if w:
        return "before the change: " + w
    w = wellformed(after)
    if w:
        return "after the change: " + w
    old = {n[0]: n for n in before}
    now = {n[0]: n for n in after}
    gone = {node} | ({k for k in kids} if op == "P" else set())
    come = {new} | ({k for k in newkids} if op == "G" else set())
    want = (set(old) - gone) | come
    if set(now) != want:
        return "the collection after a %s is not the old one with the changed nodes replaced" % {"G": "grow", "P": "prune"}[op]
    for n in set(old) & set(now):
        for s in (1, 2):
            e = old[n][s]
            e = new if e is node else e
            if now[n][s] is not e:
                return "a link of a node that was not changed differs after the change"
        if old[n][3] != now[n][3] or not same(np.asarray(old[n][4]) * 1.0, np.asarray(now[n][4]) * 1.0):
            return "level or rows of another node differ after the change"
    if now[new][3] != old[node][3]:
        return "the replacement is at level %s, the node it replaces was at %s" % (now[new][3], old[node][3])
    if not same(np.asarray(now[new][4]) * 1.0, np.asarray(old[node][4]) * 1.0):
        return "the replacement does not hold the rows of the node it replaces"
    return None


def leaves_of(shape):
    dec = [p for p, _ in shape]
    return [p for p in ([""] + [q + s for q in dec for s in "LR"]) if p not in dec]


def prunable(shape):
    dec = [p for p, _ in shape]
    return [p for p in dec if p + "L" not in dec and p + "R" not in dec]


def run(rep):
    h = H()
    X, y = mat("X"), vec("y")
    cuts = [sym("c%d" % i) for i in range(4)]
    extra = [sym("e%d" % i) for i in range(3)]
    site = lambda: None

    for name, shape in SHAPES.items():
        scripts = [[("G", p)] for p in leaves_of(shape)] + [[("P", p)] for p in prunable(shape)]
        # two operations in a row
        for p in leaves_of(shape):
            s2 = shape + [(p, 0)]
            scripts += [[("G", p), ("P", p)]]
            if rep.tier != "quick" or name in ("one", "full"):
                scripts += [[("G", p), ("G", q)] for q in leaves_of(s2)]
        for p in prunable(shape):
            s2 = [(q, c) for q, c in shape if q != p]
            scripts += [[("P", p), ("G", p)]]
            scripts += [[("P", p), ("P", q)] for q in prunable(s2)]
        for sc in scripts:
            r = h.client(CLIENT, "direct", args=[X, y, [tuple(s) for s in shape], cuts, [tuple(s) for s in sc], extra])

            def pred(env, o, r=r, sc=sc):
                if o.kind != "ok":
                    return "fails with %s" % o.exc, o.site
                for st in r.get(env, r.value):
                    w = step_ok(st)
                    if w:
                        return "%s: %s" % (sc, w), msite
            msite = None
            for e in r.events:
                if e.kind == "setattr" and e.data[1] in ("_left_child", "_right_child") and "mutate" in e.site[2]:
                    msite = e.site
            if msite is None:
                msite = ("bartpy/tree.py", 0, "mutate")
            rep.holds("%s %s" % (name, sc), r, pred, rule="tree-shape", n=4)

    # trees as deep as the constants of the code suggest a change of behaviour, and at least eleven levels
    far = max([10] + [k + 1 for k in literals(modules=["bartpy.node", "bartpy.tree", "bartpy.mutation", "bartpy.split", "bartpy.splitcondition"], lo=4, hi=24)])
    deep_cuts = [sym("d%d" % i) for i in range(far)]
    for way, turn in (("left", "L"), ("right", "R"), ("zigzag", "LR")):
        p, sc = "", []
        for i in range(far):
            sc.append(("G", p))
            p += turn[i % len(turn)]
        sc += [("P", p[:-1]), ("P", p[:-2])]
        r = h.client(CLIENT, "direct", args=[X, y, [], cuts, sc, deep_cuts + extra])

        def deep(env, o, r=r, way=way):
            if o.kind != "ok":
                return "a tree of %d levels: fails with %s" % (far, o.exc), o.site
            for i, st in enumerate(r.get(env, r.value)):
                w = step_ok(st)
                if w:
                    return "step %d of a chain of splits going %s: %s" % (i + 1, way, w), ("bartpy/tree.py", 0, "mutate")
        rep.holds("deep tree going %s" % way, r, deep, rule="tree-shape", n=2)

    pg, pp = sym("pg", "unit"), sym("pp", "unit")
    # which columns can be split is C06's business: here every column of every node is taken to be splittable
    h = H()
    h.it.stubs["bartpy.data.is_not_constant"] = lambda it, st, a, k, s: TRUE
    for name, shape in SHAPES.items():
        for entry in ("default", "oblivious"):
            r = h.client(CLIENT, entry, args=[X, y, [tuple(s) for s in shape], cuts, pg, pp])

            def pred2(env, o, r=r):
                if o.kind != "ok":
                    return "proposing or applying fails with %s" % o.exc, o.site
                for st in r.get(env, r.value):
                    w = step_ok(st)
                    if w:
                        return "%s proposal: %s" % (st[0], w)
            rep.holds("proposed on %s (%s)" % (name, entry), r, pred2, rule="proposed-shape", n=rep.nval, rows=(6, 8, 12), err_ok=True)

    for name, shape in SHAPES.items():
        dec = [p for p, _ in shape]
        bad = [("G", p) for p in dec] + [("P", p) for p in leaves_of(shape)] + [("P", p) for p in dec if p not in prunable(shape)]
        if name == "stump":
            bad += [("G", "none"), ("P", "none")]
        for op, p in bad:
            r = h.client(CLIENT, "refused", args=[X, y, [tuple(s) for s in shape], cuts, op, p, extra[0]])

            def pred3(env, o, op=op, p=p):
                if o.kind != "raise" or "TypeError" not in o.classes:
                    return "%s of node %r ends in %s instead of a TypeError" % ({"G": "growing", "P": "pruning"}[op], p, o.exc or "a mutation object")
            rep.holds("refused %s %s %r" % (name, op, p), r, pred3, rule="mutation-refused", n=3)

    r = h.client(CLIENT, "imported", args=[X, y, cuts + [sym("c4")]])

    def pred4(env, o):
        if o.kind != "ok":
            return "importing a tree fails with %s" % o.exc, o.site
        v = r.get(env, r.value)
        w = wellformed(v)
        if w:
            return "imported tree: " + w
        M, t = env.sym(X), [env.sym(c) for c in cuts]
        exp = sorted([tuple(x.astype(int)) for x in (np.ones(len(M), bool), M[:, 0] <= t[0], M[:, 0] > t[0],
                                                       (M[:, 0] <= t[0]) & (M[:, 1] <= t[1]), (M[:, 0] <= t[0]) & (M[:, 1] > t[1]))])
        if sorted(tuple(np.asarray(n[4]).astype(int)) for n in v) != exp:
            return "imported tree routes rows differently from the tree it was imported from"
    rep.holds("imported tree", r, pred4, rule="imported-shape", n=10)
