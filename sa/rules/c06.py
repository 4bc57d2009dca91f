"""C06 available columns and proposed splits"""
import itertools
import numpy as np
from ..harness import H, const, vec, mat, sym, same, TRUE, Vacuous, T
from .common import LIB, SHAPES, summarise_distinctness
from .c05 import masks

EXPLAIN = """Summaries of the set of available columns of every node along chains of up to two splits (with every order of
asking parent and child), and of the split proposed by both proposers for root and non-root leaves, for symbolic
covariates of 1..5 rows; compared with 'at least two distinct values among the node's own rows' and with the
range conditions on the proposed threshold.  Choice of leaves is analysed with free splittability per leaf and column."""

CLIENT = LIB + """
def info(node):
    X = node.data.X
    cols = X.splittable_variables()
    return [c in cols for c in range(2)], X.is_at_least_one_splittable_variable(), X.n_splittable_variables

def chain(X, y, shape, cuts, ask):
    tree = stump(X, y)
    if ask == "first":
        info(tree.nodes[0])
    k = 0
    for path, col in shape:
        d = grow(tree, at(tree, path), col, cuts[k])
        if ask == "each":
            info(d)
            info(d.left_child)
        k = k + 1
    nodes = [at(tree, "")]
    for path, col in shape:
        nodes = nodes + [at(tree, path + "L"), at(tree, path + "R")]
    out = [info(n) for n in nodes]
    return out, [[l.is_splittable(), info(l)[1]] for l in tree.leaf_nodes], [info(n) for n in nodes]

def child(X, y, shape, cuts, path):
    t = build(stump(X, y), shape, cuts)
    return Tree([at(t, path)])

def sampler(kind, a, b):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
        return get_tree_sampler(a, b)
    from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    return get_tree_sampler(a, b)

def cond(n):
    c = n.split.most_recent_split_condition()
    return c.splitting_variable, c.splitting_value

def propose(X, y, shape, cuts, path, kind, a, b):
    tree = child(X, y, shape, cuts, path)
    got = sampler(kind, a, b).proposer.propose(tree)
    ms = [got]
    if type(got) == list:
        ms = got
    return [(cond(m.updated_node.left_child), cond(m.updated_node.right_child), m.updated_node.left_child.split.condition(),
             m.updated_node.right_child.split.condition(), m.existing_node.split.condition()) for m in ms]

def pick(X, y, shape, cuts, kind, a, b):
    tree = build(stump(X, y), shape, cuts)
    got = sampler(kind, a, b).proposer.propose(tree)
    ms = [got]
    if type(got) == list:
        ms = got
    return tree.leaf_nodes, [(m.kind, m.existing_node) for m in ms], [[c in l.data.X.splittable_variables() for c in range(2)] for l in tree.leaf_nodes], \\
        [(cond(m.updated_node.left_child)[0] if m.kind == "grow" else None) for m in ms]

def ask_variable(X, y, shape, cuts, path):
    leaf = child(X, y, shape, cuts, path).nodes[0]
    return leaf.data.X.random_splittable_variable()

def ask_value(X, y, shape, cuts, path, col):
    leaf = child(X, y, shape, cuts, path).nodes[0]
    return leaf.data.X.random_splittable_value(col)

def ask_split(X, y, shape, cuts, path, kind):
    leaf = child(X, y, shape, cuts, path).nodes[0]
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.proposer import sample_split_node
    else:
        from bartpy.samplers.oblivioustrees.proposer import sample_split_node
    return sample_split_node(leaf)

def ask_leaf(X, y, shape, cuts):
    from bartpy.samplers.unconstrainedtree.proposer import random_splittable_leaf_node
    tree = build(stump(X, y), shape, cuts)
    return random_splittable_leaf_node(tree), tree.leaf_nodes

def ask_function(v):
    from bartpy.data import is_not_constant
    return is_not_constant(v)
"""


def avail(M, mask):
    return [len(set(M[mask, c].tolist())) > 1 for c in range(2)]


def run(rep):
    h = H()
    X, y = mat("X"), vec("y")
    cuts = [sym("c%d" % i) for i in range(4)]
    rows = (4, 5, 3, 2, 1)

    r0 = h.client(CLIENT, "ask_function", args=[vec("s", rows="S", small=True)])

    def pred0(env, o):
        if o.kind != "ok":
            return "fails with %s" % o.exc, o.site
        v = env.vals["s"] if "s" in env.vals else env.sym(vec("s", rows="S", small=True))
        if bool(r0.get(env, r0.value)) != (len(set(v.tolist())) > 1):
            return "%s is reported as %s" % (v, "not constant" if r0.get(env, r0.value) else "constant"), ("bartpy/data.py", 0, "is_not_constant")
    rep.holds("distinctness of a column", r0, pred0, rule="distinctness", n=rep.nval * 3)

    # from here on the callee is represented by the summary just decided: more than one distinct value
    h = H()
    summarise_distinctness(h)
    for name in ("stump", "one", "left", "right"):
        shape = SHAPES[name]
        for ask in ("first", "each", "last"):
            r = h.client(CLIENT, "chain", args=[X, y, [tuple(s) for s in shape], cuts, ask])

            def pred(env, o, r=r, shape=shape):
                if o.kind != "ok":
                    return "fails with %s" % o.exc, o.site
                M = env.sym(X)
                mk = masks(M, shape, [env.sym(c) for c in cuts])
                paths = [""] + [p + s for p, _ in shape for s in "LR"]
                a, l, b = [r.get(env, x) for x in r.value.args]
                for which in (a, b):
                    for p, (cols, any_, n) in zip(paths, which):
                        e = avail(M, mk[p])
                        if [bool(c) for c in cols] != e:
                            return "node %r with rows %s: columns available %s, expected %s" % (p, M[mk[p]].tolist(), [bool(c) for c in cols], e), ("bartpy/data.py", 0, "CovariateMatrix.splittable_variables")
                        if bool(any_) != any(e) or int(n) != sum(e):
                            return "node %r: splittable=%s count=%s, expected %s and %s" % (p, any_, n, any(e), sum(e)), ("bartpy/data.py", 0, "CovariateMatrix")
                for s, t in l:
                    if bool(s) != bool(t):
                        return "a leaf calls itself %s splittable" % ("" if s else "not")
            rep.holds("available columns %s asked %s" % (name, ask), r, pred, rule="available-columns", rows=rows)

    pg, pp = sym("pg", "unit"), sym("pp", "unit")
    for kind in ("default", "oblivious"):
        for shape, path in (([], ""), ([("", 0)], "L"), ([("", 1)], "R")):
            r = h.client(CLIENT, "propose", args=[X, y, [tuple(s) for s in shape], cuts, path, kind, pg, pp])

            def pred2(env, o, r=r, shape=shape, path=path):
                M = env.sym(X)
                mk = masks(M, shape, [env.sym(c) for c in cuts])[path]
                e = avail(M, mk)
                if o.kind != "ok":
                    if any(e):
                        return "proposing a split fails with %s on %s" % (o.exc, M[mk].tolist()), o.site
                    raise Vacuous()
                for (v, t), (v2, t2), lm, rm, own in r.get(env, r.value):
                    if int(v) != int(v2) or not same(t, t2):
                        return "the two sides of a proposed split use different rules"
                    if not e[int(v)]:
                        return "a split on column %s is proposed, but its rows are %s" % (v, M[mk].tolist())
                    col = M[mk, int(v)]
                    if not any(same(t, q) for q in col) or not t < col.max():
                        return "threshold %s is proposed for a node with values %s" % (t, col.tolist())
                    if not np.any(lm) or not np.any(rm):
                        return "a proposed split leaves a child without rows"
            rep.holds("proposed split %s %r" % (kind, path), r, pred2, rule="proposed-split", rows=(4, 5, 3, 2), n=rep.nval * 2)

        for fn in ("ask_split",):
            for shape, path in (([], ""), ([("", 0)], "R")):
                r = h.client(CLIENT, fn, args=[X, y, [tuple(s) for s in shape], cuts, path, kind])

                def pred3(env, o, shape=shape, path=path):
                    M = env.sym(X)
                    e = avail(M, masks(M, shape, [env.sym(c) for c in cuts])[path])
                    if any(e):
                        if o.kind != "ok":
                            return "asking for a split fails with %s although columns %s are available" % (o.exc, e), o.site
                    elif o.kind == "ok" or "NoSplittableVariableException" not in o.classes:
                        return "asking for a split of a leaf without usable column ends in %s" % (o.exc or "a result"), o.site
                rep.holds("%s %s %r" % (fn, kind, path), r, pred3, rule="no-split-error", rows=(4, 3, 2, 1), n=rep.nval)

    for shape, path in (([], ""), ([("", 0)], "L")):
        r = h.client(CLIENT, "ask_variable", args=[X, y, [tuple(s) for s in shape], cuts, path])

        def pred4(env, o, r=r, shape=shape, path=path):
            M = env.sym(X)
            e = avail(M, masks(M, shape, [env.sym(c) for c in cuts])[path])
            if o.kind == "ok":
                if not e[int(r.get(env, r.value))]:
                    return "column %s is chosen, available are %s" % (r.get(env, r.value), e)
            elif any(e) or "NoSplittableVariableException" not in o.classes:
                return "choosing a column ends in %s, available are %s" % (o.exc, e), o.site
        rep.holds("chosen column %r" % path, r, pred4, rule="chosen-column", rows=(4, 3, 2, 1))
        for col in (0, 1):
            r = h.client(CLIENT, "ask_value", args=[X, y, [tuple(s) for s in shape], cuts, path, col])

            def pred5(env, o, r=r, shape=shape, path=path, col=col):
                M = env.sym(X)
                mk = masks(M, shape, [env.sym(c) for c in cuts])[path]
                e = avail(M, mk)
                if o.kind == "ok":
                    t = r.get(env, r.value)
                    q = M[mk, col]
                    if not e[col] or not any(same(t, z) for z in q) or not t < q.max():
                        return "threshold %s is chosen for values %s" % (t, q.tolist())
                elif e[col] or "NoSplittableVariableException" not in o.classes:
                    return "choosing a threshold ends in %s, values are %s" % (o.exc, M[mk, col].tolist()), o.site
            rep.holds("chosen threshold %r column %d" % (path, col), r, pred5, rule="chosen-threshold", rows=(4, 3, 2, 1))

    # which leaf is chosen, splittability left free
    for kind in ("default", "oblivious"):
        for name in ("stump", "one", "left"):
            hh = H()
            free = {}

            def stub(it, st, a, k, s):
                v = it.pure(st, a[0])
                if v.id not in free:
                    free[v.id] = sym("free%d" % len(free), "bool")
                return free[v.id]
            hh.it.stubs["bartpy.data.is_not_constant"] = stub
            r = hh.client(CLIENT, "pick", args=[X, y, [tuple(s) for s in SHAPES[name]], cuts, kind, pg, pp])

            def pred6(env, o, r=r):
                if o.kind != "ok":
                    raise Vacuous()
                leaves, ms, e, cols = [r.get(env, x) for x in r.value.args]
                for (k, node), c in zip(ms, cols):
                    if k != "grow":
                        continue
                    i = [j for j, l in enumerate(leaves) if l is node]
                    if not i:
                        return "a grow is proposed for a node that is not a leaf of the tree"
                    if not any(e[i[0]]):
                        return "a leaf without available column is grown"
                    if not e[i[0]][int(c)]:
                        return "a leaf is grown on a column that is not available there"
            rep.holds("chosen leaf %s %s" % (kind, name), r, pred6, rule="grown-leaf", rows=(8, 12), n=rep.nval * 2, err_ok=True)
