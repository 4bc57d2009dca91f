"""C02 splits partition rows; one routing rule for training and new data"""
import itertools
import numpy as np
from ..harness import H, literals, vec, mat, sym, same

EXPLAIN = """Value-flow summaries of every chain of up to three splits over two columns (all column sequences, both sides,
symbolic thresholds, training and new covariates), obtained by abstract interpretation of node.split_node, Split/Data `+`
and CombinedCondition, compared with the conjunction of `<=`/`>` conditions by random interpretation (tied values included).
Other operators must lead to a TypeError exit on every path."""

CLIENT = """
import operator
from operator import le, gt
from bartpy.data import Data
from bartpy.node import LeafNode, split_node
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition

def pair(var, val):
    return SplitCondition(var, val, le), SplitCondition(var, val, gt)

def nodes(X, y, new, cols, values):
    out = []
    root = LeafNode(Split(Data(X, y)))
    out.append((root.split.condition(), root.split.condition(new), root.data.mask))
    def walk(leaf, level):
        if level == len(cols):
            return
        d = split_node(leaf, pair(cols[level], values[level]))
        for child in (d.left_child, d.right_child):
            out.append((child.split.condition(), child.split.condition(new), child.data.mask))
            walk(child, level + 1)
    walk(root, 0)
    return out

def algebra(X, y, new, cols, values):
    # conditions attached to splits one by one, right side first
    out = []
    def walk(split, level):
        out.append((split.condition(), split.condition(new), split.data.mask))
        if level == len(cols):
            return
        for op in (gt, le):
            walk(split + SplitCondition(cols[level], values[level], op), level + 1)
    walk(Split(Data(X, y)), 0)
    return out

def path(X, y, new, cols, values, sides, by_node, shift):
    values = [values[i] + (shift if sides[i] == "l" else -shift) for i in range(len(cols))]
    leaf = LeafNode(Split(Data(X, y)))
    split = leaf.split
    for i in range(len(cols)):
        if by_node:
            d = split_node(leaf, pair(cols[i], values[i]))
            leaf = d.left_child if sides[i] == "l" else d.right_child
            split = leaf.split
        else:
            split = split + SplitCondition(cols[i], values[i], le if sides[i] == "l" else gt)
    return split.condition(), split.condition(new), split.data.mask

def foreign(X, y, v, name):
    op = {"lt": operator.lt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne, "none": None, "text": "<="}[name]
    return Split(Data(X, y)) + SplitCondition(0, v, op)
"""


def expected(X, cols, vals, order):
    out = []

    def walk(mask, level):
        if level == len(cols):
            return
        c = X[:, cols[level]]
        for side in order:
            m = mask & ((c <= vals[level]) if side == "l" else (c > vals[level]))
            out.append(m)
            walk(m, level + 1)
    m0 = np.ones(len(X), dtype=bool)
    out.append(m0)
    walk(m0, 0)
    return out


def run(rep):
    h = H()
    X, N, y = mat("X"), mat("new", rows="M"), vec("y")
    depth = 3
    ths = [sym("t%d" % i) for i in range(depth)]
    chains = list(itertools.product((0, 1), repeat=depth))
    for cols in chains:
        for entry, order in (("nodes", "lr"), ("algebra", "rl")):
            r = h.client(CLIENT, entry, args=[X, y, N, list(cols), ths])

            def pred(env, o, r=r, cols=cols, order=order):
                if o.kind != "ok":
                    return "splitting fails with %s" % o.exc, o.site
                t = [float(env.sym(s)) for s in ths]
                got = r.get(env, r.value)
                for what, k, M in (("training rows", 0, env.sym(X)), ("new rows", 1, env.sym(N))):
                    exp = expected(M, cols, t, order)
                    if len(exp) != len(got):
                        return "%d nodes instead of %d" % (len(got), len(exp))
                    for i, e in enumerate(exp):
                        if not same(np.asarray(got[i][k]).astype(float), e.astype(float)):
                            from ..harness import blame
                            items = r.it.iterate(r.st, r.value)
                            return "node %d of splits on columns %s at %s: %s selected are %s, expected %s of %s" % (
                                i, cols, t, what, np.asarray(got[i][k]).astype(int), e.astype(int), M.tolist()), items[i][1].args[k]
                        if k == 0 and not same(np.asarray(got[i][2]).astype(float), (~e).astype(float)):
                            return "node %d of splits on columns %s at %s: mask %s, expected %s" % (
                                i, cols, t, np.asarray(got[i][2]).astype(int), (~e).astype(int)), r.it.iterate(r.st, r.value)[i][1].args[2]
            rep.holds("routing %s %s" % (entry, "".join(map(str, cols))), r, pred, rule="routing", n=max(12, rep.nval // 3))
    # long chains; their length follows the constants the code compares with
    for n in [5, 8] + [k + 2 for k in literals(modules=["bartpy.splitcondition", "bartpy.split", "bartpy.node", "bartpy.data"], lo=3, hi=40)][:3]:
        for by_node, ncol in ((True, 1), (False, 1), (False, 2), (False, n)):
            W, V = mat("W%d" % ncol, cols=ncol), mat("V%d" % ncol, cols=ncol, rows="M")
            cols = [(i * i + i // 2) % ncol if ncol < n else i for i in range(n)]
            sides = ["lrrl"[(i * 3 + i // 2) % 4] for i in range(n)]
            vs = [sym("w%d" % i) for i in range(n)]
            r = h.client(CLIENT, "path", args=[W, y, V, cols, vs, sides, by_node, 1.0 + n / 6.])

            def predp(env, o, r=r, W=W, V=V, cols=cols, sides=sides, vs=vs, sh=1.0 + n / 6.):
                if o.kind != "ok":
                    return "splitting fails with %s" % o.exc, o.site
                t = [float(env.sym(q)) + (sh if sd == 'l' else -sh) for q, sd in zip(vs, sides)]
                got = [np.asarray(q) for q in r.get(env, r.value)]
                for what, k, M in (("training rows", 0, env.sym(W)), ("new rows", 1, env.sym(V))):
                    e = np.ones(len(M), dtype=bool)
                    for c, v, s in zip(cols, t, sides):
                        e &= (M[:, c] <= v) if s == "l" else (M[:, c] > v)
                    if not same(got[k].astype(float), e.astype(float)) or (k == 0 and not same(got[2].astype(float), (~e).astype(float))):
                        return "after %d splits on columns %s at %s: %s selected are %s, expected %s" % (len(cols), cols, t, what, got[k].astype(int), e.astype(int)), r.value.args[k]
            rep.holds("chain of %d over %d columns %s" % (n, ncol, "nodes" if by_node else "splits"), r, predp, rule="routing", n=rep.nval, rows=(24, 9))
    for name in ("lt", "ge", "eq", "ne", "none", "text"):
        r = h.client(CLIENT, "foreign", args=[X, y, ths[0], name])

        def pred(env, o, name=name):
            if o.kind != "raise" or "TypeError" not in o.classes:
                return "a split condition with comparison %r on training data ends in %s instead of a TypeError" % (name, o.exc or "a result"), o.site
        rep.holds("operator " + name, r, pred, rule="operator-rejected", n=10)
