"""C03 row counts and sums"""
import itertools
import numpy as np
from ..harness import H, vec, mat, sym, same

EXPLAIN = """For every order of the operations {split left child, split right child, ask for sums, replace the target (tree-wide; by another array or by new
content of the same one)}
up to length four on a symbolic data set, the summaries of each node's row count, target vector and target sum are compared
with count and sum over the node's own mask (random interpretation)."""

CLIENT = """
from operator import le, gt
from bartpy.data import Data
from bartpy.mutation import GrowMutation
from bartpy.node import LeafNode, split_node
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition
from bartpy.tree import Tree, mutate

def grow(tree, leaf, var, val):
    d = split_node(leaf, (SplitCondition(var, val, le), SplitCondition(var, val, gt)))
    mutate(tree, GrowMutation(leaf, d))
    return d

def reuse(X, y, y2, val, cut):
    # one pair of conditions, used to split several nodes
    pair = (SplitCondition(0, val, le), SplitCondition(0, val, gt))
    a = split_node(LeafNode(Split(Data(X, y))), pair)
    tree = Tree([LeafNode(Split(Data(X, y)))])
    grow(tree, tree.nodes[0], 1, cut)
    leaves = [n for n in tree.leaf_nodes]
    ds = [split_node(leaf, pair) for leaf in leaves]
    mutate(tree, GrowMutation(leaves[0], ds[0]))
    tree.update_y(y2)
    ds.append(split_node(tree.leaf_nodes[0], pair))
    nodes = [n for n in tree.nodes] + [c for d in ds for c in (d.left_child, d.right_child)]
    return [(n.split.condition(), n.data.X.n_obsv, n.data.y.values, n.data.y.summed_y(), n.data.y.summed_y()) for n in nodes], len(tree.nodes)

def main(X, y, ys, ops, vals, norm, buf):
    tree = Tree([LeafNode(Split(Data(X, y, normalize=norm)))])
    k = 0
    level = 0
    leaf = tree.nodes[0]
    top = leaf
    for op in ops:
        if op == "L" or op == "R":
            d = grow(tree, leaf, level % 2, vals[level])
            if level == 0:
                top = d
            level = level + 1
            leaf = d.left_child if op == "L" else d.right_child
        elif op == "S":
            for n in tree.nodes:
                n.data.y.summed_y()
        elif op == "U":
            tree.update_y(ys[k])
            k = k + 1
        elif op == "B":
            # the same array object with new content
            buf[:] = ys[k]
            tree.update_y(buf)
            k = k + 1
    return [(n.split.condition(), n.data.X.n_obsv, n.data.y.values, n.data.y.summed_y(), n.data.y.summed_y()) for n in tree.nodes]
"""


def run(rep):
    h = H()
    X, y = mat("X"), vec("y", distinct=True)
    ys = [vec("y%d" % i) for i in range(4)]
    ths = [sym("t%d" % i) for i in range(4)]
    L = 4
    seqs = [s for n in range(1, L + 1) for s in itertools.product("LRSU", repeat=n) if any(c in "LR" for c in s) and s.count("L") + s.count("R") <= 3]
    if rep.tier == "quick":
        # drop sequences that repeat an idempotent query
        seqs = [s for s in seqs if "SS" not in "".join(s) and s[-1] != "S"]
    seqs += [tuple(s) for s in ("LB", "LBSB", "LBB", "BLB", "BSLB", "LRBSBB" if rep.tier != "quick" else "LRBSB")]
    for s in seqs:
        for norm in ((False, True) if len(s) <= 2 else (False,)):
            r = h.client(CLIENT, args=[X, y, ys, list(s), ths, norm, vec("buf")])

            def pred(env, o, r=r, s=s, norm=norm):
                if o.kind != "ok":
                    return "fails with %s" % o.exc, o.site
                nu = s.count("U") + s.count("B")
                Y = env.sym(ys[nu - 1]) if nu else env.sym(y)
                if not nu and norm:
                    Y = (Y - Y.min()) / (Y.max() - Y.min()) - 0.5
                for i, (c, n, v, sm, sm2) in enumerate(r.get(env, r.value)):
                    c = np.asarray(c).astype(bool)
                    t = r.it.iterate(r.st, r.value)[i][1]
                    if not same(float(n), float(c.sum())):
                        return "after %s node %d reports %s rows but contains %s" % ("".join(s), i, n, c.sum()), t.args[1]
                    if not same(np.asarray(v)[c], Y[c]):
                        return "after %s node %d reports target %s, current target is %s" % ("".join(s), i, np.asarray(v)[c], Y[c]), t.args[2]
                    for q in (sm, sm2):
                        if not same(float(q), float(Y[c].sum())):
                            return "after %s node %d reports target sum %s, its rows sum to %s" % ("".join(s), i, q, Y[c].sum()), t.args[3]
            rep.holds("history %s%s" % ("".join(s), " scaled" if norm else ""), r, pred, rule="node-figures", n=max(6, rep.nval // 6))

    r = h.client(CLIENT, "reuse", args=[X, y, ys[0], ths[0], ths[1]])

    def pred2(env, o):
        if o.kind != "ok":
            return "splitting several nodes by one pair of conditions fails with %s" % o.exc, o.site
        nodes, k = [r.get(env, q) for q in r.value.args]
        for i, (c, n, v, sm, sm2) in enumerate(nodes):
            c = np.asarray(c).astype(bool)
            if not same(float(n), float(c.sum())):
                return "node %d, split by conditions used before, reports %s rows but contains %s" % (i, n, c.sum()), ("bartpy/node.py", 0, "split_node")
            if i < k or i >= k + 4:
                Y = env.sym(ys[0])
                if not same(np.asarray(v)[c], Y[c]) or not same(float(sm), float(Y[c].sum())) or not same(float(sm2), float(Y[c].sum())):
                    return "node %d, split by conditions used before, does not report the current target" % i, ("bartpy/node.py", 0, "split_node")
    rep.holds("conditions used more than once", r, pred2, rule="node-figures", n=max(6, rep.nval // 6))
