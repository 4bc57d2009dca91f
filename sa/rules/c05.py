"""C05 predictions"""
import itertools
import numpy as np
from ..harness import H, vec, mat, sym, same, TRUE
from ..interp import RArr
from .common import LIB, SHAPES

EXPLAIN = """Value-flow summaries of Tree.predict and Model.predict for training rows and for symbolic new rows, for every
history of up to three operations {predict, predict new rows, grow, prune, new target, new leaf values} before the final
prediction (training rows, new rows, the training matrix given as new rows, frames); compared with the per-row sum of the values of the leaves whose split conditions the row satisfies
(random interpretation).  Staleness is decided on the abstract heap: a remembered vector that survives a structural change
or a new target shows up as a different term."""

CLIENT = LIB + """
def setall(tree, vals, k):
    for leaf in tree.leaf_nodes:
        leaf.set_value(vals[k])
        k = k + 1
    return k

def leaves(tree):
    return [(l.split.condition(), l.current_value, l.predict()) for l in tree.leaf_nodes]

def single(X, y, new, shape, cuts, vals, paths):
    tree = build(stump(X, y), shape, cuts)
    setall(tree, vals, 0)
    return [(at(tree, p).split.condition(), at(tree, p).current_value, at(tree, p).predict()) for p in paths], tree.predict(), tree.predict(new), \
        len(tree.leaf_nodes)

def history(X, y, new, cuts, vals, ys, ops):
    tree = stump(X, y)
    k, c, u = 0, 0, 0
    k = setall(tree, vals, k)
    for op in ops:
        if op == "p":
            tree.predict()
        elif op == "n":
            tree.predict(new)
        elif op == "g":
            grow(tree, tree.leaf_nodes[0], c % 2, cuts[c])
            c = c + 1
            k = setall(tree, vals, k)
        elif op == "s":
            # structure only: the new leaves keep their initial value
            grow(tree, tree.leaf_nodes[0], c % 2, cuts[c])
            c = c + 1
        elif op == "x":
            prune(tree, tree.prunable_decision_nodes[0])
            k = setall(tree, vals, k)
        elif op == "u":
            tree.update_y(ys[u])
            u = u + 1
            k = setall(tree, vals, k)
        elif op == "v":
            # leaf values alone: what is remembered for training rows may stay, predictions for given rows may not
            k = setall(tree, vals, k)
    info = leaves(tree)
    return info, tree.predict() if ops[-1] != "v" else None, tree.predict(new), tree.predict(tree.nodes[0].data.X.values), tree.predict(X), [l.split.condition(new) for l in tree.leaf_nodes]

def ensemble(X, y, new, a, b, cuts, vals, pa, pb):
    data = Data(X, y)
    t1 = build(Tree([LeafNode(Split(deepcopy(data)))]), a, cuts)
    t2 = build(Tree([LeafNode(Split(deepcopy(data)))]), b, cuts[1:])
    t3 = Tree([LeafNode(Split(deepcopy(data)))])
    k = 0
    for t in (t1, t2, t3):
        k = setall(t, vals, k)
    m = Model(data, Sigma(1.0, 1.0, 1.0), trees=[t1, t2, t3])
    return [[at(t, p).current_value for p in ps] for t, ps in ((t1, pa), (t2, pb), (t3, [""]))], m.predict(), m.predict(new), m.predict(), [leaves(t) for t in m.trees]
"""


def masks(M, shape, cuts):
    """rows of every node of a shape"""
    out = {"": np.ones(len(M), dtype=bool)}
    for (p, c), t in zip(shape, cuts):
        out[p + "L"] = out[p] & (M[:, c] <= t)
        out[p + "R"] = out[p] & (M[:, c] > t)
    return out


def run(rep):
    h = H()
    X, y, N = mat("X"), vec("y"), mat("new", rows="M")
    cuts = [sym("c%d" % i) for i in range(6)]
    vals = [sym("v%d" % i) for i in range(40)]
    ys = [vec("y%d" % i) for i in range(4)]

    def value(leaves, n):
        p = np.zeros(n)
        for c, v, q in leaves:
            p[np.asarray(c).astype(bool)] = v
        return p

    def new_value(leaves_train, info):
        return None

    def paths(shape):
        dec = [p for p, _ in shape]
        return [p for p in [""] + [q + z for q in dec for z in "LR"] if p not in dec]

    XI, NI = mat("XI", what="int"), mat("newI", rows="M", what="int")
    for (name, shape), (X, N) in list(itertools.product(SHAPES.items(), [(X, N)])) + list(itertools.product(list(SHAPES.items())[:3], [(XI, NI), (X, NI)])):
        r = h.client(CLIENT, "single", args=[X, y, N, [tuple(s) for s in shape], cuts, vals, paths(shape)])

        def pred(env, o, r=r, shape=shape, X=X, N=N):
            if o.kind != "ok":
                return "predicting fails with %s" % o.exc, o.site
            info, p, q, n = [r.get(env, x) for x in r.value.args]
            t = [env.sym(c) for c in cuts]
            tr, nw = masks(env.sym(X), shape, t), masks(env.sym(N), shape, t)
            e, f = np.zeros(len(env.sym(X))), np.zeros(len(env.sym(N)))
            if n != len(info):
                return "%d leaves, expected %d" % (n, len(info))
            for path, (c, v, w) in zip(paths(shape), info):
                if not same(v, w):
                    return "a leaf with value %s predicts %s" % (v, w)
                e[tr[path]] = v
                f[nw[path]] = v
            if not same(p, e):
                return "training prediction %s, leaf values give %s" % (p, e), r.value.args[1]
            if not same(q, f):
                return "prediction for new rows %s, expected %s" % (q, f), r.value.args[2]
        rep.holds("tree %s%s" % (name, "" if N is not NI else " integer covariates" if X is XI else " integer new covariates"), r, pred, rule="tree-prediction")
    X, N = mat("X"), mat("new", rows="M")

    ops = "pngsxuv"
    maxlen = 3 if rep.tier == "quick" else 4
    seqs = []
    for n in range(1, maxlen + 1):
        for s in itertools.product(ops, repeat=n):
            g = 0
            ok = True
            for c in s:
                if c in "gs":
                    g += 1
                if c == "x":
                    g -= 1
                    ok = ok and g >= 0
            # leaf values are only (re)set together with a new target or structure
            if ok and ("p" in s) and s[-1] != "n" and ("v" not in s or (s[-1] == "v" and s.count("v") == 1)):
                seqs.append(s)
    for s in seqs:
        r = h.client(CLIENT, "history", args=[X, y, N, cuts, vals, ys, list(s)])

        def pred2(env, o, r=r, s=s):
            if o.kind != "ok":
                return "fails with %s" % o.exc, o.site
            info, p, q, w, w2, cn = [r.get(env, x) for x in r.value.args]
            e = value(info, len(env.sym(X)))
            f = value([(c, i[1], i[2]) for c, i in zip(cn, info)], len(env.sym(N)))
            for z in (w, w2):
                if not same(z, e):
                    return "after %s the prediction for the training covariates is %s, the current leaves give %s" % (" ".join(s), z, e), ("bartpy/tree.py", 0, "Tree.predict")
            if not same(q, f):
                return "after %s the prediction for new rows is %s, the current leaves give %s" % (" ".join(s), q, f), ("bartpy/tree.py", 0, "Tree.predict")
            if s[-1] != "v" and not same(p, e):
                return "after %s the training prediction is %s, the current leaves give %s" % (" ".join(s), p, e), ("bartpy/tree.py", 0, "Tree.predict")
        rep.holds("history %s" % "".join(s), r, pred2, rule="stale-prediction", n=6)

    for (a, b), F in itertools.product((("one", "left"), ("full", "one"), ("stump", "right")), (N, mat("newF", rows="M", frame=True))):
        if F is not N and a == "full":
            continue
        r = h.client(CLIENT, "ensemble", args=[X, y, F, [tuple(s) for s in SHAPES[a]], [tuple(s) for s in SHAPES[b]], cuts, vals, paths(SHAPES[a]), paths(SHAPES[b])])

        def pred3(env, o, r=r, a=a, b=b, F=F):
            if o.kind != "ok":
                return "fails with %s" % o.exc, o.site
            info, p, q, p2, lv = [r.get(env, x) for x in r.value.args]
            e = sum(value(i, len(env.sym(X))) for i in lv)
            for z in (p, p2):
                if not same(z, e):
                    return "ensemble prediction %s, the trees sum to %s" % (z, e), r.value.args[1]
            t = [env.sym(c) for c in cuts]
            M = env.sym(F)
            M = getattr(M, "values", M)
            f = np.zeros(len(M))
            for shape, tt, inf in ((SHAPES[a], t, info[0]), (SHAPES[b], t[1:], info[1]), ([], t, info[2])):
                nw = masks(M, shape, tt)
                for path, v in zip(paths(shape), inf):
                    f[nw[path]] += v
            if not same(q, f):
                return "ensemble prediction for new rows %s, the trees sum to %s" % (q, f), r.value.args[2]
        rep.holds("ensemble %s+%s%s" % (a, b, "" if F is N else " frame"), r, pred3, rule="ensemble-prediction")
