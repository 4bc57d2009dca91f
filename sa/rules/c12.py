"""C12 score of a growth (client shared with C11)"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, literals
from .common import LIB, SHAPES, summarise_distinctness
from .c05 import masks

EXPLAIN = """Closed form of the log score of a growth, as computed by both tree samplers for trees of several shapes (every leaf
grown in turn), symbolic covariates and targets, thresholds taken from the rows, symbolic noise level, k, alpha, beta and move
probabilities, compared with the posterior ratio of the property computed from the rows of the nodes."""

CLIENT = LIB + """
def ratio_of(kind, probs):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
    else:
        from bartpy.samplers.oblivioustrees.likihoodratio import UniformTreeMutationLikihoodRatio
    if probs is None:
        return UniformTreeMutationLikihoodRatio()
    return UniformTreeMutationLikihoodRatio(probs)

def scores(X, y, shape, path, col, kind, probs, alpha, beta, k, s0, ntrees, tgt, back):
    tree = stump(X, y)
    i = 0
    for p, c in shape:
        grow(tree, at(tree, p), c, X[i, c])
        i = i + 1
    sigma = Sigma(2., 3., 1.)
    sigma.set_value(s0)
    trees = [tree] + [stump(X, y) for j in range(ntrees - 1)]
    model = Model(Data(X, y), sigma, trees=trees, alpha=alpha, beta=beta, k=k)
    if tgt is not None:
        tree.update_y(tgt)
    leaf = at(tree, path)
    d = split_node(leaf, pair(col, X[i, col]))
    g = GrowMutation(leaf, d)
    rt = ratio_of(kind, probs)
    up = rt.log_probability_ratio(model, tree, g)
    if not back:
        return up, None, tree.nodes[0].data.y.values
    mutate(tree, g)
    down = rt.log_probability_ratio(model, tree, PruneMutation(d, LeafNode(d.split, depth=d.depth)))
    return up, down, tree.nodes[0].data.y.values
"""

PATHS = {"stump": [""], "one": ["L", "R"], "left": ["LL", "LR", "R"], "right": ["L", "RL", "RR"], "full": ["LL", "RR"], "chain": ["LRL", "LL", "R"]}


def setup(env, X, shape, path, col):
    """masks of all nodes of the tree and of the two new leaves; Vacuous unless the growth is a proper split"""
    M = env.sym(X)
    if len(M) <= len(shape):
        raise Vacuous()
    cuts = [M[i, c] for i, (p, c) in enumerate(shape)]
    t = M[len(shape), col]
    mk = masks(M, shape, cuts)
    own = mk[path]
    if not own[len(shape)] or not t < M[own, col].max():
        raise Vacuous()
    for i, (p, c) in enumerate(shape):
        if not mk[p][i] or not cuts[i] < M[mk[p], c].max():
            raise Vacuous()
    L, R = own & (M[:, col] <= t), own & (M[:, col] > t)
    return M, mk, own, L, R


def splittable(M, mask):
    return any(len(set(M[mask, c].tolist())) > 1 for c in range(M.shape[1]))


def cases(tier):
    for name in ("stump", "one", "left", "right", "full") + (("chain",) if tier == "thorough" else ()):
        for path in PATHS[name]:
            for col in (0, 1):
                if name in ("left", "right", "full") and tier == "quick" and col == (len(path) + path.count("L")) % 2:
                    continue
                yield name, path, col


def deep():
    """a chain of splits deeper than any level the score functions single out: shape, path of its deepest leaf, covariates"""
    k = [c for c in literals(modules=["bartpy.samplers.unconstrainedtree", "bartpy.samplers.oblivioustrees", "bartpy.node", "bartpy.tree"], lo=3, hi=14)]
    d = max([c for c in k if c <= 8] + [6]) + 2
    r = np.random.RandomState(3)
    col = [d + 1. - i for i in range(d + 1)] + [d + 2., 0., 0.5, 0.25]
    return [("L" * i, 0) for i in range(d)], "L" * d, np.column_stack([col, np.round(r.normal(size=len(col)) * 2)])


def args():
    X, y = mat("X"), vec("y")
    return X, y, [sym("pg", "unit"), sym("pp", "unit")], sym("alpha", "unit"), sym("beta", "pos"), sym("k", "pos"), sym("s0", "pos"), vec("t")


def run(rep):
    h = H()
    summarise_distinctness(h)
    X, y, probs, alpha, beta, k, s0, tgt = args()
    for kind in ("default", "oblivious"):
        site = ("bartpy/samplers/%s/likihoodratio.py" % ("unconstrainedtree" if kind == "default" else "oblivioustrees"), 0, "UniformTreeMutationLikihoodRatio")
        dshape, dpath, dX = deep()
        for ci, (name, path, col) in enumerate(list(cases(rep.tier)) + [("deep", dpath, 0)]):
            shape = SHAPES[name] if name != "deep" else dshape
            nt = 1 + ci % 3
            defp = name == "stump" and col == 1
            r = h.client(CLIENT, "scores", args=[X, y, [tuple(s) for s in shape], path, col, kind, None if defp else probs, alpha, beta, k, s0, nt, tgt, False], budget=45 if name != "deep" else 150)

            def pred(env, o, r=r, shape=shape, path=path, col=col, nt=nt, defp=defp, kind=kind):
                if len(set(env.sym(y).tolist())) < 2:
                    raise Vacuous()
                M, mk, own, L, R = setup(env, X, shape, path, col)
                if o.kind != "ok":
                    return "scoring a growth fails with %s" % o.exc, o.site
                got = r.get(env, r.value.args[0])
                Y = env.sym(tgt)
                a, b, K, s = [env.sym(q) for q in (alpha, beta, k, s0)]
                if not a < 1:
                    raise Vacuous()
                pg, pp = (0.5, 0.5) if defp else [env.sym(q) for q in probs]
                v, vm = s * s, (0.5 / (K * np.sqrt(nt))) ** 2

                def ml(m):
                    n = m.sum()
                    return 0.5 * np.log(v / (v + n * vm)) + vm / (2 * v) * Y[m].sum() ** 2 / (v + n * vm)
                lik = ml(L) + ml(R) - ml(own)
                d = len(path)
                ps = lambda q: a * (1. + q) ** -b
                prior = np.log(ps(d)) + 2 * np.log(1 - ps(d + 1)) - np.log(1 - ps(d))
                move = np.log(pp / pg)
                if kind == "default":
                    inner = set(p for p, _ in shape)
                    leaves = [p for p in mk if p not in inner]
                    grow = sum(splittable(M, mk[p]) for p in leaves)
                    after = inner | {path}
                    prunable = sum(p + "L" not in after and p + "R" not in after for p in after)
                    move += np.log(grow / prunable)
                want = lik + prior + move
                if not np.isfinite(want):
                    raise Vacuous()
                if not same(got, want):
                    return "log score %.9g, posterior ratio %.9g (likelihood %.5g, tree prior %.5g, moves %.5g; leaf at level %d, %d trees)" % (got, want, lik, prior, move, d, nt), site
            rep.holds("score %s %s %r column %d" % (kind, name, path, col), r, pred, rule="posterior-ratio", pre=lambda env, s=shape, p=path, c=col: bool(setup(env, X, s, p, c)), rows=(8, 10, 12, 7, 6) if name != "deep" else (len(dX),), n=rep.nval * (2 if len(shape) < 2 else 6 if name != "full" else 20) if name != "deep" else 10, over={"X": dX} if name == "deep" else None)
