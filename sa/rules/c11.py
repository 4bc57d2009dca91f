"""C11 growth and exact undo have opposite scores"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous
from .common import SHAPES, summarise_distinctness
from .c12 import CLIENT, PATHS, setup, cases, args, splittable, deep

EXPLAIN = """Closed forms of the log score of a growth and of the log score, in the grown tree, of the prune undoing it, for both
tree samplers, trees of several shapes (every leaf grown in turn), symbolic data with and without ties so that either, both or
none of the new leaves can be split again; their sum has to be zero."""


def run(rep):
    h = H()
    summarise_distinctness(h)
    X, y, probs, alpha, beta, k, s0, tgt = args()
    for kind in ("default", "oblivious"):
        site = ("bartpy/samplers/%s/likihoodratio.py" % ("unconstrainedtree" if kind == "default" else "oblivioustrees"), 0, "UniformTreeMutationLikihoodRatio")
        dshape, dpath, dX = deep()
        for ci, (name, path, col) in enumerate(list(cases(rep.tier)) + [("deep", dpath, 0)]):
            shape = SHAPES[name] if name != "deep" else dshape
            nt = 1 + ci % 2
            r = h.client(CLIENT, "scores", args=[X, y, [tuple(s) for s in shape], path, col, kind, probs, alpha, beta, k, s0, nt, tgt, True], budget=45 if name != "deep" else 150)
            tally = {}

            def pred(env, o, r=r, shape=shape, path=path, col=col, tally=tally):
                if len(set(env.sym(y).tolist())) < 2 or not env.sym(alpha) < 1:
                    raise Vacuous()
                M, mk, own, L, R = setup(env, X, shape, path, col)
                if o.kind != "ok":
                    return "scoring a growth or its undo fails with %s" % o.exc, o.site
                up, down = [r.get(env, q) for q in r.value.args[:2]]
                if not np.isfinite(up) and not np.isfinite(down):
                    raise Vacuous()
                key = (splittable(M, L), splittable(M, R))
                tally[key] = tally.get(key, 0) + 1
                if not same(up + down, 0.0) and not abs(up + down) < 1e-9 * abs(up):
                    return "growth scores %.9g, its undo %.9g: sum %.6g (new leaves splittable: %s, %s)" % (up, down, up + down, key[0], key[1]), site
            rep.holds("undo %s %s %r column %d" % (kind, name, path, col), r, pred, rule="reversibility", pre=lambda env, s=shape, p=path, c=col: bool(setup(env, X, s, p, c)), rows=(8, 10, 12, 7, 6) if name != "deep" else (len(dX),), n=rep.nval * (3 if len(shape) < 2 else 8 if name != "full" else 25) if name != "deep" else 10, over={"X": dX} if name == "deep" else None)
            rep.samples.append({"case": "%s %s %r %d" % (kind, name, path, col), "splittable pairs met": {str(a): b for a, b in tally.items()}})
