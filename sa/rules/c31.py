"""C31 proposals are drawn from the distribution their score assumes"""
import numpy as np
from .. import evalt
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, literals
from .common import LIB, SHAPES, summarise_distinctness
from .c05 import masks

EXPLAIN = """The gated value of a proposal is a function of the discrete draws it makes (kind, leaf or node, column, row of the threshold).
All outcomes of these draws are enumerated with their probabilities on the value graph, for trees of several shapes and symbolic
covariates (with and without ties, with unusable columns and leaves), and the resulting exact distribution over (kind, node, column,
threshold) is compared with the one the property states.  Probability mass of redraws beyond the analysed number of repetitions is
accounted for as an interval: stated probability must lie between the mass found and that plus the mass cut off."""

CLIENT = LIB + """
def sampler(kind, a, b):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
        return get_tree_sampler(a, b)
    from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    return get_tree_sampler(a, b)

def cond(n):
    c = n.split.most_recent_split_condition()
    return c.splitting_variable, c.splitting_value

def propose(X, y, shape, paths, kind, a, b, skip):
    tree = stump(X, y)
    i = 0
    for p, c in shape:
        grow(tree, at(tree, p), c, X[i, c])
        i = i + 1
    s = sampler(kind, a, b).proposer
    for j in range(skip):
        s.propose(tree)
    got = s.propose(tree)
    ms = [got]
    if type(got) == list:
        ms = got
    return [at(tree, p) for p in paths], [(m.kind, m.existing_node, cond(m.updated_node.left_child) if m.kind == "grow" else None) for m in ms]
"""


def expected(M, shape, pg, pp, kind):
    """{outcome: probability}; for the oblivious sampler the outcomes are per leaf, given a growth"""
    cuts = [M[i, c] for i, (p, c) in enumerate(shape)]
    mk = masks(M, shape, cuts)
    inner = [p for p, _ in shape]
    leaves = [p for p in mk if p not in inner]
    cols = {p: [c for c in range(M.shape[1]) if len(set(M[mk[p], c].tolist())) > 1] for p in leaves}
    growable = [p for p in leaves if cols[p]]
    prunable = [p for p in inner if p + "L" not in inner and p + "R" not in inner]

    def rule(p):
        out = {}
        for c in cols[p]:
            v = M[mk[p], c]
            v = v[v < v.max()]
            for t in v:
                k = (c, round(float(t), 9))
                out[k] = out.get(k, 0) + 1 / len(cols[p]) / len(v)
        return out
    return mk, growable, prunable, {p: rule(p) for p in growable}


def valid(M, shape):
    if len(M) <= len(shape):
        return False
    cuts = [M[i, c] for i, (p, c) in enumerate(shape)]
    mk = masks(M, shape, cuts)
    return all(mk[p][i] and cuts[i] < M[mk[p], c].max() for i, (p, c) in enumerate(shape))


WIDE = [np.array([[0., 4., 1.], [2., 4., 3.], [2., 4., 5.], [5., 4., 1.], [7., 4., 2.]]),      # middle column unusable
        np.array([[3., 1., 1.], [3., 2., 3.], [3., 2., 5.], [3., 4., 1.], [3., 0., 2.]]),      # first column unusable
        np.array([[0., 1., 6.], [2., 2., 6.], [2., 4., 6.], [5., 4., 6.], [7., 4., 6.]])]      # last column unusable

FIVE = np.array([[0., 1., 6., 3., 1.], [2., 2., 4., 5., 8.], [1., 0., 5., 4., 8.]])
COLS = {4: FIVE[:, [4, 2, 0, 3]], 5: FIVE}
for _k in [k + d for k in literals(modules=["bartpy.data", "bartpy.samplers"], lo=4, hi=12) for d in (0, 1)][:4]:
    COLS.setdefault(_k, np.array([[(i * (j + 2) + j * j) % 7 for j in range(_k)] for i in range(3)], dtype=float))


def run(rep):
    X, y = mat("X", cols=3), vec("y")
    cases = []
    for kind in ("default", "oblivious"):
        for i, name in enumerate(("stump", "one", "left", "right", "full")):
            if kind == "oblivious" and name not in ("stump", "one"):
                continue
            for a, b in ((.9, .1),) if not i else ((.7, .3), (.25, .75)) if i % 2 or rep.tier == "thorough" else ((.4, .6),):
                cases.append((kind, name, a, b, 0))
    for kind, name, a, b, skip in cases:
        h = H()
        summarise_distinctness(h)
        shape = SHAPES[name]
        paths = [""] + [p + s for p, _ in shape for s in "LR"]
        site = ("bartpy/samplers/%s/proposer.py" % ("unconstrainedtree" if kind == "default" else "oblivioustrees"), 0, "UniformMutationProposer")
        r = h.client(CLIENT, "propose", args=[X, y, [tuple(s) for s in shape], paths, kind, a, b, skip], budget=60)

        def pred(env, o, r=r, shape=shape, paths=paths, kind=kind, a=a, b=b):
            M = env.sym(X)
            mk, growable, prunable, rules = expected(M, shape, a, b, kind)
            if not growable and not prunable or len(shape) == 0 and not growable:
                raise Vacuous()

            def one(e):
                o = r.outcome(e)
                if o.kind != "ok":
                    return "fails with %s" % o.exc, o.site
                nodes, ms = [r.get(e, q) for q in r.value.args]
                pos = {n: p for p, n in zip(paths, nodes)}
                return [(k, pos.get(n), (int(c[0]), round(float(c[1]), 9)) if c is not None else None) for k, n, c in ms]
            found, cut, approx = {}, 0., 0
            marg = {}
            for p, v, q in evalt.outcomes(env, one, 6000):
                approx = max(approx, q)
                if v is Vacuous:
                    cut += p
                    continue
                if isinstance(v, tuple):
                    return "proposing %s" % v[0], v[1]
                if kind == "default":
                    found[v[0]] = found.get(v[0], 0) + p
                else:
                    if not v:
                        if growable and prunable:
                            return "nothing is proposed although the tree can be grown and pruned", site
                        continue
                    ks = {m[0] for m in v}
                    if len(ks) != 1:
                        return "one proposal mixes %s" % sorted(ks), site
                    k = ks.pop()
                    ns = sorted("?" if m[1] is None else m[1] for m in v)
                    if ns != sorted(growable if k == "grow" else prunable):
                        return "a %s is proposed for the nodes %s, possible ones are %s" % (k, ns, growable if k == "grow" else prunable), site
                    found[k] = found.get(k, 0) + p
                    for m in v:
                        marg[m] = marg.get(m, 0) + p
            tol = cut + 1e-9 + 4. * approx / evalt.GRID
            if tol > 0.2:
                raise Undecided("too much of the distribution is outside the bounds: %.3f" % tol)
            ga = a if prunable else 1.
            gb = b if growable else 1.
            want = {}
            if kind == "default":
                for p in growable:
                    for k, w in rules[p].items():
                        want[("grow", p, k)] = ga * w / len(growable)
                for p in prunable:
                    want[("prune", p, None)] = gb / len(prunable)
            else:
                if growable and prunable:
                    want = {"grow": ga, "prune": gb}
                else:                # whether the impossible kind is redrawn or proposes nothing is left open
                    want = {"grow": found.get("grow", 0.) if growable else 0., "prune": found.get("prune", 0.) if prunable else 0.}
                    ga, gb = want["grow"], want["prune"]
                for p in growable:
                    for k, w in rules[p].items():
                        marg.setdefault(("grow", p, k), 0.)
                        want[("grow", p, k)] = ga * w
                for p in prunable:
                    want[("prune", p, None)] = gb
                found.update(marg)
            for k in sorted(set(found) | set(want), key=repr):
                f, w = found.get(k, 0.), want.get(k, 0.)
                low = tol if kind == "oblivious" and not (growable and prunable) else 1e-9 + 4. * approx / evalt.GRID
                if not f - low <= w <= f + tol:
                    return "%s is proposed with probability %.4f, its score assumes %.4f (rows %s)" % (k, f, w, M.tolist()), site
        if name == "stump":
            hw = H()
            summarise_distinctness(hw)
            for many, data in sorted(COLS.items()):
                rw = hw.client(CLIENT, "propose", args=[mat("X", cols=many), y, [], paths, kind, a, b, skip], budget=60)
                rep.holds("%s sampler, %d columns" % (kind, many), rw, lambda env, o, rw=rw, pred=pred: pred(env, o, r=rw), rule="proposal-distribution", n=3, enough=1, rows=(3,), over={"X": data})
            for i, M in enumerate(WIDE):
                rep.holds("%s sampler, three columns, %d" % (kind, i), r, pred, rule="proposal-distribution", n=8, enough=1, rows=(len(M),), over={"X": M})
        rep.holds("%s sampler, %s tree, p=(%s, %s)%s" % (kind, name, a, b, " after a draw" if skip else ""), r, pred, rule="proposal-distribution",
                  n=40 * (1 + 2 * len(shape)) * (4 if rep.tier == "thorough" else 1), rows=(5, 6, 7, 6) if kind == "default" else (5, 4, 5), pre=lambda env, s=shape: valid(env.sym(X), s),
                  enough=(9 if not shape else 20 if len(shape) < 2 else 9 if len(shape) < 3 else 4) * (4 if rep.tier == "thorough" else 1))
