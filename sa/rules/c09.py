"""C09 full conditionals of leaf values and noise"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, rands
from .common import LIB, SHAPES
from .c05 import masks

EXPLAIN = """Closed form of the leaf draw and of the noise draw as computed by the code (value summaries of LeafNodeSampler.step
and SigmaSampler.step for trees of several shapes, symbolic data, noise level, k and prior parameters, the standard normal
variate a free symbol and the gamma variate identified by its draw) compared with the conditionals of the property; the
stored and the returned value are compared as well."""

CLIENT = LIB + """
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.sigma import SigmaSampler

class Z:
    def __init__(self, z):
        self.z = z
    def sample(self):
        return self.z

def model_of(X, y, shapes, cuts, vals, k, sigma, s0):
    sigma.set_value(s0)
    trees = [build(stump(X, y), s, cuts) for s in shapes]
    i = 0
    for t in trees:
        for l in t.leaf_nodes:
            l.set_value(vals[i % 3] + i)
            i = i + 1
    return Model(Data(X, y), sigma, trees=trees, k=k)

def leaf(X, y, shapes, path, cuts, vals, k, s0, z, fresh):
    m = model_of(X, y, shapes, cuts, vals, k, Sigma(2., 3., 1.), s0)
    if fresh:
        for t in m.refreshed_trees():
            pass
    tree = m.trees[0]
    node = at(tree, path)
    others = [(l, l.current_value) for l in tree.leaf_nodes if l is not node]
    tgt = tree.nodes[0].data.y.values + 0.
    got = LeafNodeSampler(scalar_sampler=Z(z)).step(m, node)
    return got, node.current_value, tgt, [l.current_value == v for l, v in others], m.sigma.current_value()

def noise(X, y, shapes, cuts, vals, k, a, b, s0, scale):
    sigma = Sigma(a, b, scale)
    m = model_of(X, y, shapes, cuts, vals, k, sigma, s0)
    pred = m.predict() + 0.
    got = SigmaSampler().step(m, sigma)
    return got, sigma.current_value(), pred, m.data.y.values, m.sigma.current_value(), sigma.alpha, sigma.beta, sigma.current_unnormalized_value()
"""


def run(rep):
    h = H()
    X, y = mat("X"), vec("y")
    cuts = [sym("c%d" % i) for i in range(4)]
    vals = [sym("v%d" % i) for i in range(3)]
    k, s0, z, a, b, scale = sym("k", "pos"), sym("s0", "pos"), sym("z"), sym("a", "pos"), sym("b", "pos"), sym("scale", "pos")
    leafsite = ("bartpy/samplers/leafnode.py", 0, "LeafNodeSampler.sample")
    sigsite = ("bartpy/samplers/sigma.py", 0, "SigmaSampler.sample")

    def sh(names):
        return [[tuple(s) for s in SHAPES[n]] for n in names]

    cases = [(["stump"], "", False), (["one"], "L", False), (["one", "stump"], "R", True), (["left", "one", "stump"], "LR", True),
             (["stump"] * 5, "", True)]
    for names, path, fresh in cases:
        r = h.client(CLIENT, "leaf", args=[X, y, sh(names), path, cuts, vals, k, s0, z, fresh])

        def pred(env, o, r=r, names=names, path=path):
            Y = env.sym(y)
            M = env.sym(X)
            if len(set(Y.tolist())) < 2:
                raise Vacuous()
            mask = masks(M, SHAPES[names[0]], [env.sym(c) for c in cuts])[path]
            n = int(mask.sum())
            if n == 0:
                raise Vacuous()
            if o.kind != "ok":
                return "redrawing a leaf fails with %s" % o.exc, o.site
            got, stored, tgt, others, sv = [r.get(env, q) for q in r.value.args]
            K, S, Z = env.sym(k), env.sym(s0), env.sym(z)
            pv = (0.5 / (K * np.sqrt(len(names)))) ** 2
            lv = S * S / n
            mean = float(np.mean(np.asarray(tgt)[mask])) * pv / (pv + lv)
            want = mean + Z * np.sqrt(pv * lv / (pv + lv))
            if not same(got, want):
                return "drawn leaf value %.9g, full conditional %.9g (rows %d, trees %d, noise %.4g, k %.4g)" % (got, want, n, len(names), S, K), leafsite
            if not same(stored, got):
                return "the leaf holds %s after drawing %s" % (stored, got), leafsite
            if not all(others):
                return "redrawing one leaf changes another one", leafsite
            if not same(sv, S):
                return "redrawing a leaf changes the noise level", leafsite
        rep.holds("leaf draw %s %r" % ("+".join(names), path), r, pred, rule="leaf-conditional", rows=(5, 4, 6, 3))
        for kk, ss in ((0.02, 1e-3), (40., 1e-3), (0.02, 60.), (40., 60.), (2., 0.02)):
            rep.holds("leaf draw %s %r, k = %s, noise level %s" % ("+".join(names), path, kk, ss), r, pred, rule="leaf-conditional", rows=(5, 40, 6, 3), n=12, over={"k": kk, "s0": ss})

    for names in (["stump"], ["one"], ["one", "left"], ["stump", "one", "right"]):
        r = h.client(CLIENT, "noise", args=[X, y, sh(names), cuts, vals, k, a, b, s0, scale])
        ds = rands(r, r.value)

        def pred2(env, o, r=r, ds=ds):
            if len(set(env.sym(y).tolist())) < 2:
                raise Vacuous()
            if o.kind != "ok":
                return "redrawing the noise level fails with %s" % o.exc, o.site
            got, stored, p, base, mv, a2, b2, un = [r.get(env, q) for q in r.value.args]
            if len(ds) != 1:
                return "%d random draws make up the noise level, expected one gamma draw" % len(ds), sigsite
            d = ds[0]
            short = d.args[0].split(".")[-1]
            if d.args[0].split(".")[0] != "numpy":
                raise Undecided("distribution " + d.args[0])
            if short not in ("gamma", "standard_gamma", "chisquare"):
                return "the noise level is drawn from %s" % d.args[0], sigsite
            res = np.asarray(base) - np.asarray(p)
            shape = env.sym(a) + len(res) / 2.
            rate = env.sym(b) + 0.5 * float(np.sum(res ** 2))
            g = env.rng("rand", d.args[3]).standard_gamma(shape)
            want = (g / rate) ** -0.5
            if not same(got, want):
                return "drawn noise level %.9g, full conditional %.9g (shape %.5g, rate %.5g)" % (got, want, shape, rate), sigsite
            if not same(stored, got) or not same(mv, got):
                return "the model's noise level is %s after drawing %s" % (stored, got), sigsite
            if not same(a2, env.sym(a)) or not same(b2, env.sym(b)):
                return "the noise prior changes with the draw", sigsite
            if not same(un, got * env.sym(scale)):
                return "the noise level in original units is %s, expected %s" % (un, got * env.sym(scale)), ("bartpy/sigma.py", 0, "Sigma.current_unnormalized_value")
        rep.holds("noise draw %s" % "+".join(names), r, pred2, rule="noise-conditional", rows=(5, 4, 6, 3))
        if names == ["one"]:
            # a nearly exact fit and weak priors
            up = np.arange(6) > 2
            for e, bb, aa in ((1e-2, 1e-5, 1e-4), (1e-3, 3e-4, 0.5), (1e-4, 1e-6, 3.), (1e-4, 2., 1e-5)):
                over = {"X": np.column_stack([up * 1., np.arange(6.)]), "y": up * 4. - 1., "c0": 0., "v0": -0.5 + e, "v1": -0.5 - e, "a": aa, "b": bb}
                rep.holds("noise draw %s, error %g, prior %g/%g" % ("+".join(names), e, aa, bb), r, pred2, rule="noise-conditional", rows=(6,), n=4, over=over)
