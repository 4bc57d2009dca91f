"""C01 target scaling"""
import numpy as np
from ..harness import H, vec, mat, sym, same

EXPLAIN = """Value-flow summary of Data/Target construction, the inverse map, Model.unnormalized_residuals and of
SklearnModel.fit (noise scale) for a symbolic target vector, compared with the affine map onto [-0.5, 0.5] and its
inverse by random interpretation (vectors of 2..6 rows, with and without ties)."""

CLIENT = """
from bartpy.data import Data, make_bartpy_data
from bartpy.model import Model
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel

class Still:
    def step(self, model, tree):
        return None

def data(X, y, z):
    d = Data(X, y, normalize=True)
    return d.y.values, d.y.unnormalized_y, d.y.unnormalize_y(z), d.y.normalizing_scale

def made(X, y, z):
    d = make_bartpy_data(X, y)
    return d.y.values, d.y.unnormalized_y, d.y.unnormalize_y(z), d.y.normalizing_scale

def plain(X, y):
    return Data(X, y).y.values, Data(X, y, normalize=False).y.values, make_bartpy_data(X, y, normalize=False).y.values

def residual(X, y, a, b, c):
    d = Data(X, y, normalize=True)
    s = Sigma(a, b, d.y.normalizing_scale)
    m = Model(d, s, n_trees=2, initializer=None)
    for t in m.trees:
        for l in t.leaf_nodes:
            l.set_value(c)
    s.set_value(a)
    return m.unnormalized_residuals(), s.current_unnormalized_value(), m.residuals()

def fit(X, y, a, b):
    m = SklearnModel(n_trees=2, n_chains=1, n_samples=1, n_burn=0, thin=1.0, n_jobs=1, sigma_a=a, sigma_b=b,
                     store_in_sample_predictions=True, tree_sampler=Still())
    m.fit(X, y)
    s = m.model_samples[0].sigma
    return m.data.y.values, s.current_value(), s.current_unnormalized_value(), m.data.y.normalizing_scale
"""


def affine(y):
    return (y - y.min()) / (y.max() - y.min()) - 0.5


def run(rep):
    h = H()
    X, y, z = mat("X"), vec("y", distinct=True), vec("z")

    def ok(env):
        v = env.sym(y)
        return len(set(v.tolist())) > 1 and v.max() - v.min() > 1e-6

    for entry in ("data", "made"):
        r = h.client(CLIENT, entry, args=[X, y, z])

        def pred(env, o):
            if o.kind != "ok":
                return "scaling fails with %s" % o.exc, o.site
            vals, back, inv, scale = r.value.args
            Y, Z = env.sym(y), env.sym(z)
            if not same(r.get(env, vals), affine(Y)):
                return "scaled target is %s, expected %s for %s" % (r.get(env, vals), affine(Y), Y), vals
            if not same(r.get(env, back), Y):
                return "mapping the scaled target back gives %s, not %s" % (r.get(env, back), Y), back
            if not same(r.get(env, inv), (Z + 0.5) * (Y.max() - Y.min()) + Y.min()):
                return "unnormalize_y(%s) = %s for a target in [%s, %s]" % (Z, r.get(env, inv), Y.min(), Y.max()), inv
            if not same(r.get(env, scale), Y.max() - Y.min()):
                return "normalizing scale is %s, target range is %s" % (r.get(env, scale), Y.max() - Y.min()), scale
        rep.holds("scaled target (%s)" % entry, r, pred, rule="affine-scaling", pre=ok)

    r2 = h.client(CLIENT, "plain", args=[X, y])

    def pred2(env, o):
        if o.kind != "ok":
            return "fails with %s" % o.exc, o.site
        for v in r2.value.args:
            if not same(r2.get(env, v), env.sym(y)):
                return "unscaled data reports target %s instead of %s" % (r2.get(env, v), env.sym(y)), v
    rep.holds("normalisation off", r2, pred2, rule="unscaled")

    a, b, c = sym("a", "pos"), sym("b", "pos"), sym("c")
    r3 = h.client(CLIENT, "residual", args=[X, y, a, b, c])

    def pred3(env, o):
        if o.kind != "ok":
            return "fails with %s" % o.exc, o.site
        un, sig, res = r3.value.args
        Y, C = env.sym(y), env.sym(c)
        rng = Y.max() - Y.min()
        e = Y - ((2 * C + 0.5) * rng + Y.min())
        if not same(r3.get(env, un), e):
            return "residuals in original units are %s, expected %s" % (r3.get(env, un), e), un
        if not same(r3.get(env, res), affine(Y) - 2 * C):
            return "scaled residuals are %s, expected %s" % (r3.get(env, res), affine(Y) - 2 * C), res
        if not same(r3.get(env, sig), env.sym(a) * rng):
            return "noise level in original units is %s, expected %s" % (r3.get(env, sig), env.sym(a) * rng), sig
    rep.holds("residuals and noise in original units", r3, pred3, rule="unscaled-report", pre=ok)

    r4 = h.client(CLIENT, "fit", args=[X, y, a, b])

    def pred4(env, o):
        if o.kind != "ok":
            return "fit fails with %s" % o.exc, o.site
        vals, cur, un, sc = r4.value.args
        Y = env.sym(y)
        rng = Y.max() - Y.min()
        if not same(r4.get(env, vals), affine(Y)):
            return "the fitted model works on %s instead of %s" % (r4.get(env, vals), affine(Y)), vals
        if not same(r4.get(env, sc), rng):
            return "the fitted model's scale is %s, target range %s" % (r4.get(env, sc), rng), sc
        if not same(r4.get(env, un), r4.get(env, cur) * rng):
            return "a retained sample reports noise %s in original units, expected %s" % (r4.get(env, un), r4.get(env, cur) * rng), un
    rep.holds("estimator scaling", r4, pred4, rule="estimator-scaling", pre=ok)
