"""C25 predictions are posterior means in original units; errors follow"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, literals
from .estim import EST

EXPLAIN = """fit, predict, fit_predict, residuals, l2_error and rmse are summarised for symbolic data and a stand-in tree sampler that
grows and prunes in a fixed order (leaf values and noise are the package's own symbolic draws), for one to three chains, all
thinning / storage settings, arrays and frames, a second fit, several data sets at once and both extensions.  The summaries
are compared with the average of the retained samples' own predictions mapped back to the units of the fitted target, and with
the defining formulas of the error measures; predictions must be reproducible and not depend on the order of the questions."""

CLIENT = EST + """
from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS

PLANS = {"grow": ["grow", "none"], "full": ["grow", "none", "grow", "prune"], "stump": ["none"]}

def make(kind, plan, cuts, nt, nc, ns, store, est=None):
    kw = dict(tree_sampler=Scripted(PLANS[plan], cuts), n_trees=nt, n_chains=nc, n_samples=ns, n_burn=1, thin=1., n_jobs=1, initializer=None, store_in_sample_predictions=store)
    if kind == "residual":
        return ResidualBART(base_estimator=est(), **kw)
    if kind == "ols":
        return OLS(stat_model=StatModel, **kw)
    return SklearnModel(**kw)

def members(m, X):
    return [s.predict(X) + 0. for s in m.model_samples]

def raw(X):
    return X.values if hasattr(X, "values") else X

def out(X, y, Xn, plan, cuts, nt, nc, ns, store, how, X2, y2):
    m = make("plain", plan, cuts, nt, nc, ns, store)
    if how == "again":
        m.fit(X2, y2)
        m.predict(X2)
        m.fit(X, y)
    elif how == "runs":
        m = run_models(m, [X2, X, X2], [y2, y, y2])[1]
    elif how == "extract":
        m.fit(X2, y2)
        other = make("plain", plan, cuts, nt, nc, ns, store)
        other.fit(X, y)
        m = m.from_extract(other.extract, X, y)
    else:
        m.fit(X, y)
    a = m.predict(Xn) + 0.
    b = m.predict(Xn) + 0.
    t = m.predict(X) + 0.
    stored = m.predict() + 0. if store else None
    c = m.predict(Xn) + 0.
    return a, b, c, t, stored, members(m, Xn), members(m, raw(X)), [p for p in m.prediction_samples]

class Kept(object):
    def __init__(self, a, b):
        self.a, self.b = a, b
    def predict(self, X=None):
        return np.asarray(X)[:, 0] * self.a + self.b

def given(X, y, Xn, avals, sizes, store):
    # samples of any number of chains put together by the caller
    m = make("plain", "stump", [], 1, 1, 1, store)
    chains, k = [], 0
    for n in sizes:
        models = []
        for _ in range(n):
            models.append(Kept(avals[k], k % 5 - 2.))
            k += 1
        chains.append({"model": models, "in_sample_predictions": [q.predict(raw(X)) for q in models] if store else [], "acceptance": []})
    m = m.from_extract(chains, X, y)
    return m.predict(Xn) + 0., m.predict() + 0. if store else None

def errors(X, y, Xn, yn, kind, plan, cuts, store, est):
    m = make(kind, plan, cuts, 2, 2, 2, store, est)
    m.fit(X, y)
    p, pn = m.predict(X) + 0., m.predict(Xn) + 0.
    out = [m.residuals(X), m.residuals(X, y), m.residuals(Xn, yn), m.l2_error(X, y), m.l2_error(Xn, yn), m.rmse(X, y), m.rmse(Xn, yn), m.l2_error(X)]
    ins = None
    if store:
        ins = [m.predict() + 0., m.residuals(), m.l2_error(), m.residuals(None, y), m.l2_error(None, y), m.rmse(None, y)]
    return p, pn, out, ins

def both(X, y, kind, plan, cuts, store, est):
    m = make(kind, plan, cuts, 2, 2, 2, store, est)
    a = m.fit_predict(X, y) + 0.
    return a, m.predict(X) + 0., m.predict() + 0. if store else None
"""

SK = "bartpy/sklearnmodel.py"


def run(rep):
    h = H()
    cuts = [sym("k0"), sym("k1")]
    from ..terms import T
    EXT = T("ext", "stub.Regressor")

    def prep(env, *ys):
        for q in ys:
            if len(set(env.sym(q).tolist())) < 2:
                raise Vacuous()

    def unit(m, Y):
        lo, hi = Y.min(), Y.max()
        return (np.asarray(m) + 0.5) * (hi - lo) + lo

    def mean(ms, Y):
        return unit(np.mean([np.asarray(m, dtype=float) for m in ms], axis=0), Y)

    configs = [("grow", 1, 1, 1), ("grow", 2, 2, 2), ("full", 2, 3, 1), ("stump", 1, 2, 3), ("full", 1, 1, 4)]
    if rep.tier != "quick":
        configs += [("full", 3, 2, 3), ("grow", 4, 3, 2)]
    sizes = [(1,), (2,), (5,), (12,), (40,), (3, 3), (7, 7, 7, 7), (25,) * 8]
    for k in literals(modules=["bartpy.sklearnmodel"], lo=4, hi=600)[:5]:
        sizes += [(k + 1,), (k // 2 + 1,) * 2] if k < 300 else [(k // 20 + 1,) * 20]
    configs += [("stump", 1, 1, k + 1) for k in literals(modules=["bartpy.sklearnmodel"], lo=4, hi=40)[:2]]
    for frame in (False, True):
        X, y, Xn = mat("X", frame=frame), vec("y"), mat("Xn", rows="Q", frame=frame)
        X2, y2 = mat("X2", rows="R", frame=frame), vec("y2", rows="R")
        for plan, nt, nc, ns in configs:
            for store in (False, True):
                for how in ("once", "again", "runs", "extract"):
                    if ns > 4 and (how != "once" or frame):
                        continue
                    if how in ("again", "extract") and (plan, nt) != ("grow", 2):
                        continue
                    if how == "runs" and plan == "full":
                        continue
                    if frame and (plan, nt) not in (("grow", 2), ("stump", 1)):
                        continue
                    r = h.client(CLIENT, "out", args=[X, y, Xn, plan, cuts, nt, nc, ns, store, how, X2, y2])

                    def pred(env, o):
                        prep(env, y, *([y2] if how != "once" else []))
                        if o.kind != "ok":
                            return "fitting and predicting fails with %s" % o.exc, o.site
                        a, b, c, t, st, mn, mt, ps = r.get(env, r.value)
                        Y = env.sym(y)
                        if len(mn) != nc * ns:
                            raise Undecided("%d samples" % len(mn))
                        site = (SK, 0, "SklearnModel.predict")
                        if not same(a, mean(mn, Y)):
                            return "the prediction for new covariates is %s, the retained samples average to %s" % (a, mean(mn, Y)), site
                        if not same(a, b) or not same(a, c):
                            return "asking twice for the same covariates gives %s and %s" % (a, c), site
                        if not same(t, mean(mt, Y)):
                            return "the prediction for the training covariates is %s, the retained samples average to %s" % (t, mean(mt, Y)), site
                        if store:
                            if len(ps) != nc * ns:
                                raise Undecided("%d stored predictions" % len(ps))
                            if not same(st, mean(ps, Y)):
                                return "the training prediction is %s, the stored predictions average to %s" % (st, mean(ps, Y)), site
                            if not same(st, t):
                                return "the training prediction is %s, predicting the training covariates gives %s" % (st, t), site
                    rep.holds("%s, %s %d trees %d chains %d samples%s%s" % (how, plan, nt, nc, ns, " stored" if store else "", " (frames)" if frame else ""), r, pred, rule="posterior-mean", n=10,
                              site=(SK, 0, "SklearnModel.predict"))
        for sz in sizes:
            if frame and len(sz) < 2:
                continue
            for store in (False, True):
                A2 = [sym("a%d" % (i % 7)) for i in range(sum(sz))]
                r = h.client(CLIENT, "given", args=[X, y, Xn, A2, list(sz), store], budget=60)

                def pred(env, o, r=r, sz=sz, A2=A2):
                    prep(env, y)
                    if o.kind != "ok":
                        return "predicting from given samples fails with %s" % o.exc, o.site
                    p, q = r.get(env, r.value)
                    a = np.array([env.sym(t) for t in A2])
                    b = np.arange(len(a)) % 5 - 2.
                    Y, x, xn = env.sym(y), env.sym(X)[:, 0], env.sym(Xn)[:, 0]
                    w = unit(xn * a.mean() + b.mean(), Y)
                    if not same(p, w):
                        return "the prediction for new covariates is %s, the %d retained samples average to %s" % (p, len(a), w), (SK, 0, "SklearnModel.predict")
                    w = unit(x * a.mean() + b.mean(), Y)
                    if q is not None and not same(q, w):
                        return "the training prediction is %s, the %d stored predictions average to %s" % (q, len(a), w), (SK, 0, "SklearnModel.predict")
                rep.holds("given samples, %s per chain%s%s" % (list(sz), " stored" if store else "", " (frames)" if frame else ""), r, pred, rule="posterior-mean", n=8, site=(SK, 0, "SklearnModel.predict"))
        yn = vec("yn", rows="Q")
        for kind in ("plain", "residual", "ols"):
            for store in (False, True):
                for plan in ("grow", "stump"):
                    if frame and plan == "stump":
                        continue
                    r = h.client(CLIENT, "errors", args=[X, y, Xn, yn, kind, plan, cuts, store, EXT])

                    def pred(env, o):
                        prep(env, y)
                        if o.kind != "ok":
                            return "computing the errors fails with %s" % o.exc, o.site
                        p, pn, got, ins = r.get(env, r.value)
                        Y, Yn = env.sym(y), env.sym(yn)
                        want = [Y - p, Y - p, Yn - pn, (Y - p) ** 2, (Yn - pn) ** 2, np.sqrt(np.sum((Y - p) ** 2)), np.sqrt(np.sum((Yn - pn) ** 2)), (Y - p) ** 2]
                        names = ["residuals(X)", "residuals(X, y)", "residuals(new, y)", "l2_error(X, y)", "l2_error(new, y)", "rmse(X, y)", "rmse(new, y)", "l2_error(X)"]
                        if ins is not None:
                            q = ins[0]
                            want += [p, Y - q, (Y - q) ** 2, Y - q, (Y - q) ** 2, np.sqrt(np.sum((Y - q) ** 2))]
                            names += ["predict()", "residuals()", "l2_error()", "residuals(None, y)", "l2_error(None, y)", "rmse(None, y)"]
                            got = list(got) + list(ins)
                        for g, w, nm in zip(got, want, names):
                            if not same(g, w):
                                return "%s is %s, observed minus predicted values give %s" % (nm, g, w), (SK, 0, "SklearnModel." + nm.split("(")[0])
                    rep.holds("errors %s %s%s%s" % (kind, plan, " stored" if store else "", " (frames)" if frame else ""), r, pred, rule="errors", n=12, site=(SK, 0, "SklearnModel.residuals"))
                r = h.client(CLIENT, "both", args=[X, y, kind, "grow", cuts, store, EXT])

                def pred(env, o):
                    prep(env, y)
                    if o.kind != "ok":
                        return "fit_predict fails with %s" % o.exc, o.site
                    a, b, c = r.get(env, r.value)
                    if not same(a, b):
                        return "fit_predict gives %s, predicting the training rows gives %s" % (a, b), (SK, 0, "SklearnModel.fit_predict")
                    if c is not None and not same(a, c):
                        return "fit_predict gives %s, the training prediction is %s" % (a, c), (SK, 0, "SklearnModel.fit_predict")
                rep.holds("fit_predict %s%s%s" % (kind, " stored" if store else "", " (frames)" if frame else ""), r, pred, rule="fit-predict", n=12, site=(SK, 0, "SklearnModel.fit_predict"))
