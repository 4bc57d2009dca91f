"""C21 residual extensions add BART to the base model they were fitted on"""
import numpy as np
from .. import evalt
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided
from ..terms import T
from .estim import EST, log_stub, logged

EXPLAIN = """Fitting and predicting with both extensions is analysed on symbolic data with base models written in the client (a scikit-learn
style estimator and a statsmodels style model whose fit depends on the data they are given) and with an opaque third-party
estimator.  A stand-in tree sampler reports the data every chain is run on.  The training data of the chains, the predictions
(for new covariates, for training covariates, after fitting again, for two extensions sharing one estimator object) and the
state of the caller's estimator afterwards are compared with the property."""

CLIENT = EST + """
from sklearn.base import BaseEstimator, RegressorMixin
from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS

class Base(BaseEstimator, RegressorMixin):
    # a linear model that remembers a value of the target and one of the covariates it was fitted on
    def __init__(self, slope=1.):
        self.slope = slope
    def fit(self, X, y):
        v = np.asarray(X)
        self.shift = np.mean(y) * 0.5
        self.tilt = v[0, 0] * 0.1
        return self
    def predict(self, X):
        v = np.asarray(X)
        return v[:, 0] * self.slope + v[:, 1] * self.tilt + self.shift

class Nested(BaseEstimator, RegressorMixin):
    # an estimator made of another one, as pipelines are
    def __init__(self, inner=None):
        self.inner = inner
    def fit(self, X, y):
        self.inner.fit(X, y)
        return self
    def predict(self, X):
        return self.inner.predict(X)

class Stat:
    # a statsmodels style model: target first, fitting returns a results object
    def __init__(self, y, X):
        self.y, self.X = y, X
    def fit(self):
        return StatRes(self.y, np.asarray(self.X))

class StatRes:
    def __init__(self, y, v):
        self.shift, self.tilt = np.mean(y) * 0.5, v[0, 0] * 0.1
        self.resid = y - (v[:, 0] * 0.7 + v[:, 1] * self.tilt + self.shift)
    def predict(self, X):
        v = np.asarray(X)
        return v[:, 0] * 0.7 + v[:, 1] * self.tilt + self.shift

class Seeing(Scripted):
    def __init__(self, plan, cuts, log):
        Scripted.__init__(self, plan, cuts)
        self.log = log
    def step(self, model, tree):
        self.log("train", model.data.X.values, model.data.y.unnormalized_y + 0.)
        return Scripted.step(self, model, tree)

def make(kind, base, log, plan, cuts, store, nc=1):
    kw = dict(tree_sampler=Seeing(plan, cuts, log), n_trees=2, n_chains=nc, n_samples=2, n_burn=0, thin=1., n_jobs=1, initializer=None, store_in_sample_predictions=store)
    if kind == "ols":
        return OLS(stat_model=Stat, **kw)
    if kind == "default":
        return ResidualBART(**kw)
    return ResidualBART(base_estimator=base, **kw)

def members(m, X):
    return [s.predict(X) + 0. for s in m.model_samples]

def state(b):
    return [b.slope, hasattr(b, "shift"), hasattr(b, "tilt")]

def once(log, X, y, Xn, kind, plan, cuts, store, w, nc):
    b = Base(w)
    m = make(kind, b, log, plan, cuts, store, nc)
    f = m.fit(X, y)
    a = m.predict(Xn) + 0.
    t = m.predict() + 0.
    t2 = m.predict(X) + 0.
    return f is m, a, t, t2, members(m, Xn), members(m, m.data.X.values), state(b), m.data.y.unnormalized_y

def prefitted(log, X, y, Xn, kind, plan, cuts, store, w, X2, y2):
    # the caller fits the estimator, hands it over, and uses it afterwards
    b = Base(w) if kind != "nested" else Nested(Base(w))
    b.fit(X2, y2)
    p = b.predict(Xn) + 0.
    m = make(kind, b, log, plan, cuts, store)
    m.fit(X, y)
    a = m.predict(Xn) + 0.
    return a, members(m, Xn), p, b.predict(Xn) + 0.

def again(log, X, y, Xn, kind, plan, cuts, store, w, X2, y2):
    m = make(kind, Base(w), log, plan, cuts, store)
    m.fit(X2, y2)
    m.predict(Xn)
    m.fit(X, y)
    return m.predict(Xn) + 0., m.predict() + 0., members(m, Xn), members(m, m.data.X.values)

def shared(log, X, y, Xn, kind, plan, cuts, store, w, X2, y2):
    b = Base(w) if kind != "nested" else Nested(Base(w))
    m = make(kind, b, log, plan, cuts, store)
    o = make(kind, b, log, plan, cuts, store)
    m.fit(X, y)
    before = m.predict(Xn) + 0.
    o.fit(X2, y2)
    return before, m.predict(Xn) + 0., members(m, Xn)

def opaque(log, X, y, Xn, kind, plan, cuts, store, est):
    b = est() if kind != "default" else None
    m = make(kind, b, log, plan, cuts, store)
    m.fit(X, y)
    e = m.base_estimator
    return m.predict(Xn) + 0., m.predict() + 0., e.predict(Xn), e.predict(m.data.X.values), e.predict(X), members(m, Xn), members(m, m.data.X.values), m.data.y.unnormalized_y, b
"""


def run(rep):
    cuts = [sym("k0"), sym("k1")]
    w = sym("w")
    RES, OLSF = ("bartpy/extensions/baseestimator.py", 0, "ResidualBART"), ("bartpy/extensions/ols.py", 0, "OLS")

    def arr(env, s):
        v = env.sym(s)
        return np.asarray(v.values if hasattr(v, "values") else v, dtype=float)

    def base(env, kind, Xf, yf, Xp):
        slope = 0.7 if kind == "ols" else env.sym(w)
        F, P, Y = arr(env, Xf), arr(env, Xp), env.sym(yf)
        return P[:, 0] * slope + P[:, 1] * F[0, 0] * 0.1 + np.mean(Y) * 0.5

    def mean(ms, resid):
        lo, hi = resid.min(), resid.max()
        return (np.mean([np.asarray(m) for m in ms], axis=0) + 0.5) * (hi - lo) + lo

    def fn(kind, f):
        s = OLSF if kind == "ols" else RES
        return (s[0], 0, s[2] + "." + f)

    def chains_see(env, r, kind, X, resid, last):
        log = [e for e in logged(r, env) if e[0] == "train"][-last:]
        if not log:
            raise Undecided("no tree update seen")
        for e in log:
            if not same(np.asarray(e[1], dtype=float), arr(env, X)):
                return "BART is trained on the covariates %s instead of %s" % (e[1], arr(env, X)), fn(kind, "fit")
            if not same(e[2], resid):
                return "BART is trained on the target %s instead of what the base model leaves unexplained, %s" % (e[2], resid), fn(kind, "fit")

    def prep(env, *ys):
        for q in ys:
            if len(set(env.sym(q).tolist())) < 2:
                raise Vacuous()

    plans = (["grow", "none"], ["grow", "grow", "prune"])
    for frame in (False, True):
        h = H()
        X, y, Xn = mat("X", frame=frame), vec("y"), mat("Xn", rows="Q", frame=frame)
        X2, y2 = mat("X2", rows="R", frame=frame), vec("y2", rows="R")
        for kind in ("residual", "ols", "nested"):
            for plan in plans if kind != "nested" else plans[:1]:
                for store in (False, True) if kind != "nested" else ():
                    nm = "%s %s%s%s" % (kind, "/".join(plan), " storing" if store else "", " (frames)" if frame else "")
                    for nc in (1, 2):
                        r = h.client(CLIENT, "once", args=[log_stub, X, y, Xn, kind, plan, cuts, store, w, nc])

                        def pred(env, o, r=r, kind=kind, nc=nc):
                            prep(env, y)
                            resid = env.sym(y) - base(env, kind, X, y, X)
                            if np.ptp(resid) < 1e-6:
                                raise Vacuous()
                            if o.kind != "ok":
                                return "fitting and predicting fails with %s" % o.exc, o.site
                            me, a, t, t2, mn, mt, st, _ = r.get(env, r.value)
                            bad = chains_see(env, r, kind, X, resid, 4 * nc)
                            if bad:
                                return bad
                            if not me:
                                return "fit does not return the estimator", fn(kind, "fit")
                            if len(mn) != 2 * nc:
                                raise Undecided("%d samples" % len(mn))
                            want = base(env, kind, X, y, Xn) + mean(mn, resid)
                            if not same(a, want):
                                return "the prediction for new covariates is %s, both models together give %s" % (a, want), fn(kind, "predict")
                            want = base(env, kind, X, y, X) + mean(mt, resid)
                            if not same(t, want):
                                return "the prediction without covariates is %s, both models give %s for the training covariates" % (t, want), fn(kind, "predict")
                            if not same(t2, want):
                                return "the prediction for the training covariates is %s, both models give %s" % (t2, want), fn(kind, "predict")
                            if st[1] or st[2] or not same(st[0], env.sym(w)):
                                return "the estimator supplied by the caller has been fitted or changed", fn(kind, "fit")
                        rep.holds("fit and predict %d chains " % nc + nm, r, pred, rule="residual-extension", n=20, site=fn(kind, "fit"))
                    r = h.client(CLIENT, "again", args=[log_stub, X, y, Xn, kind, plan, cuts, store, w, X2, y2])

                    def pred(env, o, r=r, kind=kind):
                        prep(env, y, y2)
                        resid = env.sym(y) - base(env, kind, X, y, X)
                        if np.ptp(resid) < 1e-6 or np.ptp(env.sym(y2) - base(env, kind, X2, y2, X2)) < 1e-6:
                            raise Vacuous()
                        if o.kind != "ok":
                            return "fitting again fails with %s" % o.exc, o.site
                        a, t, mn, mt = r.get(env, r.value)
                        bad = chains_see(env, r, kind, X, resid, 4)
                        if bad:
                            return bad
                        want = base(env, kind, X, y, Xn) + mean(mn, resid)
                        if not same(a, want):
                            return "after fitting again the prediction is %s instead of %s" % (a, want), fn(kind, "predict")
                        want = base(env, kind, X, y, X) + mean(mt, resid)
                        if not same(t, want):
                            return "after fitting again the prediction without covariates is %s instead of %s" % (t, want), fn(kind, "predict")
                    rep.holds("fitted again " + nm, r, pred, rule="residual-extension", n=15, site=fn(kind, "fit"))
                r = h.client(CLIENT, "shared", args=[log_stub, X, y, Xn, kind, plan, cuts, False, w, X2, y2])

                def pred(env, o, r=r, kind=kind):
                    prep(env, y, y2)
                    resid = env.sym(y) - base(env, kind, X, y, X)
                    if np.ptp(resid) < 1e-6 or np.ptp(env.sym(y2) - base(env, kind, X2, y2, X2)) < 1e-6:
                        raise Vacuous()
                    if o.kind != "ok":
                        return "fitting a second extension fails with %s" % o.exc, o.site
                    a, b, mn = r.get(env, r.value)
                    if not same(a, b) or not same(a, base(env, kind, X, y, Xn) + mean(mn, resid)):
                        return "fitting another extension that was given the same estimator changes the predictions from %s to %s" % (a, b), fn(kind, "fit")
                rep.holds("shared estimator %s %s%s" % (kind, "/".join(plan), " (frames)" if frame else ""), r, pred, rule="caller-estimator", n=15, site=fn(kind, "fit"))
        for kind in ("residual", "nested"):
            r = h.client(CLIENT, "prefitted", args=[log_stub, X, y, Xn, kind, plans[0], cuts, False, w, X2, y2])

            def pred(env, o, r=r):
                prep(env, y, y2)
                resid = env.sym(y) - base(env, "residual", X, y, X)
                if np.ptp(resid) < 1e-6:
                    raise Vacuous()
                if o.kind != "ok":
                    return "fitting with a fitted estimator fails with %s" % o.exc, o.site
                a, mn, p, q = r.get(env, r.value)
                if not same(p, q):
                    return "the caller's fitted estimator predicts %s instead of %s after the extension was fitted" % (q, p), fn("residual", "fit")
                if not same(a, base(env, "residual", X, y, Xn) + mean(mn, resid)):
                    return "an estimator the caller had fitted before is not fitted on the new data", fn("residual", "fit")
            rep.holds("estimator fitted by the caller, %s%s" % (kind, " (frames)" if frame else ""), r, pred, rule="caller-estimator", n=15)
        for kind in ("residual", "default"):
            r = h.client(CLIENT, "opaque", args=[log_stub, X, y, Xn, kind, plans[0], cuts, True, T("ext", "stub.Regressor")])

            def pred(env, o, r=r, kind=kind):
                prep(env, y)
                if o.kind != "ok":
                    return "fitting and predicting fails with %s" % o.exc, o.site
                a, t, bn, bt, bx, mn, mt, yy = [r.get(env, q) for q in r.value.args[:8]]
                for e in r.ev_kind("extfit"):
                    if e.data[0] is r.value.args[8] and all(evalt.truth(evalt.ev(c, env)) for c in e.pc):
                        return "the estimator supplied by the caller is itself fitted", e.site
                resid = env.sym(y) - np.asarray(bx)
                if np.ptp(resid) < 1e-6:
                    raise Vacuous()
                bad = chains_see(env, r, kind, X, resid, 4)
                if bad:
                    return bad
                if not same(a, np.asarray(bn) + mean(mn, resid)):
                    return "the prediction for new covariates is %s, both models together give %s" % (a, np.asarray(bn) + mean(mn, resid)), fn(kind, "predict")
                if not same(t, np.asarray(bt) + mean(mt, resid)):
                    return "the prediction without covariates is %s, both models give %s" % (t, np.asarray(bt) + mean(mt, resid)), fn(kind, "predict")
                fits = [e for e in r.ev_kind("extfit")]
                for e in fits:
                    u, v = [r.get(env, q) for q in e.data[1][:2]]
                    u = np.asarray(u.values if hasattr(u, "values") else u, dtype=float)
                    if not same(u, arr(env, X)) or not same(v, env.sym(y)):
                        return "the base model is fitted to %s instead of the target %s" % (v, env.sym(y)), e.site
            rep.holds("third-party estimator %s%s" % (kind, " (frames)" if frame else ""), r, pred, rule="residual-extension", n=15)
