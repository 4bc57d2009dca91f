"""C15 user data is never modified"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, T, Term
from ..interp import RArr
from ..terms import NONE
from .estim import EST

EXPLAIN = """Aliasing analysis on the abstract heap.  Every public procedure of the estimator, the runner, the importance and selection
procedures and the extensions is analysed on tagged caller-owned arrays (and, separately, frames); the content of each tagged
object at the end is compared with its initial content, after further fits and predictions, so that a retained alias that
is later written shows up too.  Chains run in the analysed process, where sharing is visible."""

CLIENT = EST + """
from bartpy.features.featureimportance import feature_importance, null_rmse_distribution, original_model_rmse
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS

def kw(store, n_trees, init):
    return dict(n_trees=n_trees, n_chains=1, n_samples=1, n_burn=1, thin=1., store_in_sample_predictions=store, store_acceptance_trace=True, n_jobs=1, initializer=init)

def est(X, y, Xn, yn, plan, cuts, store, ops):
    m = estimator(plan, cuts, **kw(store, 2, None))
    m.fit(X, y)
    out = []
    for o in ops:
        if o == "fit":
            m.fit(X, y)
        if o == "refit":
            m.fit(Xn, yn)
        if o == "predict":
            out.append(m.predict(Xn))
            out.append(m.predict(X))
        if o == "errors":
            out.append(m.residuals(Xn, yn))
            out.append(m.residuals(X))
            out.append(m.l2_error(Xn, yn))
            out.append(m.rmse(Xn, yn))
        if o == "insample":
            out.append(m.predict())
            out.append(m.residuals())
        if o == "fp":
            out.append(m.fit_predict(X, y))
        if o == "live":
            out.append(m.model.predict(Xn))
            out.append(m.model.residuals())
            out.append(m.model.unnormalized_residuals())
            m.sampler.step(m.model, m.sampler.trace_logger_class())
        if o == "write":
            for a in out:
                a -= 1.
    return X, y, Xn, yn

def chains(X, y, Xn, yn, plan, cuts, store, ops):
    m = estimator(plan, cuts, **kw(store, 1, None))
    Xs, ys = [X, Xn], [y, yn]
    got = run_models(m, Xs, ys)
    for g in got:
        g.predict(Xn)
        g.rmse(X, y)
    got[0].fit(X, y)
    return X, y, Xn, yn, len(Xs), len(ys), Xs[0], Xs[1], ys[0], ys[1]

def importance(X, y, Xn, yn, plan, cuts, store, var):
    m = estimator(plan, cuts, **kw(store, 1, None))
    a, b = feature_importance(m, X, y, var, 2, 1)
    return X, y, Xn, yn

def selection(X, y, Xn, yn, plan, cuts, store, kind):
    m = estimator(plan, cuts, **kw(store, 1, None))
    if kind == "share":
        s = SelectSplitProportionThreshold(m, 0.2)
    else:
        s = SelectNullDistributionThreshold(m, 0.9, kind, n_permutations=1)
    s.fit(X, y)
    s.get_support()
    return X, y, Xn, yn

def extension(X, y, Xn, yn, plan, cuts, store, base, kind):
    if kind == "residual":
        m = ResidualBART(base_estimator=base(), tree_sampler=Scripted(plan, cuts), **kw(store, 1, None))
    else:
        m = OLS(stat_model=base, tree_sampler=Scripted(plan, cuts), **kw(store, 1, None))
    m.fit(X, y)
    m.predict(Xn)
    m.predict()
    m.residuals(Xn, yn)
    m.residuals()
    m.rmse(Xn, yn)
    m.fit(X, y)
    return X, y, Xn, yn

def parts(X, y, Xn, yn, plan, cuts, store):
    # the data classes handed the caller's arrays with normalisation, as the estimator does
    from bartpy.data import make_bartpy_data
    d = make_bartpy_data(X, y, normalize=True)
    m = Model(d, Sigma(1., 1., 1.), n_trees=2, initializer=None)
    s = Scripted(plan, cuts)
    for t in m.refreshed_trees():
        s.step(m, t)
        for l in t.leaf_nodes:
            l.set_value(cuts[0])
    m.predict(Xn)
    return X, y, Xn, yn
"""

NAMES = ["training covariates", "training target", "new covariates", "new target"]

GAPS = np.array([[0.5, -1.], [np.nan, 2.], [1.5, 0.25], [-2., np.nan], [3., 1.]])


def unchanged(a, b):
    u, v = [np.asarray(q.values if hasattr(q, "values") else q, dtype=float) for q in (a, b)]
    return np.array_equal(u, v, equal_nan=True)


def run(rep):
    cuts = [sym("c0"), sym("c1")]
    plans = (["grow", "none"], ["grow", "prune"])
    for frame in (False, True):
        h = H()
        X, y, Xn, yn = mat("X", frame=frame), vec("y"), mat("Xn", frame=frame), vec("yn")

        def check(name, r):
            def pred(env, o):
                if o.kind != "ok":
                    raise Vacuous()
                for nm, s, v in zip(NAMES, (X, y, Xn, yn), r.value.args):
                    if not unchanged(r.get(env, v), env.sym(s)):
                        return "the caller's %s are modified: %s instead of %s" % (nm, r.get(env, v), env.sym(s)), writer(r, s)
                if len(r.value.args) > 4:
                    if r.get(env, r.value.args[4]) != 2 or r.get(env, r.value.args[5]) != 2:
                        return "the caller's list of data sets is modified"
                    for nm, s, v in zip(NAMES, (X, Xn, y, yn), r.value.args[6:]):
                        if not unchanged(r.get(env, v), env.sym(s)):
                            return "the caller's list of data sets holds other data afterwards", None
            rep.holds("%s%s" % (name, " (frames)" if frame else ""), r, pred, rule="caller-data-unchanged", rows=(4, 5, 6), n=20, err_ok=True)
            # targets that are constant, covariates with missing values: whatever comes of it, the caller's data stay
            rep.holds("%s%s, constant target" % (name, " (frames)" if frame else ""), r, pred, rule="caller-data-unchanged", rows=(5,), n=4, err_ok=True, over={y: np.full(5, 1.5), yn: np.full(5, -2.)})
            if not frame:
                rep.holds("%s, missing values" % name, r, pred, rule="caller-data-unchanged", rows=(5,), n=4, err_ok=True, over={X: GAPS, Xn: GAPS[::-1] + 1.})

        base = [X, y, Xn, yn]
        for plan in plans:
            for ops in (["predict", "errors"], ["refit", "predict", "fit"], ["live", "live", "predict"], ["predict", "errors", "write"]):
                check("estimator %s %s" % ("/".join(plan), "+".join(ops)), h.client(CLIENT, "est", args=base + [plan, cuts, False, ops]))
            for ops in (["insample", "errors"], ["fp", "insample", "fp", "write"]):
                check("estimator storing %s %s" % ("/".join(plan), "+".join(ops)), h.client(CLIENT, "est", args=base + [plan, cuts, True, ops]))
        check("several data sets", h.client(CLIENT, "chains", args=base + [plans[0], cuts, False, []]))
        for kind in ("share", "local", "global"):
            check("selection %s" % kind, h.client(CLIENT, "selection", args=base + [plans[0], cuts, False, kind]))
        check("importance", h.client(CLIENT, "importance", args=base + [plans[0], cuts, False, 1]))
        for kind in ("residual", "ols"):
            check("extension %s" % kind, h.client(CLIENT, "extension", args=base + [plans[0], cuts, True, STUB(kind), kind]))
        check("data classes", h.client(CLIENT, "parts", args=base + [plans[0], cuts, False]))


def STUB(kind):
    return T("ext", "stub.Regressor" if kind == "residual" else "stub.StatModel")


def writer(run, s):
    """the in-place write that reached the caller's object"""
    name = s.args[0]
    for e in run.ev_kind("inplace", "inplace-term"):
        v = e.data[0]
        t = v
        try:
            seen = 0
            while t.op == "ref" and seen < 10:
                rec = e.st.heap.get(t.args[0]) if getattr(e, "st", None) is not None else run.st.heap.get(t.args[0])
                if rec is None or rec.kind != "arr":
                    break
                if getattr(rec, "tag", None) == name:
                    return e.site
                if rec.view is None:
                    break
                from ..terms import ref
                t = ref(rec.view[0])
                seen += 1
        except Exception:
            pass
    return None
