"""C19 permutation importance is scored strictly out of sample"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided
from .estim import EST, log_stub, logged

EXPLAIN = """feature_importance is analysed on symbolic data with the folds (scikit-learn's KFold summarised as a random partition),
permutations and chain draws left symbolic.  A stand-in tree sampler reports the rows every chain was trained on and a
subclass of the estimator reports the rows and model of every prediction; provenance of each row (which original row, which
column replaced) is recovered from the values and compared with what the property allows, for several fold and permutation
counts and every column."""

CLIENT = EST + """
from bartpy.features.featureimportance import feature_importance, null_rmse_distribution, original_model_rmse

class Train(TreeMutationSampler):
    def __init__(self, log):
        self.log = log
    def step(self, model, tree):
        self.log("train", model.data.X.values, model.data.y.unnormalized_y, tree.nodes[0].current_value)
        v = model.data.X.values
        model.alpha = np.sum(np.exp(v[:, 0] * 0.37 + v[:, 1] * 0.61 + v[:, 2] * 0.23))
        return None

class Spy(SklearnModel):
    def __init__(self, log=None, **kw):
        self.log = log
        SklearnModel.__init__(self, **kw)
    def predict(self, X=None):
        p = SklearnModel.predict(self, X)
        self.log("predict", X, p + 0., self.data.X.values, self.data.y.unnormalized_y, [s.alpha for s in self.model_samples])
        return p

def go(X, y, log, var, folds, perms, nc, fitted, part, default):
    m = Spy(log=log, tree_sampler=Train(log), n_trees=1, n_chains=nc, n_samples=1, n_burn=0, thin=1., n_jobs=1, initializer=None)
    if fitted:
        m.fit(X, y)
        log("go")
    if part == "all":
        if default:
            a, b = feature_importance(m, X, y, var)
        else:
            a, b = feature_importance(m, X, y, var, folds, perms)
    elif part == "null":
        a, b = [], null_rmse_distribution(m, X, y, var, folds, perms)
    else:
        a, b = original_model_rmse(m, X, y, folds), []
    return a, b, len(a), len(b)
"""


def rows_of(M, X, cols):
    """original row numbers, by the values in the given columns"""
    key = {tuple(np.round(r[cols], 9)): i for i, r in enumerate(X)}
    try:
        return [key[tuple(np.round(np.asarray(r, dtype=float)[cols], 9))] for r in np.asarray(M)]
    except KeyError:
        return None


def run(rep):
    site0 = ("bartpy/features/featureimportance.py", 0, "original_model_rmse")
    site1 = ("bartpy/features/featureimportance.py", 0, "null_rmse_distribution")
    cases = [("all", 0, 2, 1, 1, False), ("all", 2, 2, 2, 1, False), ("all", 1, 3, 1, 1, False), ("null", 1, 3, 2, 1, False), ("null", 0, 2, 3, 2, False), ("base", 0, 4, 1, 1, False), ("base", 0, 3, 1, 2, True), ("all", 1, 2, 2, 1, True),
             ("null", 2, 2, 2, 2, True), ("null", 1, 4, 1, 1, False)]
    for frame in (False, True):
        h = H()
        X, y = mat("X", cols=3, frame=frame), vec("y")
        for part, var, folds, perms, nc, fitted in cases if not frame else cases[1:2] + cases[3:4] + cases[6:7]:
            r = h.client(CLIENT, "go", args=[X, y, log_stub, var, folds, perms, nc, fitted, part, False])
            seen = {"same": 0, "diff": 0}

            def pred(env, o, r=r, var=var, folds=folds, perms=perms, nc=nc, part=part, seen=seen):
                M = np.asarray(env.sym(X).values if hasattr(env.sym(X), "values") else env.sym(X), dtype=float)
                Y = env.sym(y)
                n = len(M)
                other = [c for c in range(3) if c != var]
                if n < folds or len({tuple(q) for q in np.round(M[:, other], 9)}) < n or len(set(M[:, var])) < n or len(set(Y.tolist())) < n:
                    raise Vacuous()
                if o.kind != "ok":
                    return "the procedure fails with %s" % o.exc, o.site
                a, b, la, lb = [r.get(env, q) for q in r.value.args]
                log = logged(r, env)
                for i, e in enumerate(log):
                    if e[0] == "go":
                        log = log[i + 1:]
                        break
                trained = {}
                for e in log:
                    if e[0] == "train":
                        v = np.asarray(e[1], dtype=float)
                        trained[round(float(np.sum(np.exp(v[:, 0] * 0.37 + v[:, 1] * 0.61 + v[:, 2] * 0.23))), 6)] = v
                preds = [e for e in log if e[0] == "predict"]
                want_a, want_b = (folds if part != "null" else 0), (folds * perms if part != "base" else 0)
                if la != want_a:
                    return "%d baseline errors for %d folds" % (la, folds), site0
                if lb != want_b:
                    return "%d errors in the null distribution for %d folds and %d permutations" % (lb, folds, perms), site1
                if len(preds) != la + lb:
                    raise Undecided("%d predictions for %d errors" % (len(preds), la + lb))
                tests = {"base": [], "null": []}
                perm_of = {}
                for k, (err, p) in enumerate(zip(list(a) + list(b), preds)):
                    kind = "base" if k < la else "null"
                    site = site0 if kind == "base" else site1
                    cols = [0, 1, 2] if kind == "base" else other
                    _, Xt, pr, Xs, ys, stamps = p
                    Xt = np.asarray(Xt, dtype=float)
                    ti = rows_of(Xt, M, cols)
                    if ti is None:
                        return "the %s error %d is computed on rows that are not rows of the data%s" % (kind, k, "" if kind == "base" else " outside the permuted column"), site
                    if len(stamps) != nc:
                        return "a model of %d chains predicts from %d samples" % (nc, len(stamps)), site
                    for s in stamps + [Xs]:
                        s = trained.get(round(float(s), 6)) if np.ndim(s) == 0 else np.asarray(s, dtype=float)
                        if s is None:
                            raise Undecided("training rows of a sample not identified")
                        ri = rows_of(s, M, cols)
                        if ri is None:
                            return "the %s model %d is trained on rows that are not rows of the data%s" % (kind, k, "" if kind == "base" else " outside the permuted column"), site
                        if set(ri) & set(ti):
                            return "the %s error %d is computed on rows %s, of which %s were trained on" % (kind, k, ti, sorted(set(ri) & set(ti))), site
                        if sorted(ri + ti) != list(range(n)):
                            return "the %s error %d uses training rows %s and held-out rows %s, not one fold of %d rows" % (kind, k, ri, ti, n), site
                        if kind == "null":
                            col = np.empty(n)
                            col[ri], col[ti] = s[:, var], Xt[:, var]
                            if not same(np.sort(col), np.sort(M[:, var])):
                                return "training and held-out rows of null error %d do not come from one permutation of column %d" % (k, var), site
                            perm_of.setdefault(frozenset(ti), []).append(tuple(col))
                            if same(col[ti], M[ti, var]):
                                seen["heldsame"] = seen.get("heldsame", 0) + 1
                            else:
                                seen["helddiff"] = seen.get("helddiff", 0) + 1
                            if same(col, M[:, var]):
                                seen["same"] += 1
                            else:
                                seen["diff"] += 1
                    if not same(np.asarray(ys), Y[ri]):
                        return "the %s model %d is trained on the targets %s instead of %s" % (kind, k, ys, Y[ri]), site
                    e = np.sqrt(np.sum((Y[ti] - np.asarray(pr)) ** 2))
                    if not same(err, e):
                        return "the %s error %d is %s, the errors on the held-out rows of its model give %s" % (kind, k, err, e), site
                    tests[kind].append(tuple(sorted(ti)))
                for kind, m_ in (("base", 1), ("null", perms)):
                    t = tests[kind]
                    if t and (sorted(x for q in set(t) for x in q) != list(range(n)) or any(t.count(q) != m_ for q in t)):
                        return "the held-out rows of the %s errors are %s: not every fold %d times" % (kind, t, m_), site0 if kind == "base" else site1
                for e in log:
                    if e[0] == "train" and not same(e[3], 0.0):
                        return "a model starts from leaf value %s: it is not fresh" % e[3], site0
                if perms > 1 and any(len(set(v)) > 1 for v in perm_of.values()):
                    seen["distinct"] = 1
                if part != "base":
                    seen["n"] = seen.get("n", 0) + 1
            nm = "%s column %d folds=%d permutations=%d chains=%d%s%s" % (part, var, folds, perms, nc, " fitted before" if fitted else "", " (frame)" if frame else "")
            if folds > 2:
                rep.holds(nm + ", folds of one row", r, pred, rule="out-of-sample", n=12, rows=(folds, folds + 1), modes=("real", "ties", "mixed"), enough=6)
            ok = rep.holds(nm, r, pred, rule="out-of-sample", n=24, rows=(2 * folds, 2 * folds + 1, 2 * folds + 3, 7), modes=("real", "ties", "mixed"))
            if ok and seen.get("n", 0) >= 5:
                rep.fact(nm + ": column is permuted", seen["diff"] > 0, rule="permuted", site=site1, msg="the chosen column is never permuted")
                rep.fact(nm + ": held-out rows are permuted", seen.get("helddiff", 0) > 0, rule="permuted", site=site1, msg="the held-out rows never carry the permutation: only training rows are permuted")
                if perms > 1:
                    rep.fact(nm + ": permutations differ", "distinct" in seen, rule="permuted", site=site1, msg="all %d permutations of a fold are the same" % perms)
        if not frame:
            r = h.client(CLIENT, "go", args=[X, y, log_stub, 1, 0, 0, 1, False, "all", True])

            def pred(env, o, r=r):
                if len(set(env.sym(y).tolist())) < env.rows:
                    raise Vacuous()
                if o.kind != "ok":
                    return "the procedure fails with %s" % o.exc, o.site
                a, b, la, lb = [r.get(env, q) for q in r.value.args]
                if la * 10 != lb:
                    return "%d null errors for %d folds and the default of 10 permutations" % (lb, la), site1
            rep.holds("defaults", r, pred, rule="out-of-sample", n=6, rows=(5, 6), modes=("real", "ties", "mixed"))
