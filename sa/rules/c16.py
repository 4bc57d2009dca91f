"""C16 every user setting reaches the sampling run"""
import numpy as np
from .. import evalt
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, T, literals
from ..terms import Term as T_
from ..terms import TRUE
from .common import SHAPES, summarise_distinctness
from .estim import EST, PROBE, log_stub, logged

EXPLAIN = """Settings are symbolic (prior parameters, initial values) or range over several distinct concrete combinations (counts,
switches); a stand-in tree sampler and initializer given as user settings report what the sampling run hands to them.
Constructor, set_params (before and after a fit), sklearn's clone, runs over several data sets and the extensions are all
analysed.  Move probabilities: the distribution of proposed kinds and the dependence of the score on the probabilities are
read off the value graph for symbolic and concrete probabilities."""

CLIENT = EST + PROBE + """
from sklearn.base import clone
from bartpy.initializers.initializer import Initializer
from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS
from bartpy.features.featureselection import SelectNullDistributionThreshold

class Init(Initializer):
    def __init__(self, v):
        self.v = v
    def initialize_tree(self, tree):
        for l in tree.leaf_nodes:
            l.set_value(self.v)

class GBR:
    # the regressor of the built-in initializer, which none of these runs asks for
    def __init__(self, **kw):
        pass
    def fit(self, X, y):
        raise BuiltInInitializer()

class BuiltInInitializer(Exception):
    pass

def settings(log, tag, nt, nc, ns, nb, th, sp, sa, a, b, sa_, sb_, init, v, nj):
    return dict(n_trees=nt, n_chains=nc, n_samples=ns, n_burn=nb, thin=th, store_in_sample_predictions=sp, store_acceptance_trace=sa,
                alpha=a, beta=b, sigma_a=sa_, sigma_b=sb_, tree_sampler=Probe(log, tag), initializer=Init(v) if init else None, n_jobs=nj)

def result(m):
    return len(m.model_samples), len(m.prediction_samples), len(m.acceptance_trace), [s.alpha for s in m.model_samples], [s.sigma.beta for s in m.model_samples]

def go(X, y, log, route, args, other, base):
    if route == "constructor":
        m = SklearnModel(**settings(log, "run", *args))
    if route == "set_params":
        m = SklearnModel()
        m.set_params(**settings(log, "run", *args))
    if route == "changed":
        m = SklearnModel(**settings(log, "other", *other))
        m.set_params(**settings(log, "run", *args))
    if route == "refit":
        m = SklearnModel(**settings(log, "other", *other))
        m.fit(X, y)
        m.set_params(**settings(log, "run", *args))
        log("second")
    if route == "one by one":
        m = SklearnModel(**settings(log, "other", *other))
        d = settings(log, "run", *args)
        for k in d:
            m.set_params(**{k: d[k]})
    if route == "clone":
        m = clone(SklearnModel(**settings(log, "run", *args)))
    if route == "clone changed":
        m = SklearnModel(**settings(log, "other", *other))
        m.set_params(**settings(log, "run", *args))
        m = clone(m)
    if route == "clone then set":
        m = clone(SklearnModel(**settings(log, "other", *other)))
        m.set_params(**settings(log, "run", *args))
    if route == "copy":
        m = deepcopy(SklearnModel(**settings(log, "run", *args)))
    if route == "copy then set":
        m = deepcopy(SklearnModel(**settings(log, "other", *other)))
        m.set_params(**settings(log, "run", *args))
    if route == "residual extension":
        m = ResidualBART(base_estimator=base(), **settings(log, "run", *args))
    if route == "ols extension":
        m = OLS(stat_model=StatModel, **settings(log, "run", *args))
    if route == "residual extension changed":
        m = ResidualBART(base_estimator=base(), **settings(log, "other", *other))
        m.set_params(base_estimator=base())
        m = ResidualBART(base_estimator=base(), **settings(log, "run", *args))
    if route == "refit other data":
        m = SklearnModel(**settings(log, "run", *args))
        m.fit(X[:, [1, 0]], X[:, 0])
        log("second")
    m.fit(X, y)
    return result(m)

def several(X, y, log, args):
    m = SklearnModel(**settings(log, "run", *args))
    got = run_models(m, [X, X], [y, y])
    return [result(g) for g in got]

def select(X, y, log, args, nt):
    m = SklearnModel(**settings(log, "run", *args))
    s = SelectNullDistributionThreshold(m, n_permutations=2, n_trees=nt)
    s.model.fit(X, y)
    return result(s.model)
"""

MOVES = """
from bartpy.mutation import GrowMutation, PruneMutation
def sampler(kind, a, b):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    else:
        from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    return get_tree_sampler(a, b)

def kind_of(X, y, kind, a, b, shape, cuts, n):
    t = build(stump(X, y), shape, cuts)
    s = sampler(kind, a, b)
    out = []
    for i in range(n):
        p = s.proposer.propose(t)
        if type(p) == list:
            p = p[0]
        out.append(p.kind)
    return out

def score(X, y, kind, a, b, c, d, what, s0, shape, cuts):
    t = build(stump(X, y), shape, cuts)
    sg = Sigma(2., 3., 1.)
    sg.set_value(s0)
    m = Model(Data(X, y), sg, trees=[t])
    if what == "grow":
        l = t.leaf_nodes[0]
        p = GrowMutation(l, split_node(l, pair(1, cuts[2])))
    else:
        n = t.prunable_decision_nodes[0]
        p = PruneMutation(n, LeafNode(n.split, depth=n.depth))
    return sampler(kind, a, b).likihood_ratio.log_probability_ratio(m, t, p), sampler(kind, c, d).likihood_ratio.log_probability_ratio(m, t, p)
"""

SUB = {("sklearn", "GradientBoostingRegressor"): "GBR"}


def run(rep):
    h = H()
    X, y = mat("X"), vec("y")
    al, be, sa, sb, v = sym("al", "unit"), sym("be", "pos"), sym("sa", "pos"), sym("sb", "pos"), sym("v")
    oal, obe, osa, osb, ov = sym("oal", "unit"), sym("obe", "pos"), sym("osa", "pos"), sym("osb", "pos"), sym("ov")
    # trees, chains, samples, burn, thin, store predictions, store acceptance
    combos = [(2, 1, 3, 1, 1., True, False), (1, 2, 2, 0, 1., False, True), (3, 1, 4, 2, .5, True, True), (1, 3, 1, 2, 1., False, False)]
    other = (2, 2, 1, 1, 1., False, False, oal, obe, osa, osb, True, ov, 7)
    routes = ["constructor", "set_params", "changed", "refit", "one by one", "clone", "clone changed", "clone then set", "copy", "copy then set",
              "residual extension", "ols extension", "residual extension changed", "refit other data"]

    def check(name, r, args, runs=1, skip_other=True, site=("bartpy/sklearnmodel.py", 0, "SklearnModel"), nt=None):
        nt_, nc, ns, nb, th, sp, st = args[:7]
        nt = nt or nt_
        kept = int(np.ceil(ns * th))

        def pred(env, o):
            if len(set(env.sym(y).tolist())) < 2 or len(set(env.sym(X)[:, 0].tolist())) < 2:
                raise Vacuous()
            if o.kind == "raise" and "BuiltInInitializer" in o.classes:
                return "the built-in initializer is used although the initializer was set to %s" % ("another one" if args[11] else None), site
            if o.kind != "ok":
                return "the run fails with %s" % o.exc, o.site
            log = logged(r, env)
            for i, e in enumerate(log):
                if e[0] == "second":
                    log = log[i + 1:]
                    break
            log = [e for e in log if e[0] not in ("second",)]
            if any(e[0] != "run" for e in log):
                return "a tree sampler other than the one set is used", site
            if len(log) != runs * nc * nt * (nb + ns):
                return "%d tree updates instead of %d (%d chains, %d trees, %d burn-in and %d sampling steps)" % (len(log), runs * nc * nt * (nb + ns), nc, nt, nb, ns), site
            E = env.sym
            for k, e in enumerate(log):
                for what, got, want in (("number of trees", e[1], nt), ("number of trees", e[2], nt), ("alpha", e[3], E(al)), ("beta", e[4], E(be)),
                                        ("sigma_a", e[5], E(sa)), ("sigma_b", e[6], E(sb))):
                    if not same(got, want):
                        return "the sampling run uses %s = %s, set was %s" % (what, got, want), site
            first = log[0][9] if log else None
            want = E(v) if args[11] else 0.
            if log and not same(first, want):
                return "the first tree starts with leaf value %s instead of %s: the initializer setting is not used" % (first, want), site
            res = [r.get(env, q) for q in r.value.args] if runs == 1 else None
            many = [res] if runs == 1 else r.get(env, r.value)
            for q in many:
                for what, got, want in (("retained samples", q[0], nc * kept), ("stored training predictions", q[1], nc * kept if sp else 0), ("acceptance records", q[2], nc * kept if st else 0)):
                    if got != want:
                        return "%d %s instead of %d" % (got, what, want), site
                if not all(same(x, E(al)) for x in q[3]) or not all(same(x, E(sb)) for x in q[4]):
                    return "retained samples carry other prior settings", site
            jobs = [e for e in r.ev_kind("parallel") if all(evalt.truth(evalt.ev(c, env)) for c in e.pc)]
            for e in jobs[-1:]:
                a, k = e.data
                n = dict(k).get("n_jobs", a[0] if a else None)
                if n is None or not same(evalt.ev(n, env), args[13]):
                    return "chains run with n_jobs = %s instead of %s" % (None if n is None else evalt.ev(n, env), args[13]), e.site
        terms = [t for e in r.ev_kind("log") for t in e.data if isinstance(t, T_)]
        rep.holds(name, r, pred, rule="setting-reaches-run", n=12, rows=(4, 5, 6), extra=terms)
        if name.startswith(("constructor", "several", "residual")):
            rep.holds(name + ", around the constants of the code", r, pred, rule="setting-reaches-run", n=40, rows=(4, 5, 6), extra=terms)
            rep.holds(name + ", edge settings", r, pred, rule="setting-reaches-run", n=4, rows=(4, 5, 6), over={"be": 0., "al": 0.9995, "sa": 1e-6, "sb": 1e-6})
            rep.holds(name + ", large settings", r, pred, rule="setting-reaches-run", n=4, rows=(4, 5, 6), over={"be": 40., "al": 1e-5, "sa": 1e4, "sb": 1e4})

    for i, route in enumerate(routes):
        for j, c in enumerate(combos):
            if rep.tier == "quick" and j > 1 and route not in ("constructor", "set_params", "refit", "one by one"):
                continue
            args = c + (al, be, sa, sb, j % 2 == 0, v, 3 + j)
            base = "statmodel" if "ols" in route else T("ext", "stub.Regressor")
            check("%s %s" % (route, c), h.client(CLIENT, "go", args=[X, y, log_stub, route, args, other, base], subst=SUB), args)
    # hardly anything is kept
    for th, ns in ((.004, 3), (.004, 120)):
        args = (1, 1, ns, 1, th, True, True) + (al, be, sa, sb, False, v, 2)
        check("constructor %s" % (args[:7],), h.client(CLIENT, "go", args=[X, y, log_stub, "constructor", args, other, T("ext", "stub.Regressor")], subst=SUB), args)
    # counts at which the code itself changes its behaviour
    for k in literals(modules=["bartpy.sklearnmodel", "bartpy.samplers.modelsampler", "bartpy.samplers.schedule", "bartpy.runner"], lo=4, hi=40)[:4]:
        for c in ((1, k + 1, 1, 0, 1., False, False), (k + 1, 1, 1, 1, 1., False, False), (1, 1, k + 1, k + 2, 1., False, True)):
            args = c + (al, be, sa, sb, False, v, k + 1)
            check("constructor %s" % (c,), h.client(CLIENT, "go", args=[X, y, log_stub, "constructor", args, other, T("ext", "stub.Regressor")], subst=SUB), args)
    for c in combos[:2]:
        args = c + (al, be, sa, sb, True, v, 5)
        check("several data sets %s" % (c,), h.client(CLIENT, "several", args=[X, y, log_stub, args], subst=SUB), args, runs=2, site=("bartpy/runner.py", 0, "run_models"))
        check("selection %s" % (c,), h.client(CLIENT, "select", args=[X, y, log_stub, args, 3], subst=SUB), args, nt=3, site=("bartpy/features/featureselection.py", 0, "SelectNullDistributionThreshold"))

    # ---- move probabilities
    cuts = [sym("c%d" % i) for i in range(3)]
    for kind in ("default", "oblivious"):
        site = ("bartpy/samplers/%s/treemutation.py" % ("unconstrainedtree" if kind == "default" else "oblivioustrees"), 0, "get_tree_sampler")
        for a, b in ((0.2, 0.8), (0.7, 0.3), (1., 0.), (0., 1.)):
            h2 = H()
            h2.it.stubs["bartpy.data.is_not_constant"] = lambda it, st, a, k, s: TRUE   # so it is, for the data below
            # growing and pruning are both possible for these rows, so that the kind drawn is the kind returned
            big = np.column_stack([np.arange(64.) * 1.5 - 40, np.arange(64.)[::-1] * 0.5 + 3])
            over = {"X": big, "y": np.sin(np.arange(64.)), "c0": float(big[31, 0])}
            r = h2.client(EST + MOVES, "kind_of", args=[X, y, kind, a, b, [tuple(s) for s in SHAPES["one"]], cuts, 2], budget=40)
            tally = {"grow": 0, "prune": 0}
            n = 1500 if a not in (0., 1.) else 60

            def pred(env, o, r=r, tally=tally):
                if o.kind != "ok":
                    raise Vacuous()
                for k in r.get(env, r.value):
                    tally[k] += 1
            rep.holds("kinds drawn %s p_grow=%s" % (kind, a), r, pred, rule="move-probability", n=n, rows=(64,), over=over, err_ok=True)
            tot = sum(tally.values())
            if tot:
                share = tally["grow"] / tot
                tol = 6 * np.sqrt(a * b / tot) if tot > 200 or a * b == 0 else 1
                rep.fact("share of growth proposals %s p_grow=%s" % (kind, a), abs(share - a) <= tol, rule="move-probability", site=site,
                         msg="growth is proposed with probability %.3f although the probability given is %.2f" % (share, a))
        for what in ("grow", "prune"):
            p = [sym(q, "unit") for q in ("pa", "pb", "pc", "pd")]
            h3 = H()
            summarise_distinctness(h3)
            r = h3.client(EST + MOVES, "score", args=[X, y, kind] + p + [what, sym("s0", "pos"), [tuple(s) for s in SHAPES["one"]], cuts])

            def pred(env, o, r=r, p=p, what=what):
                if o.kind != "ok":
                    raise Vacuous()
                u, w = [r.get(env, q) for q in r.value.args]
                a, b, c, d = [env.sym(q) for q in p]
                if not np.isfinite(u) or not np.isfinite(w):
                    raise Vacuous()
                e = np.log(b / a) - np.log(d / c)
                if what == "prune":
                    e = -e
                if not same(u - w, e):
                    return "changing the move probabilities changes the score of a %s by %.6g instead of %.6g" % (what, u - w, e), site
            rep.holds("score of a %s uses the probabilities given to %s" % (what, kind), r, pred, rule="move-probability", err_ok=True, rows=(6, 8, 10))
