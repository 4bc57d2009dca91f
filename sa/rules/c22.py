"""C22 random numbers come from numpy's generator and each is used once"""
import ast
import math
import numpy as np
from .. import evalt
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided
from ..terms import T, is_const, cval, NONE, subterms
from .estim import EST, log_stub, logged

EXPLAIN = """Two parts.  (1) Who may draw: every call of every function of the package is resolved through the import tables, and every event of
the abstract interpretation of fitting, predicting, proposing, selection, importance and tree initialisation is inspected, for
random sources other than numpy's global generator (standard library, generators of their own, fixed random_state) and for
seeding.  (2) The prefetching samplers are analysed with small caches: draws are compared pairwise over many valuations
(one draw handed out twice makes two values equal in all of them), their distribution with the advertised one, the number of
prefetched values with the number used; copies made with copy, deepcopy and pickle, tree samplers, proposers and estimators that
are copied, and chains run in one or in separate processes must produce draws of their own."""

FOREIGN_TOP = {"random", "secrets"}
FOREIGN_NP = {"default_rng", "Generator", "RandomState", "PCG64", "PCG64DXSM", "MT19937", "SeedSequence", "Philox", "SFC64", "BitGenerator"}
SEEDING = {"seed", "set_state", "get_state", "set_bit_generator"}

SCALAR = EST + """
import copy
import pickle
from bartpy.samplers.scalar import NormalScalarSampler, UniformScalarSampler, DiscreteSampler

def make(kind, cache, vals, probs):
    if kind == "normal":
        return NormalScalarSampler(cache)
    if kind == "uniform":
        return UniformScalarSampler(cache)
    if probs is None:
        return DiscreteSampler(vals, cache_size=cache)
    return DiscreteSampler(vals, probs, cache_size=cache)

def draws(kind, cache, vals, probs, n):
    s = make(kind, cache, vals, probs)
    return [s.sample() for i in range(n)]

def two(kind, cache, vals, probs, n):
    # two samplers built alike, used alternately
    a, b = make(kind, cache, vals, probs), make(kind, cache, vals, probs)
    out = []
    for i in range(n):
        out.append(a.sample())
        out.append(b.sample())
    return out

def copied(kind, cache, vals, probs, used, how, n):
    s = make(kind, cache, vals, probs)
    out = [s.sample() for i in range(used)]
    if how == "deepcopy":
        c = deepcopy(s)
    elif how == "copy":
        c = copy.copy(s)
    elif how == "pickle":
        c = pickle.loads(pickle.dumps(s))
    else:
        class Box:
            pass
        b = Box()
        b.inner = s
        b.all = [s]
        c = deepcopy(b).inner
    return out + [s.sample() for i in range(n)] + [c.sample() for i in range(n)]

def default(kind, n):
    s = NormalScalarSampler() if kind == "normal" else UniformScalarSampler() if kind == "uniform" else DiscreteSampler([1., 2., 3.])
    return [s.sample() for i in range(n)]
"""

SAMPLERS = EST + """
import pickle
from bartpy.samplers.treemutation import TreeMutationLikihoodRatio, TreeMutationProposer
from bartpy.samplers.leafnode import LeafNodeSampler

class Fixed(TreeMutationLikihoodRatio):
    def __init__(self, s):
        self.s = s
    def log_probability_ratio(self, model, tree, mutation):
        return self.s

class Same(TreeMutationProposer):
    def __init__(self, m):
        self.m = m
    def propose(self, tree):
        return self.m

def sampler_class(kind):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler as S
    else:
        from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler as S
    return S

def proposer(kind, a, b):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    else:
        from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    return get_tree_sampler(a, b).proposer

def copy_of(x, how):
    return deepcopy(x) if how == "deepcopy" else pickle.loads(pickle.dumps(x))

def accept(X, y, kind, cut, score, how):
    # whether the original and its copy accept, after the original was used once
    t = stump(X, y)
    m = Model(Data(X, y), Sigma(1., 1., 1.), trees=[t])
    leaf = t.leaf_nodes[0]
    g = GrowMutation(leaf, split_node(leaf, pair(0, cut)))
    if kind == "default":
        s = sampler_class(kind)(Same(g), Fixed(score))
    else:
        s = sampler_class(kind)(Same([g]), Fixed(score))
    s.sample(m, t)
    c = copy_of(s, how)
    a = [s.sample(m, t) is None for i in range(6)]
    b = [c.sample(m, t) is None for i in range(6)]
    return [1. if x else 0. for x in a], [1. if x else 0. for x in b]

def kinds(X, y, kind, cut, how):
    # the kinds proposed by the original and by its copy
    t = build(stump(X, y), [("", 0)], [cut])
    p = proposer(kind, 0.5, 0.5)
    p.method_sampler.sample()
    c = copy_of(p, how)
    def what(q):
        f = q.method_sampler.sample()
        return 1. if f.__name__ in GROW else 0.
    return [what(p) for i in range(6)], [what(c) for i in range(6)]

def leaves(X, y, how):
    t = stump(X, y)
    m = Model(Data(X, y), Sigma(1., 1., 1.), trees=[t])
    s = LeafNodeSampler()
    s.sample(m, t.leaf_nodes[0])
    c = copy_of(s, how)
    o = LeafNodeSampler()
    return [s.sample(m, t.leaf_nodes[0]) for i in range(3)] + [c.sample(m, t.leaf_nodes[0]) for i in range(3)] + [o.sample(m, t.leaf_nodes[0]) for i in range(2)]

class Idle(TreeMutationSampler):
    def step(self, model, tree):
        return None

def shared(X, y, nc, how, log):
    # leaf values sampled by every chain of an estimator, of its copy and of runs over several data sets
    kw = dict(tree_sampler=Idle(), n_trees=1, n_chains=nc, n_samples=2, n_burn=0, thin=1., n_jobs=nc, initializer=None)
    m = SklearnModel(**kw)
    m.fit(X, y)
    out = [[s.trees[0].nodes[0].current_value, s.sigma.current_value()] for s in m.model_samples]
    if how == "copy":
        c = deepcopy(m)
        c.fit(X, y)
        m.fit(X, y)
        out = out + [[s.trees[0].nodes[0].current_value, s.sigma.current_value()] for s in c.model_samples] + [[s.trees[0].nodes[0].current_value, s.sigma.current_value()] for s in m.model_samples]
    elif how == "other":
        c = SklearnModel(**kw)
        c.fit(X, y)
        out = out + [[s.trees[0].nodes[0].current_value, s.sigma.current_value()] for s in c.model_samples]
    elif how == "runs":
        for g in run_models(m, [X, X], [y, y]):
            out = out + [[s.trees[0].nodes[0].current_value, s.sigma.current_value()] for s in g.model_samples]
    return out
"""

SCAN = EST + """
from bartpy.features.featureimportance import feature_importance
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.extensions.baseestimator import ResidualBART
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.sigma import SigmaSampler

def fitting(X, y, plan, cuts):
    m = estimator(plan, cuts, n_trees=2, n_chains=2, n_samples=2, n_burn=1, thin=1., n_jobs=2, store_in_sample_predictions=True, store_acceptance_trace=True)
    m.fit(X, y)
    m.predict(X)
    m.residuals(X, y)
    return m.predict()

def selecting(X, y, plan, cuts):
    m = estimator(plan, cuts, n_trees=1, n_chains=1, n_samples=1, n_burn=0, thin=1., n_jobs=1)
    SelectSplitProportionThreshold(m, 0.1).fit(X, y).get_support()
    return SelectNullDistributionThreshold(m, 0.5, "local", 2).fit(X, y).get_support()

def importance(X, y, plan, cuts):
    m = estimator(plan, cuts, n_trees=1, n_chains=1, n_samples=1, n_burn=0, thin=1., n_jobs=1)
    return feature_importance(m, X, y, 0, 2, 2)

def extension(X, y, plan, cuts):
    m = ResidualBART(tree_sampler=Scripted(plan, cuts), n_trees=1, n_chains=1, n_samples=1, n_burn=0, thin=1., n_jobs=1)
    m.fit(X, y)
    return m.predict(X)

def imported(X, y, plan, cuts):
    m = estimator(plan, cuts, n_trees=2, n_chains=1, n_samples=1, n_burn=0, thin=1., n_jobs=1, initializer=SklearnTreeInitializer())
    m.fit(X, y)
    return m.predict(X)

def drawing(X, y, plan, cuts):
    d = Data(X, y)
    v = d.X.random_splittable_variable()
    return d.X.random_splittable_value(v)

def gibbs(X, y, plan, cuts):
    t = build(stump(X, y), [("", 0)], cuts)
    m = Model(Data(X, y), Sigma(1., 1., 1.), trees=[t])
    for l in t.leaf_nodes:
        LeafNodeSampler().step(m, l)
    return SigmaSampler().step(m, m.sigma)

def proposing(X, y, plan, cuts):
    from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    t = build(stump(X, y), [("", 0)], cuts)
    m = Model(Data(X, y), Sigma(1., 1., 1.), trees=[t])
    return get_tree_sampler(1., 0.).sample(m, t) is None

def oblivious(X, y, plan, cuts):
    from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    t = build(stump(X, y), [("", 0)], cuts)
    m = Model(Data(X, y), Sigma(1., 1., 1.), trees=[t])
    return get_tree_sampler(1., 0.).sample(m, t) is None
"""


def resolve_imports(nodes, modname, is_pkg):
    out = {}
    for n in nodes:
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


def dotted(e, names):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name) and e.id in names:
        return ".".join([names[e.id]] + parts[::-1])
    return None


def who_may_draw(rep, prog):
    """every call of the package, resolved through the import tables"""
    n = bad = 0
    for mod in sorted(prog.modules):
        if not mod.startswith("bartpy"):
            continue
        m = prog.modules[mod]
        names = resolve_imports(ast.walk(m.tree), mod, m.is_pkg)
        local = {}
        stack = [("", m.tree)]
        while stack:
            q, node = stack.pop()
            for c in ast.iter_child_nodes(node):
                stack.append((q + "." + c.name if isinstance(c, (ast.FunctionDef, ast.ClassDef)) else q, c))
            if not isinstance(node, ast.Call):
                continue
            n += 1
            f = dotted(node.func, names)
            site = (m.relpath, node.lineno, mod + q)
            if f is None:
                continue
            top, last = f.split(".")[0], f.split(".")[-1]
            if top in FOREIGN_TOP or f in ("os.urandom", "uuid.uuid4", "uuid.uuid1") or f.startswith("numpy.random.") and last in FOREIGN_NP:
                rep.violation("who-may-draw", site, "%s draws from a random source other than numpy's global generator" % f)
                bad += 1
            elif f.startswith("numpy.random.") and last in SEEDING and last != "get_state":
                rep.violation("who-may-seed", site, "%s changes the state of numpy's global generator" % f)
                bad += 1
            elif f.startswith(("sklearn.", "scipy.")):
                for k in node.keywords:
                    if k.arg == "random_state" and isinstance(k.value, ast.Constant) and k.value.value is not None:
                        rep.violation("who-may-draw", site, "%s is given a random_state of its own" % f)
                        bad += 1
    rep.obligation("random sources of %d calls" % n, "violated" if bad else "discharged" if n > 200 else "undecided", calls=n)


def run(rep):
    evalt.TAILS = False     # the distribution of draws is what is looked at
    h = H()
    who_may_draw(rep, h.prog)
    X, y = mat("X"), vec("y")
    cuts = [sym("c0"), sym("c1")]
    for e in h.load_events:
        if e.kind in ("foreign-rng", "seed"):
            rep.violation("who-may-draw", e.site, "%s is used while the package is imported" % e.data[0])
    for entry in ("fitting", "selecting", "importance", "extension", "imported", "drawing", "gibbs", "proposing", "oblivious"):
        hh = H()
        if entry == "imported":
            hh.it.stubs["bartpy.data.is_not_constant"] = lambda it, st, a, k, s: T("sym", "free", "bool", ())
        r = hh.client(SCAN, entry, args=[X, y, ["grow", "prune"], cuts], budget=30)
        rep.note_run(r)
        bad = None
        for e in r.events:
            if e.kind == "foreign-rng":
                bad = ("who-may-draw", e.site, "%s draws from a random source other than numpy's global generator" % e.data[0])
            elif e.kind == "seed" and not e.data[0].endswith("get_state"):
                bad = ("who-may-seed", e.site, "%s changes the state of numpy's global generator" % e.data[0])
            elif e.kind == "kfold" and not (e.data[3] is NONE):
                bad = ("who-may-draw", e.site, "the folds are drawn with a random_state of their own")
            if bad:
                rep.violation(*bad)
                break
        rep.obligation("random sources reached by %s" % entry, "violated" if bad else "discharged" if not r.why else "undecided", why=r.why or "", events=len(r.events),
                       draws=len(r.ev_kind("rand", "choice")))

    SC = "bartpy/samplers/scalar.py"
    cls = {"normal": "NormalScalarSampler", "uniform": "UniformScalarSampler", "discrete": "DiscreteSampler"}
    norm = np.vectorize(lambda x: 0.5 * (1 + math.erf(x / math.sqrt(2))))

    def ks(v, kind):
        v = np.sort(np.asarray(v, dtype=float))
        F = norm(v) if kind == "normal" else np.clip(v, 0, 1)
        n = len(v)
        return max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))

    def independent(name, r, kind, probs, n_val, site, split=None, distribution=True, vals=(1.0, 2.0, 3.0)):
        """draws over many valuations: all from the advertised distribution, no two of them related"""
        rows = []

        def pred(env, o, r=r):
            if o.kind != "ok":
                return "drawing fails with %s" % o.exc, o.site
            rows.append([float(x) for x in r.get(env, r.value)])
        if not rep.holds(name, r, pred, rule="independent-draws", n=n_val, rows=(2,), site=site) or len(rows) < n_val // 2:
            return
        V = np.array(rows)
        k = V.shape[1]
        msg = None
        if kind != "discrete":
            for i in range(k):
                for j in range(i):
                    d = np.mean(np.abs(V[:, i] - V[:, j]) < 1e-12)
                    if d > 0.02:
                        msg = msg or "draws %d and %d are the same value: one prefetched value is handed out twice" % (j + 1, i + 1)
                    elif abs(np.corrcoef(V[:, i], V[:, j])[0, 1]) > 0.4:
                        msg = msg or "draws %d and %d are not independent" % (j + 1, i + 1)
            if not msg and distribution:
                D = max(ks(V[:, i], kind) for i in range(k))
                W = V.ravel()
                m, s2 = (0., 1.) if kind == "normal" else (0.5, 1. / 12)
                k4 = 2. if kind == "normal" else 0.8
                if D > 2.6 / math.sqrt(len(V)) or ks(W, kind) > 2.6 / math.sqrt(len(W)) or abs(np.mean(W) - m) > 5 * math.sqrt(s2 / len(W)) or \
                        abs(np.mean((W - m) ** 2) / s2 - 1) > 5 * math.sqrt(k4 / len(W)) or kind == "uniform" and (W.min() < 0 or W.max() > 1):
                    msg = "the draws do not follow the advertised %s distribution" % ("standard normal" if kind == "normal" else "uniform(0,1)")
        else:
            p = np.array(probs or [1. / len(vals)] * len(vals))
            for i in range(k):
                for q, x in zip(p, vals):
                    s = np.mean(V[:, i] == x)
                    if abs(s - q) > 5.5 * math.sqrt(max(q * (1 - q), 1e-9) / len(V)):
                        msg = msg or "value %s is drawn with probability %.3f instead of %.3f" % (x, s, q)
                for j in range(i):
                    s, e = np.mean(V[:, i] == V[:, j]), float(np.sum(p ** 2))
                    if e < 0.95 and abs(s - e) > 5.5 * math.sqrt(e * (1 - e) / len(V)):
                        msg = msg or "draws %d and %d agree with probability %.3f instead of %.3f: they are not independent" % (j + 1, i + 1, s, e)
        rep.fact(name + ": independent", msg is None, rule="independent-draws", site=site, msg=msg or "")

    NV = 240 if rep.tier == "quick" else 1500
    for kind in ("normal", "uniform", "discrete"):
        site = (SC, 0, cls[kind] + ".sample")
        for probs in (None,) if kind != "discrete" else (None, [0.2, 0.5, 0.3], [0.7, 0.0, 0.3]):
            vals = [1.0, 2.0, 3.0]
            for cache in (1, 2, 3, 5):
                nm = "%s cache=%d%s" % (kind, cache, "" if probs is None else " p=%s" % probs)
                n = 2 * cache + 2
                hh = H()
                r = hh.client(SCALAR, "draws", args=[kind, cache, vals, probs, n])
                independent("draws %s" % nm, r, kind, probs, NV if cache != 5 else 3 * NV, site)

                def pre(env, o, r=r, cache=cache, n=n):
                    got = 0
                    for e in r.ev_kind("rand"):
                        if all(evalt.truth(evalt.ev(c, env)) for c in e.pc):
                            short, a, k = e.data[0], e.data[1], dict(e.data[2])
                            z = k.get("size")
                            if z is None and short in ("normal", "uniform") and len(a) > 2:
                                z = a[2]
                            if z is None and short == "choice" and len(a) > 1:
                                z = a[1]
                            if z is None and short in ("random", "rand", "randn", "standard_normal", "random_sample") and a:
                                z = a[0]
                            v = evalt.ev(z, env) if z is not None else None
                            got += 1 if v is None else int(np.prod(v))
                    if got == 0:
                        raise Undecided("number of values drawn unknown")
                    if got < n:
                        return "%d values are drawn from numpy for %d draws" % (got, n), site
                    if got >= n + cache:
                        return "%d values are drawn from numpy for %d draws and a cache of %d: values are thrown away" % (got, n, cache), site
                rep.holds("replenished only when used up, %s" % nm, r, pre, rule="replenish", n=3, rows=(2,), site=site)
                if cache in (2, 3) and probs is None:
                    r = H().client(SCALAR, "two", args=[kind, cache, vals, probs, cache + 1])
                    independent("two samplers %s" % nm, r, kind, probs, NV, site)
                    for how in ("deepcopy", "copy", "pickle", "inside"):
                        for used in (0, 1, cache):
                            r = H().client(SCALAR, "copied", args=[kind, cache, vals, probs, used, how, cache])
                            independent("%s after %d draws %s" % (how, used, nm), r, kind, probs, NV, (SC, 0, cls[kind]))
        r = H().client(SCALAR, "default", args=[kind, 6])
        independent("default cache %s" % kind, r, kind, None, NV, site)

    tree_file = {"default": "bartpy/samplers/unconstrainedtree/", "oblivious": "bartpy/samplers/oblivioustrees/"}
    for kind in ("default", "oblivious"):
        for how in ("deepcopy", "pickle"):
            for what in ("accept", "kinds"):
                args = [X, y, kind, cuts[0]] + ([math.log(0.5)] if what == "accept" else []) + [how]
                r = H().client(SAMPLERS, what, args=args, inject={"GROW": ["uniformly_sample_grow_mutation", "grow_mutations"]})
                pairs = []

                def pred(env, o, r=r):
                    if o.kind != "ok":
                        raise Undecided("not analysable: %s" % o.exc)
                    pairs.append([list(q) for q in r.get(env, r.value)])
                site = (tree_file[kind] + ("treemutation.py" if what == "accept" else "proposer.py"), 0, "UnconstrainedTreeMutationSampler" if what == "accept" else "UniformMutationProposer")
                ok = rep.holds("%s of the %s sampler, %s" % (how, kind, what), r, pred, rule="copies-draw-anew", n=120, rows=(3, 4), err_ok=True)
                if ok and len(pairs) > 60:
                    A, B = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
                    worst = max(abs(np.mean(A[:, i] == B[:, j]) - 0.5) for i in range(A.shape[1]) for j in range(B.shape[1]))
                    rep.fact("%s of the %s sampler, %s: own draws" % (how, kind, what), worst < 0.3, rule="copies-draw-anew", site=site,
                             msg="a copy of the sampler repeats the draws of the original")
    for how in ("deepcopy", "pickle"):
        r = H().client(SAMPLERS, "leaves", args=[X, y, how])
        rows = []

        def pred(env, o, r=r):
            if o.kind != "ok":
                raise Undecided("not analysable: %s" % o.exc)
            v = [float(x) for x in r.get(env, r.value)]
            if any(abs(p - q) < 1e-12 for i, p in enumerate(v) for q in v[:i]):
                return "two of the leaf draws of a sampler, its copy and another sampler are the same: %s" % v, ("bartpy/samplers/leafnode.py", 0, "LeafNodeSampler")
        rep.holds("%s of the leaf sampler" % how, r, pred, rule="copies-draw-anew", n=30)
    for copying in (False, True):
        for nc in (1, 2):
            for how in ("fit", "copy", "other", "runs"):
                hh = H()
                hh.it.copy_on_parallel = copying
                r = hh.client(SAMPLERS, "shared", args=[X, y, nc, how, log_stub])

                def pred(env, o, r=r):
                    if len(set(env.sym(y).tolist())) < 2:
                        raise Vacuous()
                    if o.kind != "ok":
                        raise Undecided("not analysable: %s" % o.exc)
                    got = r.get(env, r.value)
                    for c, what in ((0, "leaf value"), (1, "noise level")):
                        v = [float(g[c]) for g in got]
                        for i in range(len(v)):
                            for j in range(i):
                                if abs(v[i] - v[j]) < 1e-12:
                                    return "samples %d and %d hold the same %s %s: their chains share a draw" % (j, i, what, v[i]), ("bartpy/samplers/leafnode.py" if c == 0 else "bartpy/samplers/sigma.py", 0, "step")
                rep.holds("draws of %d chains, %s, %s" % (nc, how, "separate processes" if copying else "one process"), r, pred, rule="chains-draw-anew", n=20)
