"""C10 Metropolis rule"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, rands, literals
from ..terms import subterms
from .common import LIB, SHAPES

EXPLAIN = """Decision function of both tree samplers over one and two steps, on small trees and on one with more nodes than any constant of the samplers: the proposal, the three score components of every
proposed change and the uniform variate are free symbols; what is returned, what is applied to which tree and how many
variates are used are values of the analysed program and are compared with 'log u < total score' on both sides of the
boundary.  The default variate is identified as a uniform(0,1) draw of its own for every step."""

CLIENT = LIB + """
from bartpy.samplers.treemutation import TreeMutationLikihoodRatio, TreeMutationProposer
from bartpy.trace import TraceLogger

class U:
    def __init__(self, us):
        self.us, self.n = us, 0
    def sample(self):
        self.n = self.n + 1
        return self.us[self.n - 1]

class Score(TreeMutationLikihoodRatio):
    def __init__(self, parts, log):
        self.parts, self.log, self.of = parts, log, []
    def index(self, mutation):
        i = 0
        for m in self.of:
            if m is mutation:
                return i
            i = i + 1
        self.of.append(mutation)
        return i
    def log_transition_ratio(self, tree, mutation):
        return self.parts[self.index(mutation)][0]
    def log_likihood_ratio(self, model, tree, mutation):
        return self.parts[self.index(mutation)][1]
    def log_tree_ratio(self, model, tree, mutation):
        return self.parts[self.index(mutation)][2]

def copy_grow(leaf, col, cut):
    return GrowMutation(leaf, split_node(leaf, pair(col, cut)))

class Proposer(TreeMutationProposer):
    def __init__(self, plan, cuts, many):
        self.plan, self.cuts, self.many, self.k, self.made, self.seen = plan, cuts, many, 0, [], []
    def propose(self, tree):
        what = self.plan[self.k]
        self.k = self.k + 1
        self.seen.append(tree)
        if what == "grow":
            ms = [copy_grow(l, 0, self.cuts[i]) for i, l in enumerate(tree.leaf_nodes)]
        else:
            ms = [PruneMutation(n, LeafNode(n.split, depth=n.depth)) for n in tree.prunable_decision_nodes]
        if not self.many:
            ms = [ms[0]]
        self.made.append(ms)
        return ms if self.many else ms[0]

def which(kind):
    if kind == "default":
        from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    else:
        from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler
    return UnconstrainedTreeMutationSampler

def steps(X, y, shape, cuts, kind, plan, parts, us):
    tree, other = build(stump(X, y), shape, cuts), build(stump(X, y), shape, cuts)
    model = Model(Data(X, y), Sigma(1., 1., 1.), trees=[other, tree])
    u = U(us) if us is not None else None
    score = Score(parts, [])
    prop = Proposer(plan, cuts, kind != "default")
    if us is not None:
        s = which(kind)(prop, score, scalar_sampler=u)
    else:
        s = which(kind)(prop, score)
    hist = []
    before_other = [n for n in other.nodes]
    logger = TraceLogger()
    for p in plan:
        before = [n for n in tree.nodes]
        got = s.step(model, tree)
        made = prop.made[-1]
        hist.append((got, made, before, [n for n in tree.nodes], [score.index(m) for m in made], [(m.kind, m.existing_node, m.updated_node) for m in made],
                     got is None, logger["Tree"](got), (got if (kind != "default" and got is not None) else [got])))
    return hist, (u.n if us is not None else 0), [n for n in other.nodes], before_other, [t is tree for t in prop.seen], [l.depth for l in tree.nodes]

def score(X, y, parts):
    leaf = stump(X, y).nodes[0]
    model = Model(Data(X, y), Sigma(1., 1., 1.), trees=[])
    return Score(parts, []).log_probability_ratio(model, stump(X, y), copy_grow(leaf, 0, 0.))

def sample(X, y, shape, cuts, kind, plan, parts, us):
    tree = build(stump(X, y), shape, cuts)
    model = Model(Data(X, y), Sigma(1., 1., 1.), trees=[tree])
    score = Score(parts, [])
    s = which(kind)(Proposer(plan, cuts, kind != "default"), score, scalar_sampler=U(us))
    before = [n for n in tree.nodes]
    got = s.sample(model, tree)
    return got is None, before, [n for n in tree.nodes]
"""


def run(rep):
    h = H()
    X, y = mat("X"), vec("y")
    cuts = [sym("c%d" % i) for i in range(4)]
    us = [sym("u%d" % i, "unit") for i in range(3)]
    parts = [(sym("t%d" % i), sym("l%d" % i), sym("p%d" % i)) for i in range(8)]
    big = max([12] + [k + 1 for k in literals(modules=["bartpy.samplers", "bartpy.tree"], lo=4, hi=30)])
    # a fishbone: every split but the last has a leaf and a split below it
    BONE = [("LR" * big)[:i] for i in range(big // 2)]

    def shape(n):
        if n == "big":
            return [(p, i % 2) for i, p in enumerate(BONE)]
        return [tuple(s) for s in SHAPES[n]]

    def ref_after(before, ms):
        """nodes after applying the changes, as a set of ids"""
        return None

    r0 = h.client(CLIENT, "score", args=[X, y, parts])

    def pred0(env, o):
        if o.kind != "ok":
            return "scoring fails with %s" % o.exc, o.site
        e = sum(env.sym(q) for q in parts[0])
        if not same(float(r0.get(env, r0.value)), float(e)):
            return "components %s are combined to a score of %s" % ([env.sym(q) for q in parts[0]], r0.get(env, r0.value)), ("bartpy/samplers/treemutation.py", 0, "TreeMutationLikihoodRatio.log_probability_ratio")
    rep.holds("score is the sum of its components", r0, pred0, rule="metropolis", rows=(3,), n=rep.nval * 4)

    for kind in ("default", "oblivious"):
        mod = "bartpy/samplers/%s/treemutation.py" % ("unconstrainedtree" if kind == "default" else "oblivioustrees")
        site = (mod, 0, "UnconstrainedTreeMutationSampler.sample")
        for sh, plan in (("stump", ["grow"]), ("one", ["grow"]), ("one", ["prune"]), ("left", ["prune"]), ("stump", ["grow", "prune"]), ("one", ["grow", "grow"]), ("big", ["grow"]), ("big", ["prune"])):
            if kind != "default" and plan == ["grow", "prune"]:
                continue
            use = list(plan)
            if plan == ["grow", "prune"]:
                sh = "one"
            cs = cuts if sh != "big" else [sym("c%d" % i) for i in range(2 * big)]
            ps = parts if sh != "big" else parts + [(sym("t%d" % i), sym("l%d" % i), sym("p%d" % i)) for i in range(8, 2 * big)]
            r = h.client(CLIENT, "steps", args=[X, y, shape(sh), cs, kind, use, ps, us])

            def pred(env, o, r=r, use=use, kind=kind, ps=ps):
                if len(set(env.sym(y).tolist())) < 2:
                    raise Vacuous()
                if o.kind != "ok":
                    return "a step fails with %s" % o.exc, o.site
                hist, nu, other, other0, on, _ = [r.get(env, q) for q in r.value.args]
                if nu != len(use):
                    return "%d uniform variates are used for %d proposals" % (nu, len(use)), site
                if not all(on):
                    return "a change is proposed for another tree", site
                if len(other) != len(other0) or any(a is not b for a, b in zip(other, other0)):
                    return "another tree than the one visited is changed", site
                for i, (got, made, before, after, idx, ms, none, flag, glist) in enumerate(hist):
                    total = sum(sum(env.sym(q) for q in ps[j]) for j in idx)
                    lu = np.log(env.sym(us[i]))
                    accept = lu < total
                    what = "log u = %.5g, score = %.5g (%d change%s)" % (lu, total, len(idx), "s" * (len(idx) != 1))
                    if accept == bool(none):
                        return ("rejected although " if accept else "accepted although ") + what, site
                    if bool(flag) != accept:
                        return "the step is logged as %s although it is %s" % ("accepted" if flag else "rejected", "accepted" if accept else "rejected"), site
                    if not accept:
                        if len(after) != len(before) or any(a is not b for a, b in zip(after, before)):
                            return "a rejected proposal changes the tree", site
                        continue
                    want = list(before)
                    for k, old, new in ms:
                        if not any(n is new for n in after) or any(n is old for n in after):
                            return "an accepted change is not applied to the tree", site
                        if sum(n is new for n in after) != 1:
                            return "an accepted change is applied %d times" % sum(n is new for n in after), site
                    d = sum(2 if k == "grow" else -2 for k, _, _ in ms)
                    if len(after) != len(before) + d:
                        return "%d nodes become %d nodes by %d accepted changes" % (len(before), len(after), len(ms)), site
                    if len(glist) != len(made) or any(a is not b for a, b in zip(glist, made)):
                        return "the accepted change reported is not the proposed one", site
            rep.holds("decision %s %s %s" % (kind, sh, "/".join(use)), r, pred, rule="metropolis", rows=(5, 4), n=rep.nval * 2)

        for sh in ("stump", "one"):
            r = h.client(CLIENT, "sample", args=[X, y, shape(sh), cuts, kind, ["grow"], parts, us])

            def pred3(env, o, r=r):
                if len(set(env.sym(y).tolist())) < 2:
                    raise Vacuous()
                if o.kind != "ok":
                    return "sampling a change fails with %s" % o.exc, o.site
                none, before, after = [r.get(env, q) for q in r.value.args]
                if len(before) != len(after) or any(a is not b for a, b in zip(before, after)):
                    return "drawing a change already applies it", site
            rep.holds("drawing only %s %s" % (kind, sh), r, pred3, rule="sample-is-pure", rows=(5, 4))

        # the default variate
        r = h.client(CLIENT, "steps", args=[X, y, shape("one"), cuts, kind, ["grow", "grow"], parts, None])
        seen = {}

        def pred2(env, o, r=r, seen=seen):
            if len(set(env.sym(y).tolist())) < 2:
                raise Vacuous()
            if o.kind != "ok":
                return "a step fails with %s" % o.exc, o.site
            hist = r.get(env, r.value.args[0])
            if "draws" not in seen:
                items = r.it.iterate(r.st, r.value.args[0])
                ds = []
                for g, e in items:
                    none = r.it.pure(r.st, e).args[6]
                    ds.append(draws(none))
                seen["draws"] = ds
            used = []
            for i, ((got, made, before, after, idx, ms, none, flag, glist), ds) in enumerate(zip(hist, seen["draws"])):
                new = [d for d in ds if d not in used]
                if len(new) != 1:
                    return "step %d is decided by %d variates of its own" % (i + 1, len(new)), site
                used += new
                u = uniform(env, new[0])
                if u is None:
                    raise Undecided("default variate")
                if u is False:
                    return "the default acceptance variate is not a uniform(0,1) draw: %s" % (new[0],), site
                total = sum(sum(env.sym(q) for q in parts[j]) for j in idx)
                if (np.log(u) < total) == bool(none):
                    return "decision with the default variate differs from log u < score", site
        rep.holds("default variate %s" % kind, r, pred2, rule="fresh-uniform", rows=(5, 4))


def draws(t):
    """individual draws (element of a prefetched block, or a scalar draw) a value depends on"""
    out, inner = [], set()
    for x in subterms(t):
        if x.op == "index" and x.args[0].op == "rand":
            out.append(x)
            inner.add(x.args[0].id)
    for x in subterms(t):
        if x.op == "rand" and x.id not in inner and x not in out:
            out.append(x)
    return out


def uniform(env, d):
    from ..evalt import ev
    src = d.args[0] if d.op == "index" else d
    name = src.args[0].split(".")[-1]
    a = [ev(x, env) for x in src.args[1]]
    k = {p: ev(v, env) for p, v in src.args[2]}
    if name in ("uniform",):
        lo = a[0] if a else k.get("low", 0.0)
        hi = a[1] if len(a) > 1 else k.get("high", 1.0)
        if not same(float(lo), 0.0) or not same(float(hi), 1.0):
            return False
    elif name in ("normal", "randn", "standard_normal", "gamma", "exponential", "randint", "beta", "choice"):
        return False
    elif name not in ("random", "rand", "random_sample", "ranf", "sample"):
        return None
    return ev(d, env)
