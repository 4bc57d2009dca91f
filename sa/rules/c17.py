"""C17 only post-burn-in states are recorded and recorded series line up"""
import numpy as np
from .. import evalt
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided
from ..terms import TRUE
from .estim import EST, log_stub, logged

EXPLAIN = """Summaries of ModelSampler.samples and of SklearnModel.fit with stand-in samplers that write the number of the sweep into
the model, for all small numbers of burn-in and sampling sweeps, chains, storage switches, several thinning fractions and a
symbolic one (where the retention test stays a gate of the value graph); the recorded models, training predictions and
acceptance rates are compared with the states after the sweeps the property allows."""

CLIENT = EST + """
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule

class Trees:
    # numbers the sweeps; accepts in a pattern that tells sweeps apart
    def __init__(self, n_trees):
        self.k, self.n = 0, n_trees
    def step(self, model, tree):
        sweep = self.k // self.n
        i = self.k % self.n
        self.k = self.k + 1
        if i < sweep % (self.n + 1):
            return "change"
        return None

class Leaves:
    def __init__(self, v, trees):
        self.v, self.trees = v, trees
    def step(self, model, node):
        node.set_value(self.v * ((self.trees.k - 1) // self.trees.n + 1))
        return self.v

class Noise:
    def __init__(self, v, trees):
        self.v, self.trees = v, trees
    def step(self, model, sigma):
        sigma.set_value(self.v + self.trees.k // self.trees.n)
        return self.v

def seen(c):
    return ([(m.sigma.current_value(), [l.current_value for t in m.trees for l in t.leaf_nodes]) for m in c["model"]], [p for p in c["in_sample_predictions"]],
            [a["Tree"] for a in c["acceptance"]], [len(a) for a in c["acceptance"]])

def chain(X, y, v, s, nt, n_samples, n_burn, thin, sp, sa, again):
    trees = [stump(X, y) for i in range(nt)]
    model = Model(Data(X, y), Sigma(1., 1., 1.), trees=trees)
    ts = Trees(nt)
    sampler = ModelSampler(SampleSchedule(ts, Leaves(v, ts), Noise(s, ts)))
    if again:
        sampler.samples(model, 1, 1, 1., True, True)
    return seen(sampler.samples(model, n_samples, n_burn, thin, sp, sa)), ts.k, model.sigma.current_value()

class Marking(TreeMutationSampler):
    # writes the sweep number into a setting that retained models keep
    def __init__(self, log, n):
        self.k, self.n, self.log = 0, n, log
    def step(self, model, tree):
        sweep = self.k // self.n
        self.k = self.k + 1
        model.alpha = sweep + 1.
        self.log(sweep)
        if sweep % 2 == 0:
            return "change"
        return None

def fit(X, y, log, nt, nc, ns, nb, th, sp, sa, again):
    m = SklearnModel(tree_sampler=Marking(log, nt), n_trees=nt, n_chains=nc, n_samples=ns, n_burn=nb, thin=th, store_in_sample_predictions=sp, store_acceptance_trace=sa,
                     n_jobs=1, initializer=None)
    if again:
        m.fit(X[:, [1, 0]], y + 1.)
        m.tree_sampler.k = 0
        log("again")
    m.fit(X, y)
    return [s.alpha for s in m.model_samples], [s.predict(X) for s in m.model_samples], [p for p in m.prediction_samples], [a["Tree"] for a in m.acceptance_trace]
"""


def run(rep):
    h = H()
    X, y, v, s = mat("X"), vec("y"), sym("v", "pos"), sym("s", "pos")
    site = ("bartpy/samplers/modelsampler.py", 0, "ModelSampler.samples")
    thin = sym("thin", "unit")

    def check(name, r, nt, ns, nb, th, sp, sa, off=0):
        def pred(env, o):
            if len(set(env.sym(y).tolist())) < 2:
                raise Vacuous()
            if o.kind != "ok":
                return "the run fails with %s" % o.exc, o.site
            (models, preds, acc, accn), k, last = [r.get(env, q) for q in r.value.args]
            V, S = env.sym(v), env.sym(s)
            if k != nt * (ns + nb + off):
                return "%s sweeps are performed instead of %d" % (k / float(nt), ns + nb), site
            kept = list(range(ns))
            if th != 1.:
                # which steps are retained is not the point here
                kept = []
                for (sg, lv) in models:
                    j = int(round(sg - S)) - 1 - nb - off
                    kept.append(j)
                if sorted(set(kept)) != kept:
                    return "the retained samples are those of sampling steps %s" % kept, site
            if len(models) != len(kept):
                return "%d models are recorded for %d retained steps" % (len(models), len(kept)), site
            for what, got, on in (("training predictions", preds, sp), ("acceptance rates", acc, sa)):
                if len(got) != (len(kept) if on else 0):
                    return "%d %s recorded for %d recorded models (switch %s)" % (len(got), what, len(kept), on), site
            for i, j in enumerate(kept):
                sweep = nb + j + 1 + off       # number of sweeps completed
                if j < 0 or j >= ns:
                    return "a state of sweep %d is recorded, burn-in lasts %d sweeps" % (sweep, nb), site
                sg, lv = models[i]
                if not same(sg, S + sweep) or not all(same(q, V * sweep) for q in lv):
                    return "recorded model %d has noise level %s and leaf values %s; after sweep %d they are %s and %s" % (i, sg, lv, sweep, S + sweep, V * sweep), site
                if sp and not same(np.asarray(preds[i]), np.full(env.rows, V * sweep * nt)):
                    return "training prediction %d is %s, after sweep %d it is %s" % (i, preds[i], sweep, V * sweep * nt), site
                if sa and not same(acc[i], ((sweep - 1) % (nt + 1)) / float(nt)):
                    return "acceptance rate %d is %s, in sweep %d it is %s" % (i, acc[i], sweep, ((sweep - 1) % (nt + 1)) / float(nt)), site
        rep.holds(name, r, pred, rule="recorded-states", n=10, rows=(3, 4, 5))

    switches = [(True, True), (True, False), (False, True), (False, False)]
    cases = [(1, 2, 2, 1.), (2, 3, 1, 1.), (1, 3, 0, 1.), (2, 4, 2, .5), (1, 5, 1, .25), (1, 1, 0, .1), (2, 3, 2, thin), (1, 4, 0, thin), (1, 0, 2, 1.), (1, 30, 25, 1.), (1, 60, 3, .1), (2, 5, 40, .2)]
    if rep.tier == "thorough":
        cases += [(3, 6, 3, 1.), (2, 8, 1, .25), (1, 9, 4, .125), (1, 7, 2, thin)]
    for nt, ns, nb, th in cases:
        for sp, sa in switches:
            for again in (False, True):
                if again and (sp, sa) != (True, True):
                    continue
                r = h.client(CLIENT, "chain", args=[X, y, v, s, nt, ns, nb, th, sp, sa, again])
                check("chain trees=%d samples=%d burn=%d thin=%s switches=%s,%s%s" % (nt, ns, nb, th if isinstance(th, float) else "any", sp, sa, " second run" if again else ""), r, nt, ns, nb, th, sp, sa, 2 if again else 0)

    site2 = ("bartpy/sklearnmodel.py", 0, "SklearnModel.fit")
    for copying in (False, True):
        for nt, nc, ns, nb, th in ((1, 2, 2, 1, 1.), (2, 3, 1, 0, 1.), (1, 1, 3, 2, 1.), (1, 2, 3, 1, .5)):
            for sp, sa in switches:
                for again in (False, True):
                    if again and (nc != 2 or th != 1.):
                        continue
                    h2 = H()
                    h2.it.copy_on_parallel = copying
                    r = h2.client(CLIENT, "fit", args=[X, y, log_stub, nt, nc, ns, nb, th, sp, sa, again])

                    def pred(env, o, r=r, nt=nt, nc=nc, ns=ns, nb=nb, th=th, sp=sp, sa=sa, copying=copying):
                        if len(set(env.sym(y).tolist())) < 2:
                            raise Vacuous()
                        if o.kind != "ok":
                            return "fitting fails with %s" % o.exc, o.site
                        al, sp_, pr, ac = [r.get(env, q) for q in r.value.args]
                        kept = list(range(ns))
                        if th != 1.:
                            kept = [int(a) - 1 - nb for a in al[:len(al) // nc]]
                            if any(j < 0 or j >= ns for j in kept):
                                return "the retained models are those after sweeps %s (%d burn-in, %d sampling sweeps)" % (al, nb, ns), site2
                        want = [(c * (ns + nb) if not copying else 0) + nb + j + 1. for c in range(nc) for j in kept]
                        if not same([float(q) for q in al], want):
                            return "the retained models are those after sweeps %s, expected %s (%d chains)" % (al, want, nc), site2
                        if len(pr) != (len(want) if sp else 0) or len(ac) != (len(want) if sa else 0):
                            return "%d training predictions and %d acceptance rates for %d retained models" % (len(pr), len(ac), len(want)), site2
                        for i, w in enumerate(want):
                            if sp and not same(np.asarray(pr[i]), np.asarray(sp_[i])):
                                return "stored training prediction %d is %s, the model retained at that step predicts %s" % (i, pr[i], sp_[i]), site2
                            if sa and not same(ac[i], 1. if int(w - 1) % 2 == 0 else 0.):
                                return "acceptance rate %d belongs to another sweep" % i, site2
                    rep.holds("fit chains=%d trees=%d samples=%d burn=%d thin=%s switches=%s,%s%s%s" % (nc, nt, ns, nb, th, sp, sa, " separate processes" if copying else "", " second fit" if again else ""), r, pred,
                              rule="combined-chains", n=8, rows=(3, 4))
