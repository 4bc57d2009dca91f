"""C18 runs over many data sets pair each data set with its own samples"""
import numpy as np
from ..harness import H, vec, mat, sym, same, Vacuous, Undecided, literals
from .estim import EST, log_stub, logged

EXPLAIN = """run_models is analysed for one to three symbolic data sets of different lengths, several numbers of chains and all storage
switches, before and after the model passed in was fitted itself, with chains sharing the process and with chains in separate
processes (arguments and results copied).  A stand-in tree sampler stamps every retained model with a value of the data set it
was run on; stamps, stored predictions, acceptance rates and scale of every returned model are compared with its data set's.
The model passed in is compared with what it was before."""

CLIENT = EST + """
class Stamping(TreeMutationSampler):
    # stamps retained models with their data set and sweep
    def __init__(self, log, n):
        self.k, self.n, self.log = 0, n, log
    def step(self, model, tree):
        sweep = self.k
        self.k = self.k + 1
        first = model.data.X.values[0, 0]
        model.alpha = first
        model.beta = sweep
        self.log(first, sweep)
        if first > 0.:
            return "change"
        return None

def held(m):
    return [m.n_trees, m.n_chains, m.n_samples, m.n_burn, m.alpha, m.beta, m.n_jobs]

def what(m, X):
    ms = m.model_samples
    return ([s.alpha for s in ms], [s.beta for s in ms], [p for p in m.prediction_samples], [a["Tree"] for a in m.acceptance_trace], [s.predict(X) for s in ms],
            m.data.y.unnormalized_y, m.data.y.normalizing_scale, held(m))

def go(log, Xs, ys, Xn, nt, nc, ns, nb, sp, sa, fitted, Xf, yf, touch):
    m = SklearnModel(tree_sampler=Stamping(log, nt), n_trees=nt, n_chains=nc, n_samples=ns, n_burn=nb, thin=1., store_in_sample_predictions=sp, store_acceptance_trace=sa,
                     n_jobs=2, initializer=None)
    before, p0, own = None, 0., None
    if fitted:
        m.fit(Xf, yf)
        before, own = what(m, Xf), [s for s in m.model_samples]
        p0 = m.predict(Xn)
        data = m.data
    h0 = held(m)
    log('start')
    got = run_models(m, Xs, ys)
    log('end')
    if touch:
        got[0].fit(Xf, yf)
        got[0].n_trees = 99
    same_data = fitted == False or m.data is data
    out = [(what(g, x), g.predict(Xn), [s.predict(Xn) for s in g.model_samples]) for g, x in zip(got, Xs)]
    after, p1, now = None, 0., None
    if fitted:
        after, now = what(m, Xf), [s for s in m.model_samples]
        p1 = m.predict(Xn)
    return len(got), out, before, after, own, now, p0, p1, h0, held(m), m.model_samples is None, [g is m for g in got], same_data
"""


def sameish(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(sameish(p, q) for p, q in zip(a, b))
    return a is b or same(a, b)


def run(rep):
    many = [5] + [k + 1 for k in literals(modules=["bartpy.runner"], lo=5, hi=40)][:2]
    Xs = [mat("X%d" % (i + 1), rows="P%d" % (i + 1)) for i in range(max(many))]
    ys = [vec("y%d" % (i + 1), rows="P%d" % (i + 1)) for i in range(max(many))]
    Xn, Xf, yf = mat("Xn", rows="P4"), mat("Xf"), vec("yf")
    site = ("bartpy/runner.py", 0, "run_models")
    for copying in (False, True):
        h = H()
        h.it.copy_on_parallel = copying
        for nd, nt, nc, ns, nb in ((1, 1, 2, 2, 1), (2, 1, 1, 2, 0), (2, 2, 2, 1, 1), (3, 1, 2, 2, 0), (3, 1, 3, 1, 1), (2, 1, 3, 2, 1), (2, 1, 5, 1, 0)) + (() if copying else tuple((k, 1, 2, 1, 0) for k in many)):
            for sp, sa in ((True, True), (False, False), (True, False)):
                for fitted in (False, True):
                    for touch in (False, True):
                        if (nd > 3 or nc > 3) and (touch or not sp or fitted):
                            continue
                        if touch and not (sp and sa) or rep.tier == "quick" and fitted and sa != sp:
                            continue
                        r = h.client(CLIENT, "go", args=[log_stub, Xs[:nd], ys[:nd], Xn, nt, nc, ns, nb, sp, sa, fitted, Xf, yf, touch])

                        def pred(env, o, r=r, nd=nd, nt=nt, nc=nc, ns=ns, nb=nb, sp=sp, sa=sa, fitted=fitted, touch=touch, copying=copying):
                            if any(len(set(env.sym(q).tolist())) < 2 for q in ys[:nd] + [yf]):
                                raise Vacuous()
                            if len({float(env.sym(q)[0, 0]) for q in Xs[:nd]}) < nd:
                                raise Vacuous()
                            if o.kind != "ok":
                                return "the run fails with %s" % o.exc, o.site
                            n, out, before, after, own, now, p0, p1, h0, h1, none, ism, sd = [r.get(env, q) for q in r.value.args]
                            if n != nd:
                                return "%d models are returned for %d data sets" % (n, nd), site
                            log = logged(r, env)
                            names = [e[0] for e in log]
                            log = log[names.index("start") + 1:names.index("end")]
                            for i, (w, p, snaps) in enumerate(out):
                                if touch and i == 0:
                                    continue
                                al, be, pr, ac, own_p, yy, scale, hd = w
                                a = env.sym(Xs[i])[0, 0]
                                Y = env.sym(ys[i])
                                mine = [e[1] for e in log if same(e[0], a)]
                                if len(mine) != nc * nt * (nb + ns):
                                    return "%d tree updates on data set %d instead of %d" % (len(mine), i, nc * nt * (nb + ns)), site
                                sweeps = [float(mine[nt * (c * (ns + nb) + nb + j + 1) - 1]) for c in range(nc) for j in range(ns)]
                                if len(al) != nc * ns or not all(same(q, a) for q in al):
                                    return "model %d holds samples of data sets starting with %s, its own starts with %s (%d chains of %d samples)" % (i, al, a, nc, ns), site
                                if not same([float(q) for q in be], sweeps):
                                    return "model %d holds the samples of sweeps %s of its chains, expected %s" % (i, be, sweeps), site
                                if len(pr) != (nc * ns if sp else 0) or len(ac) != (nc * ns if sa else 0):
                                    return "model %d holds %d training predictions and %d acceptance rates for %d samples" % (i, len(pr), len(ac), nc * ns), site
                                if sp and not all(same(np.asarray(u), np.asarray(v)) for u, v in zip(pr, own_p)):
                                    return "the training predictions of model %d are not those of its samples" % i, site
                                if sa and not all(same(q, 1. if a > 0 else 0.) for q in ac):
                                    return "the acceptance rates of model %d are those of another data set" % i, site
                                if not same(np.asarray(yy), Y) or not same(scale, Y.max() - Y.min()):
                                    return "model %d holds the target %s, its data set's is %s" % (i, yy, Y), site
                                e = np.mean(np.array(snaps), axis=0)
                                e = Y.min() + (e + 0.5) * (Y.max() - Y.min())
                                if not same(np.asarray(p), e):
                                    return "model %d predicts %s; its samples on the scale of its data set give %s" % (i, p, e), site
                                if not sameish(hd, h0):
                                    return "model %d has settings %s, the model passed in has %s" % (i, hd, h0), site
                                if ism[i]:
                                    return "the model passed in is returned as model %d" % i, site
                            if not sameish(h0, h1):
                                return "the settings of the model passed in become %s, they were %s" % (h1, h0), site
                            if fitted:
                                if not sameish(before, after) or not same(np.asarray(p0), np.asarray(p1)) or len(own) != len(now) or any(u is not v for u, v in zip(own, now)) or not sd:
                                    return "the model passed in does not keep the samples it had", site
                            elif not none:
                                return "the model passed in holds samples although it was never fitted", site
                        rep.holds("%d data sets chains=%d trees=%d samples=%d burn=%d switches=%s,%s%s%s%s" % (nd, nc, nt, ns, nb, sp, sa, " fitted before" if fitted else "", " one refitted" if touch else "", " separate processes" if copying else ""),
                                  r, pred, rule="paired-data-sets", n=8, rows=(3, 4, 5), modes=("real", "ties", "mixed"))
