"""C29 the share of sampling steps retained equals the thinning setting"""
import numpy as np
from ..harness import H, vec, mat, sym, literals, Vacuous
from .estim import log_stub
from .c17 import CLIENT

EXPLAIN = """ModelSampler.samples and SklearnModel.fit are interpreted for many thinning fractions (reciprocals of whole numbers, fractions that are
not, values near one and very small ones) and lengths of run, with stand-in samplers that write the number of the sweep into the model
(the retention test folds to a constant per step; everything recorded stays symbolic).  After every step the number of samples
retained so far must differ from the requested share of the steps so far by less than one."""


def steps_ok(kept, ns, th):
    """None or what is wrong with the retained steps (numbered from 0)"""
    if sorted(set(kept)) != kept:
        return "retained steps are %s" % kept
    if any(j < 0 or j >= ns for j in kept):
        return "a step outside the sampling phase is retained"
    for n in range(1, ns + 1):
        k = sum(j < n for j in kept)
        if not abs(k - n * th) < 1 - 1e-9 and not abs(k - n * th) < 1e-6:
            return "%d of the first %d sampling steps are retained, the share asked for is %.4g" % (k, n, th)


def run(rep):
    h = H()
    X, y, v, s = mat("X"), vec("y"), sym("v", "pos"), sym("s", "pos")
    site = ("bartpy/samplers/modelsampler.py", 0, "ModelSampler.samples")
    cases = [(n, t) for t in (1., .5, .25, .1, 1 / 3., .3, .75, .7, .9, .4, 2 / 3., .6, .05, 1 / 7., .99, .15) for n in (1, 12)]
    cases += [(50, .1), (50, .3), (101, 1 / 49.), (60, .02), (200, .1), (60, .14), (30, .28), (40, .001), (23, .55), (31, .8)]
    if rep.tier == "thorough":
        cases += [(37, a / 20.) for a in range(1, 21)] + [(64, 1. / a) for a in range(2, 33)] + [(200, .3), (200, 1 / 3.), (400, .01)]
    for L in literals(modules=["bartpy.samplers.modelsampler"], lo=2, hi=150):
        cases += [(L + 2, 1.), (L + 2, .5), (L + 2, .3)]
    for i, (ns, th) in enumerate(cases):
        nb = i % 3
        sp = i % 2 == 0
        r = h.client(CLIENT, "chain", args=[X, y, v, s, 1, ns, nb, th, sp, not sp, False], budget=60)

        def pred(env, o, r=r, ns=ns, nb=nb, th=th, sp=sp):
            if o.kind != "ok":
                return "the run fails with %s" % o.exc, o.site
            (models, preds, acc, accn), k, last = [r.get(env, q) for q in r.value.args]
            S = env.sym(s)
            kept = [int(round(sg - S)) - 1 - nb for sg, lv in models]
            w = steps_ok(kept, ns, th)
            if w:
                return w, site
            if len(preds) != (len(kept) if sp else 0) or len(acc) != (0 if sp else len(kept)):
                return "%d training predictions and %d acceptance rates for %d retained models" % (len(preds), len(acc), len(kept)), site
        rep.holds("chain of %d samples, thin=%.4g" % (ns, th), r, pred, rule="retained-share", n=4, rows=(2, 3))

    site2 = ("bartpy/sklearnmodel.py", 0, "SklearnModel.fit")
    for nc, ns, nb, th in ((1, 10, 1, .3), (2, 9, 0, 1 / 3.), (2, 7, 2, .75), (3, 5, 0, .2), (2, 4, 1, 1.)):
        h2 = H()
        h2.it.copy_on_parallel = True
        r = h2.client(CLIENT, "fit", args=[X, y, log_stub, 1, nc, ns, nb, th, True, True, False], budget=60)

        def pred(env, o, r=r, nc=nc, ns=ns, nb=nb, th=th):
            if len(set(env.sym(y).tolist())) < 2:
                raise Vacuous()
            if o.kind != "ok":
                return "fitting fails with %s" % o.exc, o.site
            al, _, pr, ac = [r.get(env, q) for q in r.value.args]
            steps = [int(round(a)) - 1 - nb for a in al]
            if len(steps) % nc or len(pr) != len(steps) or len(ac) != len(steps):
                return "%d models, %d training predictions, %d acceptance rates from %d chains" % (len(steps), len(pr), len(ac), nc), site2
            k = len(steps) // nc
            for c in range(nc):
                w = steps_ok(steps[c * k:(c + 1) * k], ns, th)
                if w:
                    return "chain %d: %s" % (c, w), site2
        rep.holds("fit of %d chains of %d samples, thin=%.4g" % (nc, ns, th), r, pred, rule="retained-share", n=4, rows=(3, 4))
