"""C07 what a sweep visits, in which order; C08 shares the client"""
from ..harness import H, literals, vec, mat, sym, same, Vacuous
from .common import LIB, SHAPES

EXPLAIN = """Effect trace of one and two complete sweeps (ModelSampler.step over SampleSchedule) of models with one to three
trees, with stand-in tree, leaf and noise samplers that record every request and change the visited tree (nothing, grow,
prune) so that the set of leaves differs before and after the structural update; the trace is a value of the analysed
program and is compared with the order the property demands for symbolic data, thresholds and leaf values."""

SWEEP = LIB + """
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.trace import TraceLogger

class TreeSampler:
    def __init__(self, log, plan, cut):
        self.log, self.plan, self.cut = log, plan, cut
    def step(self, model, tree):
        k = len([e for e in self.log if e[0] == "tree"])
        entry = ["tree", tree, tree.nodes[0].data.y.values + 0., [l for l in tree.leaf_nodes], [t.predict() + 0. for t in model.trees if t is not tree], None, None]
        what = self.plan[k] if k < len(self.plan) else "none"
        if what == "grow":
            grow(tree, [l for l in tree.leaf_nodes][-1], 0, self.cut)
        if what == "prune":
            prune(tree, [n for n in tree.prunable_decision_nodes][0])
        entry[6] = [l for l in tree.leaf_nodes]
        self.log.append(entry)
        return what != "none"

class LeafSampler:
    def __init__(self, log, values):
        self.log, self.values = log, values
    def step(self, model, node):
        k = len([e for e in self.log if e[0] == "leaf"])
        v = self.values[k % len(self.values)] + k
        node.set_value(v)
        self.log.append(["leaf", node, v])
        return v

class SigmaSampler:
    def __init__(self, log, value):
        self.log, self.value = log, value
    def step(self, model, sigma):
        self.log.append(["sigma", sigma, model.predict() + 0., [t.predict() + 0. for t in model.trees]])
        sigma.set_value(self.value)
        return self.value

def trees_of(X, y, shapes, cuts, leafvals):
    trees = [build(stump(X, y), s, cuts) for s in shapes]
    k = 0
    for t in trees:
        for l in t.leaf_nodes:
            l.set_value(leafvals[k % len(leafvals)] + k)
            k = k + 1
    return trees

def sweeps(X, y, shapes, cuts, leafvals, plan, sweeps, sv):
    log = []
    sigma = Sigma(1., 1., 1.)
    model = Model(Data(X, y), sigma, trees=trees_of(X, y, shapes, cuts, leafvals))
    sampler = ModelSampler(SampleSchedule(TreeSampler(log, plan, cuts[3]), LeafSampler(log, leafvals), SigmaSampler(log, sv)))
    logger = TraceLogger()
    for s in range(sweeps):
        sampler.step(model, logger)
        log.append(["end", sigma, model.predict() + 0.])
    return log, model.trees, sigma, model.data.y.values, model.sigma, Data(X, y).y.values
"""

CASES = [
    (["one"], ["none"]),
    (["stump"], ["grow", "prune"]),
    (["one", "stump"], ["prune", "grow", "grow"]),
    (["left", "one"], ["grow", "none", "prune"]),
    (["stump", "one", "right"], ["grow", "prune", "none", "prune"]),
    (["stump", "stump"], ["grow", "grow", "prune", "prune"]),
]


def runs(h, X, y, thorough):
    cuts = [sym("c%d" % i) for i in range(4)]
    vals = [sym("v%d" % i) for i in range(3)]
    cases = [(a, b, (1, 2) + ((3,) if thorough else ())) for a, b in CASES]
    # sizes at which the code itself changes its behaviour
    for k in literals(modules=["bartpy.samplers.schedule", "bartpy.samplers.modelsampler", "bartpy.model", "bartpy.trace"], lo=4, hi=260)[:3]:
        cases.append((["stump"] * (k + 2), ["none"], (1,)))
        if k <= 20:
            cases.append((["stump"], ["grow"] + ["none"] * k, (k + 2,)))
            cases.append((["stump"], ["grow"] * (k + 1), (k + 1,)))
    for shapes, plan, ns in cases:
        for n in ns:
            r = h.client(SWEEP, "sweeps", args=[X, y, [[tuple(s) for s in SHAPES[k]] for k in shapes], cuts, vals, list(plan), n, sym("sv", "pos")], budget=120)
            yield "%s %s sweeps=%d" % ("+".join(shapes) if len(shapes) < 5 else "%d trees" % len(shapes), "/".join(plan[:4]), n), r, n, len(shapes)


def run(rep):
    h = H()
    X, y = mat("X"), vec("y")
    for name, r, n, nt in runs(h, X, y, rep.tier == "thorough"):
        def pred(env, o, r=r, n=n, nt=nt):
            if o.kind != "ok":
                return "a sweep fails with %s" % o.exc, o.site
            if len(set(env.sym(y).tolist())) < 2:
                raise Vacuous()
            log, trees, sigma, _, sig2, _ = [r.get(env, x) for x in r.value.args]
            at = ("bartpy/samplers/schedule.py", 0, "SampleSchedule.steps")
            sw, cur = [], []
            for e in log:
                if e[0] == "end":
                    sw.append(cur)
                    cur = []
                else:
                    cur.append(e)
            if len(sw) != n:
                return "%d sweeps recorded" % len(sw)
            for s in sw:
                kinds = [e[0] for e in s]
                if kinds.count("sigma") != 1:
                    return "the noise level is redrawn %d times in one sweep" % kinds.count("sigma"), at
                if kinds[-1] != "sigma":
                    return "a tree or leaf is updated after the noise level in the same sweep (%s)" % kinds, at
                if s[-1][1] is not sigma:
                    return "another object than the model's noise level is redrawn", at
                seen, i = [], 0
                while i < len(s) - 1:
                    if s[i][0] != "tree":
                        return "a leaf is redrawn before its tree's structure is updated (%s)" % kinds, at
                    t = s[i][1]
                    seen.append(t)
                    want = list(s[i][6])
                    got = []
                    i += 1
                    while s[i][0] == "leaf":
                        got.append(s[i][1])
                        i += 1
                    if len(got) != len(want) or any(sum(g is w for g in got) != 1 for w in want):
                        return "%d leaf draws for the %d leaves the tree has after its structural update" % (len(got), len(want)), at
                for t in trees:
                    if sum(t is u for u in seen) != 1:
                        return "a tree is visited %d times in one sweep" % sum(t is u for u in seen), at
                if len(seen) != nt:
                    return "%d visits for %d trees" % (len(seen), nt), at
        rep.holds("sweep " + name, r, pred, rule="sweep-order", rows=(5, 4))
