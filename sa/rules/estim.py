"""client source shared by the rules about the estimator"""
from .common import LIB

EST = LIB + """
import numpy as np
from bartpy.sklearnmodel import SklearnModel
from bartpy.runner import run_models
from bartpy.samplers.treemutation import TreeMutationSampler

class Scripted(TreeMutationSampler):
    # a tree sampler that performs a fixed sequence of changes through the package's own operations
    def __init__(self, plan, cuts):
        self.k, self.plan, self.cuts = 0, plan, cuts
    def step(self, model, tree):
        what = self.plan[self.k % len(self.plan)]
        self.k = self.k + 1
        if what == "grow":
            g = grow(tree, [l for l in tree.leaf_nodes][-1], self.k % 2, self.cuts[self.k % len(self.cuts)])
            return g
        if what == "prune" and len(tree.nodes) > 1:
            return prune(tree, [n for n in tree.prunable_decision_nodes][0])
        return None

class StatModel:
    # a stand-in for a statsmodels model: half the first column
    def __init__(self, y, X):
        self.y, self.X = y, X
    def fit(self):
        return StatFit(self.y, self.X)

class StatFit:
    def __init__(self, y, X):
        self.resid = y - np.asarray(X)[:, 0] * 0.5
    def predict(self, X):
        return np.asarray(X)[:, 0] * 0.5

def estimator(plan, cuts, **kw):
    return SklearnModel(tree_sampler=Scripted(plan, cuts), **kw)
"""

PROBE = """
class Probe(TreeMutationSampler):
    # reports what the sampling run hands to a tree sampler
    def __init__(self, log, tag):
        self.log, self.tag = log, tag
    def step(self, model, tree):
        s = model.sigma
        self.log(self.tag, len(model.trees), model.n_trees, model.alpha, model.beta, s.alpha, s.beta, s.scaling_factor, model.data.y.values, tree.nodes[0].current_value, model.data.X.values)
        return None
"""


def log_stub(it, st, args, kwargs, site):
    from ..terms import NONE
    it.emit(st, "log", tuple(it.pure(st, a) for a in args), site)
    return NONE


def logged(run, env):
    """the log entries of one valuation, in order"""
    from .. import evalt
    out = []
    for e in run.ev_kind("log"):
        if all(evalt.truth(evalt.ev(c, env)) for c in e.pc):
            out.append([evalt.ev(t, env) for t in e.data])
    return out
