"""client source shared by several rules (analysed, never executed)"""

LIB = """
from operator import le, gt
from copy import deepcopy
from bartpy.data import Data
from bartpy.model import Model
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import LeafNode, DecisionNode, split_node
from bartpy.sigma import Sigma
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition
from bartpy.tree import Tree, mutate

def pair(var, val):
    return SplitCondition(var, val, le), SplitCondition(var, val, gt)

def grow(tree, leaf, var, val):
    d = split_node(leaf, pair(var, val))
    mutate(tree, GrowMutation(leaf, d))
    return d

def prune(tree, node):
    new = LeafNode(node.split, depth=node.depth)
    mutate(tree, PruneMutation(node, new))
    return new

def root_of(tree):
    for n in tree.nodes:
        if n.depth == 0:
            return n

def at(tree, path):
    n = root_of(tree)
    for c in path:
        n = n.left_child if c == "L" else n.right_child
    return n

# a shape is the list of (path, column) of its splits, parents first; cuts are the thresholds
def build(tree, shape, cuts):
    k = 0
    for path, col in shape:
        grow(tree, at(tree, path), col, cuts[k])
        k = k + 1
    return tree

def stump(X, y):
    return Tree([LeafNode(Split(Data(X, y)))])
"""

SHAPES = {
    "stump": [],
    "one": [("", 0)],
    "left": [("", 0), ("L", 1)],
    "right": [("", 1), ("R", 0)],
    "full": [("", 0), ("L", 1), ("R", 0)],
    "chain": [("", 0), ("L", 1), ("LR", 0)],
}


def summarise_distinctness(h):
    """represent bartpy.data.is_not_constant by the summary C06 decides: more than one distinct value"""
    from ..terms import T, const
    h.it.stubs["bartpy.data.is_not_constant"] = lambda it, st, a, k, s: T(
        "cmp", "<", const(1), T("call", "builtins.len", (T("call", "numpy.unique", (it.pure(st, a[0]),), ()),), ()))
