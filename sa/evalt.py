"""Term equivalence by random interpretation.

Terms (not programs) are evaluated under random valuations of their free symbols.  Two terms that
disagree under one valuation denote different values (the valuation is the witness); terms that
agree under all valuations tried are accepted as equal.  The constants that the analysed code
compares against are mixed into the valuations so that guarded special cases are entered.
"""
import hashlib
import math

import numpy as np

from .terms import Term, T, subterms, is_const, cval, children

np.seterr(all="ignore")


class Undecided(Exception):
    """the term contains something the analysis does not model"""


class Vacuous(Exception):
    """the valuation is outside the domain (diverging loop bound, precondition)"""


class EvalError(Exception):
    """evaluating the term itself fails (e.g. shape mismatch, index error)"""


class Ref:
    __slots__ = ("oid",)
    pool = {}

    def __new__(cls, oid):
        r = cls.pool.get(oid)
        if r is None:
            r = object.__new__(cls)
            r.oid = oid
            cls.pool[oid] = r
        return r

    def __repr__(self):
        return "#%s" % (self.oid,)


class Named:
    """a function, class or external name used as a value"""
    pool = {}

    def __new__(cls, k):
        r = cls.pool.get(k)
        if r is None:
            r = object.__new__(cls)
            r.k = k
            cls.pool[k] = r
        return r

    def __repr__(self):
        return "<%s>" % (self.k,)


def _h(*xs):
    return int.from_bytes(hashlib.sha1(repr(xs).encode()).digest()[:4], "big")


def freeze(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("o", tuple(freeze(x) for x in v.ravel()))
        return ("a", v.shape, tuple(np.round(v.astype(float), 9).ravel().tolist()))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(freeze(x) for x in v))
    if isinstance(v, dict):
        return ("d", tuple((freeze(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (bool, np.bool_)):
        return ("n", float(v))
    if isinstance(v, (int, float, np.number)):
        return ("n", round(float(v), 9))
    return repr(v)


NEAR = (-1.5, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 1.5)


class Valuation:
    exact = False

    def __init__(self, seed, rows=5, mode="real", pool=(), over=None, big=False, step=1.0):
        self.seed, self.rows, self.mode, self.pool = seed, rows, mode, sorted(set(pool))
        self.big, self.step = big, step
        self.over = {(k if isinstance(k, str) else k.args[0]): v for k, v in (over or {}).items()}
        self.vals = {}
        self.memo = {}

    def rng(self, *key):
        return np.random.RandomState(_h(self.seed, *key))

    def decide(self, key, w):
        """outcome of a discrete random draw with probabilities w"""
        return int(min(np.flatnonzero(w)[-1], np.searchsorted(np.cumsum(w), self.rng(*key).uniform(), side="right")))

    def dim(self, name):
        if name == "N":
            return self.rows
        if self.big and _h(self.seed, "bigdim", name) % 3:
            return self.rows
        return (2, 3, 4, 5, 2, 3, 4, 5, 1)[_h(self.seed, "dim", name) % 9]

    def scalar(self, kind, r):
        pool = self.pool
        if kind == "bool":
            return bool(r.randint(2))
        if pool and kind in ("num", "pos", "int", "posint", "unit") and r.rand() < 0.4:
            c = pool[r.randint(len(pool))]
            if kind in ("num", "pos", "unit") and r.rand() < 0.5:
                # on either side of a constant of the code
                u = r.rand()
                c = float([c * u, c * (1 + 0.1 * u), c + (1 - c) * u if 0 < c < 1 else c * (1 + u)][r.randint(3)])
            else:
                c = [c, c, c + 1, c - 1, 2 * c, c][r.randint(6)]
            if kind in ("int", "posint"):
                c = int(c)
            if (kind == "pos" and c <= 0) or (kind == "posint" and c < 1) or (kind == "int" and c < 0) or (kind == "unit" and not 0 < c < 1):
                pass
            else:
                return c
        if kind == "num" and self.mode == "near":
            return float(self.base(False) + self.step * NEAR[r.randint(len(NEAR))])
        if kind == "num":
            return float(r.randint(-3, 4)) if self.mode == "ties" else float(r.normal() * 2)
        if kind == "pos":
            return float(r.randint(1, 4)) if self.mode == "ties" else float(r.uniform(0.2, 3))
        if kind == "unit":
            if r.rand() < 0.15:
                e = float(10 ** r.uniform(-4, -1.3))
                return e if r.randint(2) else 1 - e
            return float(r.uniform(0.05, 0.95))
        if kind == "int":
            return int(r.randint(0, 7))
        if kind == "posint":
            return int(r.randint(1, 7))
        raise Undecided("symbol kind " + kind)

    def base(self, exact):
        """common centre of the values of a 'near' valuation; 0 where differences of tiny steps would be lost to rounding"""
        if self.step < 1e-4 and not exact:
            return 0.0
        return (0.0, 1.0, -2.0, 0.0)[_h(self.seed, "base") % 4]

    def vec(self, n, r, cols=None, small=False):
        shape = (n,) if cols is None else (n, cols)
        if self.mode == "near":
            b = self.base(small or (cols is not None and _h(self.seed, "exact") % 2))
            return b + self.step * np.array(NEAR)[r.randint(len(NEAR), size=shape)]
        if self.mode == "ties":
            v = r.randint(-2, 3, size=shape).astype(float)
        elif self.mode == "mixed":
            v = np.round(r.normal(size=shape) * 2) / 2.0
        elif self.mode == "binary":
            v = r.randint(0, 2, size=shape).astype(float)
        elif self.mode == "offset":
            v = r.normal(size=shape) * 2 + (50.0 if r.randint(2) else -50.0)
        elif self.mode == "small" and (cols is not None or small):
            v = r.randint(0, 4, size=shape) * 1e-9 if not small or r.randint(2) else 1e6 + r.randint(0, 4, size=shape) * 0.0078125
        else:
            v = r.normal(size=shape) * 2
        if self.big and n > 3 and r.rand() < 0.4:
            # nearly constant: one row differs
            v[:] = v[0]
            v[-1 if r.randint(2) else r.randint(n)] += 1.0
        if self.pool and r.rand() < 0.3 and v.size:
            v.flat[r.randint(v.size)] = self.pool[r.randint(len(self.pool))]
        return v

    def sym(self, t):
        name, kind, meta = t.args
        if name in self.over:
            return self.over[name]
        if name not in self.vals:
            r = self.rng("sym", name)
            m = dict(meta)
            if kind in ("vec", "mask", "mat"):
                n = m["n"] if "n" in m else self.dim(m.get("rows", "N"))
                if kind == "mask":
                    v = r.randint(2, size=n).astype(bool)
                elif kind == "mat" and m.get("what") == "int":
                    v = r.randint(-2, 4, size=(n, m.get("cols", 2)))
                elif kind == "mat":
                    v = self.vec(n, r, m.get("cols", 2))
                elif m.get("what") == "int":
                    v = r.randint(0, 4, size=n)
                else:
                    v = self.vec(n, r, small=m.get("small", False))
                if kind == "vec" and m.get("distinct") and n > 1 and len(set(v.tolist())) < 2:
                    v[0] += 1.0
                if kind == "vec" and m.get("pos"):
                    v = np.abs(v) + 0.25
            else:
                v = None
                if kind == "num" and r.rand() < 0.3:
                    # thresholds are taken from the data
                    ms = [self.vals[k] for k in sorted(self.vals) if isinstance(self.vals[k], np.ndarray) and self.vals[k].ndim == 2 and self.vals[k].size]
                    if ms:
                        q = ms[r.randint(len(ms))].ravel()
                        v = float(q[r.randint(q.size)])
                if v is None:
                    v = self.scalar(kind, r)
                if type(v) is float:
                    v = np.float64(v)
            self.vals[name] = v
        return self.vals[name]


PURE_BUILTINS = {"abs": abs, "len": len, "max": max, "min": min, "sum": sum, "sorted": sorted, "list": list, "tuple": tuple,
                 "set": set, "float": float, "int": int, "bool": bool, "any": any, "all": all, "range": range, "round": round,
                 "str": str, "reversed": lambda x: list(reversed(x)), "dict": dict, "frozenset": frozenset, "zip": lambda *a: list(zip(*a)),
                 "enumerate": lambda *a: list(enumerate(*a)), "pow": pow, "divmod": divmod, "repr": repr, "hash": hash}


def npfix(v):
    """python list of scalars/arrays -> something numpy digests"""
    if isinstance(v, list) and any(isinstance(x, (Ref, Named)) for x in v):
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            a[i] = x
        return a
    return v


def truth(v):
    if isinstance(v, np.ndarray):
        if v.size == 1:
            return bool(v.ravel()[0])
        raise EvalError("truth value of array")
    if isinstance(v, (Ref, Named)):
        return True
    return bool(v)


class Frame:
    """minimal stand-in for a pandas frame built from a mapping of equally long columns"""

    def __init__(self, cols):
        self.cols = cols

    @property
    def values(self):
        return np.array([list(v) for v in self.cols.values()]).T


def ev(t, env):
    memo = env.memo
    stack = [t]
    # iterative on depth: evaluate children first where safe (ite/and/or are lazy)
    return _ev(t, env, memo)


def _ev(t, env, memo):
    r = memo.get(t.id, memo)
    if r is not memo:
        if isinstance(r, Exception):
            raise r
        return r
    try:
        r = _ev1(t, env, memo)
    except (Undecided, Vacuous, EvalError) as e:
        memo[t.id] = e
        raise
    except RecursionError:
        raise
    except Exception as e:
        e2 = EvalError("%s: %s in %s" % (type(e).__name__, e, repr(t)[:200]))
        memo[t.id] = e2
        raise e2
    memo[t.id] = r
    return r


def _idx(i, env, memo):
    if i.op == "slice":
        a = [_ev(x, env, memo) for x in i.args]
        return slice(*[None if x is None else int(x) for x in a])
    if i.op == "tuple":
        return tuple(_idx(x, env, memo) for x in i.args)
    v = _ev(i, env, memo)
    if isinstance(v, list):
        v = np.array(v)
        if v.size == 0:
            v = v.astype(int)
    return v


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
       "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "&": lambda a, b: a & b,
       "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "@": lambda a, b: a @ b,
       "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}


def _num(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return np.float64(x)
    return x


def cmpv(op, a, b):
    if op in ("is", "is not"):
        r = (a is b) or (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b) and type(a) == type(b)) \
            or (type(a) == type(b) and isinstance(a, (int, str)) and a == b)
        return r if op == "is" else not r
    if op in ("in", "not in"):
        if isinstance(b, np.ndarray) or isinstance(b, (list, tuple, set, range, dict, str)):
            r = bool(a in b)
        else:
            raise EvalError("in")
        return r if op == "in" else not r
    if isinstance(a, (Ref, Named)) or isinstance(b, (Ref, Named)) or a is None or b is None:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.array(a == b) if op == "==" else np.array(a != b)
        if op == "==":
            return a is b
        if op == "!=":
            return a is not b
        raise EvalError("comparison of %r and %r" % (a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ("==", "!="):
        r = same(list(a), list(b))
        return r if op == "==" else not r
    if isinstance(a, (list,)) != isinstance(b, (list,)):
        a, b = np.asarray(a), np.asarray(b)
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
            "==": lambda: a == b, "!=": lambda: a != b}[op]()


def _ev1(t, env, memo):
    op, a = t.op, t.args
    E = lambda x: _ev(x, env, memo)
    if op == "const":
        return a[0]
    if op == "sym":
        return env.sym(t)
    if op == "ref":
        return Ref(a[0])
    if op in ("ext", "closure", "class", "bound", "module", "extobj"):
        if op == "ext":
            c = {"numpy.inf": math.inf, "numpy.nan": math.nan, "math.inf": math.inf, "numpy.newaxis": None, "numpy.pi": math.pi,
                 "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e, "math.nan": math.nan}
            if a[0] in c:
                return c[a[0]]
        return Named((op,) + tuple(x.id if isinstance(x, Term) else repr(x) for x in a))
    if op == "bin":
        x, y = E(a[1]), E(a[2])
        if a[0] in ("+",) and isinstance(x, (list, tuple, str)) and isinstance(y, (list, tuple, str)):
            return x + y
        if a[0] == "*" and isinstance(x, (list, str)) and not isinstance(y, np.ndarray):
            return x * int(y)
        if a[0] == "*" and isinstance(y, (list, str)) and not isinstance(x, np.ndarray):
            return y * int(x)
        if isinstance(x, list):
            x = np.array(x)
        if isinstance(y, list):
            y = np.array(y)
        if x is None or y is None or isinstance(x, (Ref, Named, str)) or isinstance(y, (Ref, Named, str)):
            raise EvalError("arithmetic on %r, %r" % (x, y))
        if a[0] in ("/", "%", "//", "**"):
            x, y = _num(x), _num(y)
        return OPS[a[0]](x, y)
    if op == "neg":
        x = E(a[0])
        return -x
    if op == "inv":
        x = E(a[0])
        if isinstance(x, bool):
            raise EvalError("~bool")
        return ~x
    if op == "cmp":
        x, y = E(a[1]), E(a[2])
        return cmpv(a[0], x, y)
    if op == "not":
        return not truth(E(a[0]))
    if op == "truth":
        return truth(E(a[0]))
    if op == "and":
        for x in a:
            if not truth(E(x)):
                return False
        return True
    if op == "or":
        for x in a:
            if truth(E(x)):
                return True
        return False
    if op == "ite":
        return E(a[1]) if truth(E(a[0])) else E(a[2])
    if op in ("list", "tuple"):
        out = []
        for x in a:
            if x.op == "gi":
                if truth(E(x.args[0])):
                    out.append(E(x.args[1]))
            elif x.op == "spread":
                out.extend(list(E(x.args[0])))
            else:
                out.append(E(x))
        return out if op == "list" else tuple(out)
    if op == "dict":
        d = {}
        for k, v, g in a:
            if truth(E(g)):
                d[hashable(E(k))] = E(v)
        return d
    if op == "set":
        return set(hashable(E(x)) for x in a)
    if op == "slice":
        return _idx(t, env, memo)
    if op == "index":
        b = E(a[0])
        i = _idx(a[1], env, memo)
        if isinstance(b, dict):
            return b[hashable(i)]
        if isinstance(b, (list, tuple, range, str)):
            if isinstance(i, np.ndarray) and i.ndim == 0:
                i = i.item()
            if isinstance(i, (slice,)):
                return b[i]
            if isinstance(i, (int, np.integer, float)):
                return b[int(i)]
            b = np.array(b)
        if isinstance(i, float):
            raise EvalError("float index")
        return b[i]
    if op == "setitem":
        b, i, v = E(a[0]), _idx(a[1], env, memo), E(a[2])
        b = np.array(b, copy=True)
        b[i] = v  # as numpy does: stored in the array's own type
        return b
    if op == "npattr":
        b = E(a[1])
        if a[0] == "data":
            return b
        if a[0] == "values" and isinstance(b, np.ndarray):
            return b
        if isinstance(b, (np.ndarray, np.generic)) and a[0] in ("T", "shape", "size", "ndim", "dtype", "flat", "real"):
            return getattr(b, a[0])
        if isinstance(b, Frame):
            if a[0] == "shape":
                return b.values.shape
            if a[0] in ("values", "T"):
                return b.values if a[0] == "values" else b.values.T
        raise Undecided("attribute %s" % a[0])
    if op == "method":
        b = E(a[1])
        args = [E(x) for x in a[2]]
        kw = {k: E(v) for k, v in a[3]}
        if isinstance(b, (int, float, bool)) and not isinstance(b, np.generic):
            b = np.float64(b) if not isinstance(b, bool) else np.bool_(b)
        if isinstance(b, Frame):
            if a[0] in ("max", "min", "mean", "sum"):
                ax = kw.get("axis", args[0] if args else 0)
                return getattr(b.values, a[0])(axis={"columns": 1, "index": 0}.get(ax, ax))
            if a[0] in ("itertuples",):
                return [tuple(r) if kw.get("index", True) is False else (i,) + tuple(r) for i, r in enumerate(b.values)]
            if a[0] == "iterrows":
                return list(enumerate(b.values))
            if a[0] == "to_numpy":
                return b.values
            raise Undecided("frame method " + a[0])
        if isinstance(b, list) and a[0] in ("index", "count"):
            return getattr(b, a[0])(*args)
        if isinstance(b, dict) and a[0] in ("get",):
            return b.get(hashable(args[0]), args[1] if len(args) > 1 else None)
        if isinstance(b, str):
            return getattr(b, a[0])(*args, **kw)
        if a[0] == "to_numpy":
            return np.array(b)
        if not hasattr(b, a[0]) or not isinstance(b, (np.ndarray, np.generic)):
            raise Undecided("method %s of %s" % (a[0], type(b).__name__))
        kw = {k: dtypefix(v) for k, v in kw.items()}
        return getattr(b, a[0])(*[dtypefix(x) for x in args], **kw)
    if op == "call":
        return call(a[0], [E(x) for x in a[1]], {k: E(v) for k, v in a[2]})
    if op == "rand":
        return rand(a[0], [E(x) for x in a[1]], {k: E(v) for k, v in a[2]}, env, a[3])
    if op == "randpick":   # which of n options a random choice took
        uid, k, n, pr, gs = a
        if len(pr) == 1 and pr[0].op == "weights":
            q = np.asarray(E(pr[0].args[0]), float).ravel()
            there = np.array([truth(E(g)) for g in gs]) if gs else np.ones(n, bool)
            if len(q) != there.sum() or abs(q.sum() - 1) > 1e-6:
                raise EvalError("ValueError: 'a' and 'p' must have same size and probabilities must sum to 1")
            w = np.zeros(n)
            w[there] = q
        else:
            w = np.array([float(E(x)) for x in pr]) if pr else np.ones(n)
        if not (w >= 0).all() or w.sum() <= 0:
            raise EvalError("probabilities are not non-negative")
        if gs:
            w = w * np.array([truth(E(g)) for g in gs])
            if w.sum() <= 0:
                raise Vacuous("nothing to choose from")
        return env.decide(("pick", uid, k), w / w.sum())
    if op == "obs":
        name, kind, args, meta = a
        vals = [E(x) for x in args]
        m = dict(meta)
        r = env.rng("obs", name, freeze(vals))
        if kind == "vec":
            if "like" in m:
                x = vals[m["like"]]
                n = x.n_rows if isinstance(x, Frame) else len(x)
            else:
                n = m["n"] if "n" in m else env.dim(m.get("rows", "N"))
            return env.vec(n, r)
        if kind == "mask":
            return r.randint(2, size=env.dim(m.get("rows", "N"))).astype(bool)
        if kind == "any":
            return Named(("obs", name, freeze(vals)))
        return env.scalar(kind, r)
    if op == "kfold":
        uid, nsplit, fold, which, n, shuffle = a
        n = int(E(n))
        k = int(E(nsplit))
        perm = np.arange(n)
        if shuffle is not False:
            env.rng("kfold", uid).shuffle(perm)
        folds = np.array_split(perm, k)
        test = np.sort(folds[fold])
        if which == "test":
            return test
        return np.setdiff1d(np.arange(n), test)
    if op == "frame":
        d = E(a[0])
        if not isinstance(d, dict):
            raise Undecided("frame of non mapping")
        return Frame(d)
    if op == "counter":
        xs = E(a[0])
        d = {}
        for x in xs:
            d[hashable(x)] = d.get(hashable(x), 0) + 1
        return d
    if op == "vacuous":
        raise Vacuous(a[0])
    if op == "bot":
        raise Vacuous("unreachable")
    if op == "unknown":
        raise Undecided(a[0])
    if op == "unbound":
        raise EvalError("unbound variable")
    raise Undecided("term " + op)


def hashable(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v.is_integer():
        v = int(v)
    if isinstance(v, list):
        return tuple(hashable(x) for x in v)
    if isinstance(v, tuple):
        return tuple(hashable(x) for x in v)
    return v


def dtypefix(v):
    if isinstance(v, Named):
        k = v.k
        s = str(k[1])
        for n, d in (("float32", np.float16), ("single", np.float16), ("float16", np.float16), ("half", np.float16), ("float", float), ("int", int), ("bool", bool), ("object", object)):
            if s.strip("'").split(".")[-1].startswith(n):
                return d
        raise Undecided("value %r" % (v,))
    return v


def resolve(name):
    parts = name.split(".")
    if parts[0] == "numpy":
        o = np
    elif parts[0] == "math":
        o = math
    elif parts[0] == "operator":
        import operator
        o = operator
    else:
        raise Undecided("external function " + name)
    for p in parts[1:]:
        if not hasattr(o, p):
            raise Undecided("external function " + name)
        o = getattr(o, p)
    return o


def call(name, args, kw):
    parts = name.split(".")
    if parts[0] == "builtins":
        f = PURE_BUILTINS.get(parts[1])
        if f is None:
            raise Undecided("builtin " + name)
        if parts[1] in ("list", "sorted", "max", "min", "any", "all", "sum") and args and isinstance(args[0], Frame):
            raise Undecided("frame")
        if "key" in kw:
            raise Undecided("key function")
        if parts[1] == "range":
            return list(range(*[int(x) for x in args]))
        if parts[1] == "len" and isinstance(args[0], Frame):
            return len(args[0].values)
        return f(*args, **kw)
    if parts[0] == "scipy":
        return scipy_call(name, args, kw)
    if name in ("operator.le", "operator.gt", "operator.lt", "operator.ge", "operator.eq", "operator.ne"):
        return cmpv({"le": "<=", "gt": ">", "lt": "<", "ge": ">=", "eq": "==", "ne": "!="}[parts[1]], *args)
    if name in ("numpy.float32", "numpy.single", "numpy.float16", "numpy.half"):
        name = "numpy.float16"      # reduced precision is exaggerated: far above the comparison tolerance
    f = resolve(name)
    args = [dtypefix(npfix(x)) if not isinstance(x, Frame) else x.values for x in args]
    kw = {k: dtypefix(v) for k, v in kw.items()}
    if parts[0] == "numpy":
        args = [_num(x) if not isinstance(x, (int,)) or parts[-1] in ("power", "log", "sqrt", "divide", "exp", "log1p") else x for x in args]
    return f(*args, **kw)


def scipy_call(name, args, kw):
    import importlib
    parts = name.split(".")
    for i in range(len(parts) - 1, 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        for p in parts[i:]:
            if not hasattr(o, p):
                raise Undecided(name)
            o = getattr(o, p)
        return o(*args, **kw)
    raise Undecided(name)


TAILS = True    # whether draws far in the tails are given extra weight


def rand(name, args, kw, env, uid):
    short = name.split(".")[-1]
    r = env.rng("rand", uid)
    if env.exact:
        return exact_rand(short, args, kw, env, uid)
    if "size" in kw and kw["size"] is not None:
        kw["size"] = int(kw["size"]) if not isinstance(kw["size"], tuple) else tuple(int(x) for x in kw["size"])
        if not isinstance(kw["size"], tuple) and kw["size"] > 100000:
            kw["size"] = 100000
    if short == "choice":
        seq = args[0]
        if isinstance(seq, (int, np.integer)):
            seq = list(range(int(seq)))
        n = len(seq)
        if n == 0:
            raise EvalError("choice from nothing")
        size = kw.get("size", args[1] if len(args) > 1 else None)
        if size is None:
            return seq[int(r.randint(n))]
        return np.array([seq[i] for i in r.randint(n, size=size)])
    if short == "permutation":
        x = args[0]
        return r.permutation(x)
    if short == "shuffled":
        return r.permutation(args[0])
    if not hasattr(r, short):
        raise Undecided(name)
    v = getattr(r, short)(*args, **kw)
    if not TAILS:
        return v
    if short in ("normal", "standard_normal") and r.rand() < 0.15:
        # an outcome far in the tails
        loc = kw.get("loc", args[0] if args else 0.) if short == "normal" else 0.
        v = loc + (v - loc) * r.uniform(3, 40)
    elif short in ("uniform", "rand", "random", "random_sample") and r.rand() < 0.1:
        lo, hi = (kw.get("low", args[0] if args else 0.), kw.get("high", args[1] if len(args) > 1 else 1.)) if short == "uniform" else (0., 1.)
        u = 10 ** -r.uniform(3, 9)
        v = v * 0. + lo + (hi - lo) * (u if r.randint(2) else 1 - u)
    return v


GRID = 96


class Exact(Valuation):
    """a valuation under which the outcomes of the discrete draws follow a script; draws is what was asked for"""
    exact = True

    def __init__(self, base, script):
        Valuation.__init__(self, base.seed, base.rows, base.mode, base.pool, base.over, base.big, base.step)
        self.vals = base.vals
        self.script, self.draws, self.approx = script, [], 0
        self.told = {}

    def decide(self, key, w):
        if key in self.told:
            return self.told[key]
        opts = np.flatnonzero(np.asarray(w) > 0)
        k = len(self.draws)
        j = self.script[k] if k < len(self.script) else 0
        self.draws.append((len(opts), float(w[opts[j]])))
        self.told[key] = int(opts[j])
        return self.told[key]


def exact_rand(short, args, kw, env, uid):
    """discrete draws by script; a scalar uniform draw by the midpoints of a grid"""
    size = kw.get("size")
    if short == "choice":
        if len(args) > 1:
            size = args[1]
        seq = args[0]
        if isinstance(seq, (int, np.integer)):
            seq = np.arange(int(seq))
        n = len(seq)
        if n == 0:
            raise EvalError("choice from nothing")
        p = kw.get("p", args[3] if len(args) > 3 else None)
        w = np.ones(n) / n if p is None else np.asarray(p, float)
        if size is not None and int(size) > 4:
            raise Undecided("many draws at once")
        if size is not None and int(size) > 1 and not kw.get("replace", args[2] if len(args) > 2 else True):
            raise Undecided("draws without replacement")
        got = [seq[env.decide((uid, i), w)] for i in range(1 if size is None else int(size))]
        return got[0] if size is None else np.array(got)
    if short in ("randint", "random_integers"):
        lo, hi = (0, args[0]) if len(args) == 1 and "high" not in kw else (args[0], args[1] if len(args) > 1 else kw["high"])
        n = int(hi) - int(lo)
        if n <= 0:
            raise EvalError("randint from nothing")
        got = [int(lo) + env.decide((uid, i), np.ones(n) / n) for i in range(1 if size is None else int(size))]
        return got[0] if size is None else np.array(got)
    if short in ("permutation", "shuffled"):
        n = int(args[0]) if isinstance(args[0], (int, np.integer)) else len(args[0])
        if n > 6:
            raise Undecided("large permutation")
        left, got = list(range(n)), []
        for i in range(n):
            j = env.decide((uid, i), np.ones(len(left)) / len(left))
            got.append(left.pop(j))
        return np.array(got) if isinstance(args[0], (int, np.integer)) else np.asarray(args[0])[got]
    if short in ("uniform", "rand", "random", "random_sample") and size is None and (short == "uniform" or not args):
        lo, hi = (list(args) + [0., 1.][len(args):])[:2] if short == "uniform" else (0., 1.)
        lo, hi = kw.get("low", lo), kw.get("high", hi)
        env.approx += 1
        return lo + (hi - lo) * (env.decide((uid, 0), np.ones(GRID) / GRID) + 0.5) / GRID
    raise Undecided("continuous draw " + short)


def outcomes(base, fn, limit=20000):
    """[(probability, value or None if outside the analysed bounds, number of gridded draws)] over all scripts of discrete draws"""
    script, out = [], []
    while True:
        env = Exact(base, script)
        try:
            v = fn(env)
        except Vacuous:
            v = Vacuous
        p = float(np.prod([w for _, w in env.draws])) if env.draws else 1.0
        out.append((p, v, env.approx))
        if len(out) > limit:
            raise Undecided("too many outcomes")
        ch = script + [0] * (len(env.draws) - len(script))
        ch = ch[:len(env.draws)]
        while ch and ch[-1] + 1 >= env.draws[len(ch) - 1][0]:
            ch.pop()
        if not ch:
            return out
        ch[-1] += 1
        script = ch


TOL = 1e-7


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None or isinstance(a, (Ref, Named, dict, str)) or isinstance(b, (Ref, Named, dict, str)):
            return False
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            if x.ndim == 0 or y.ndim == 0:
                pass
            return False
        if x.dtype == object or y.dtype == object:
            return all(same(p, q) for p, q in zip(x.ravel(), y.ravel()))
        x, y = x.astype(float), y.astype(float)
        return bool(np.allclose(x, y, rtol=1e-6, atol=TOL, equal_nan=True))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (int, float, np.number, np.bool_)) and isinstance(b, (int, float, np.number, np.bool_)):
        a, b = float(a), float(b)
        if math.isnan(a) and math.isnan(b):
            return True
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= TOL + 1e-6 * max(abs(a), abs(b))
    if a is None or b is None:
        return a is b
    if isinstance(a, (Ref, Named)) or isinstance(b, (Ref, Named)):
        return a is b
    if type(a) == type(b):
        return a == b
    return False


ARITH = ("+", "-", "*", "/", "**", "neg", "abs")


def _consts(y, depth=3):
    if is_const(y):
        v = cval(y)
        if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e6:
            yield v
    elif depth and y.op not in ("sym", "index", "ite"):
        kids = list(children(y))
        if len(kids) <= 4 or y.op in ("list", "tuple", "listv"):
            for z in kids[:8]:
                yield from _consts(z, depth - 1)


def const_pool(terms):
    """numeric constants the terms compare something against"""
    pool = set()
    seen = set()
    for t in terms:
        for x in subterms(t, seen):
            ys = ()
            if x.op == "cmp":
                ys = x.args[1:]
            elif x.op not in ("const", "sym") and children(x) and str(x.args[0]).split(".")[-1] in ("max", "min", "maximum", "minimum", "clip", "isclose", "allclose"):
                ys = children(x)
            for y in ys:
                pool.update(_consts(y))
    return pool


def gates(terms):
    out, seen = [], set()
    for t in terms:
        for x in subterms(t, seen):
            if x.op == "ite" and x.args[0] not in out:
                out.append(x.args[0])
    return out


MODES = ("real", "ties", "mixed", "offset", "ties", "binary", "small", "near")


def valuations(n, seed=1, pool=(), rows=(5, 4, 6, 3), over=None, modes=None, prefer=()):
    modes = modes or MODES
    big = sorted(set(int(c) for c in pool if 1 <= c <= 300 and c == int(c)))
    big = [c for c in big if c in prefer and c > 6] + [c for c in big if c in prefer and c <= 6] + [c for c in big if c not in prefer]
    huge = sorted(set(int(c) for c in pool if 300 < c <= 5000 and c == int(c) and c in prefer))
    steps = sorted(set(float(c) for c in pool if 1e-13 < c <= 100 and c not in (1, 2))) + [1.0]
    for i in range(n):
        m = modes[i % len(modes)]
        if big and i % 5 == 4:
            k = i // 5
            r = max(min(rows), big[k % len(big)] * (1, 1, 1, 2)[k // len(big) % 4] + (1, 0, 2, 3)[k // len(big) % 4])
        else:
            r = rows[i % len(rows)]
        if huge and i % 20 == 13:
            r = huge[i // 20 % len(huge)] + 1
        yield Valuation(seed * 1000 + i, r, m, pool if i % 2 else (), over, bool(big and i % 5 == 4 or huge and i % 20 == 13), steps[(i // len(modes)) % len(steps)])
