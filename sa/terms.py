"""Hash-consed value terms: the abstract values of the analysis.

A term denotes a value as a function of the free symbols of an analysed entry point.  Terms are
built once per program point by the abstract interpreter (interp.py) and merged with `ite` at
control-flow joins; they are never executed by it.
"""
import operator

_table = {}
_next = [0]


class Term:
    __slots__ = ("op", "args", "id", "nd", "__weakref__")

    def __repr__(self):
        return show(self)

    # identity comparison/hash (terms are interned)


def _key(a):
    if isinstance(a, Term):
        return a.id
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def T(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.id, t.nd = op, args, _next[0], -1
        _next[0] += 1
        _table[k] = t
    return t


def const(v):
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNBOUND = T("unbound")
BOT = T("bot")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def sym(name, kind="num", **meta):
    """A free symbol. kind: num,pos,unit,int,bool,vec,mat,mask,any."""
    return T("sym", name, kind, tuple(sorted(meta.items())))


def ref(oid):
    return T("ref", oid)


def ext(path):
    return T("ext", path)


def unknown(why):
    _next[0] += 1
    return T("unknown", why, _next[0])


def NOT(a):
    if is_const(a):
        return const(not cval(a))
    if a.op == "not":
        return a.args[0]
    return T("not", a)


def AND(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if NOT(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out)


def OR(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if NOT(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", *out)


def ITE(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNBOUND or a is BOT:
        return b
    if b is UNBOUND or b is BOT:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if c.op == "not":
        return ITE(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return T("ite", c, a, b)


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


_fold = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
         "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
         "&": operator.and_, "|": operator.or_, "^": operator.xor,
         "<<": operator.lshift, ">>": operator.rshift}
_cmp = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
        "==": operator.eq, "!=": operator.ne}


def binop(op, a, b):
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        try:
            if (isinstance(x, (int, float, str, bool)) and isinstance(y, (int, float, str, bool))):
                r = _fold[op](x, y)
                if not isinstance(r, complex):
                    return const(r)
        except Exception:
            pass
    return T("bin", op, a, b)


def compare(op, a, b):
    if is_const(a) and is_const(b):
        try:
            return const(bool(_cmp[op](cval(a), cval(b))))
        except TypeError:
            return T("cmp", op, a, b)
    if op in ("==", "!=") and a is b and a.op in ("sym", "ref", "ext", "closure", "class", "bound", "const"):
        if ndim(a) in (0, None) or a.op != "sym":
            return const(op == "==")
    # None never equals a number
    if op in ("==", "!="):
        for x, y in ((a, b), (b, a)):
            if is_const(x) and (cval(x) is None or isinstance(cval(x), str)) and y.op in ("bin", "call", "rand", "index", "neg", "method", "closure", "class"):
                return const(op == "!=")
    return T("cmp", op, a, b)


# --- rank inference -----------------------------------------------------------------------------
REDUCERS = {"sum", "mean", "max", "min", "prod", "std", "var", "median", "any", "all", "amax", "amin", "nansum",
            "nanmean", "ptp", "argmax", "argmin", "percentile", "quantile", "count_nonzero", "nanmax", "nanmin", "average"}
ARRAYISH = {"array", "zeros", "ones", "full", "zeros_like", "ones_like", "full_like", "asarray", "arange", "concatenate", "unique",
            "empty", "empty_like", "hstack", "vstack", "stack", "sort", "argsort", "flatnonzero", "linspace", "append",
            "cumsum", "diff", "repeat", "tile", "ravel", "column_stack", "delete", "copy", "ascontiguousarray",
            "setdiff1d", "isin", "bincount", "fromiter", "roll", "flip", "take", "compress", "extract", "nonzero", "insert"}


def ndim(t):
    if t.nd == -1:
        t.nd = _ndim(t)
    return t.nd


def _mx(ts):
    r = 0
    for x in ts:
        n = ndim(x)
        if n:
            r = max(r, n)
    return r


def _kw(kwargs, name):
    for k, v in kwargs:
        if k == name:
            return v
    return None


def _ndim(t):
    op, a = t.op, t.args
    if op == "sym":
        return {"vec": 1, "mask": 1, "mat": 2}.get(a[1], 0)
    if op == "obs":
        return {"vec": 1, "mask": 1, "mat": 2}.get(a[1], 0)
    if op == "kfold":
        return 1
    if op == "bin":
        return _mx(a[1:])
    if op == "cmp":
        return _mx(a[1:]) if a[0] in _cmp else 0
    if op in ("neg", "inv"):
        return ndim(a[0])
    if op == "ite":
        return _mx(a[1:])
    if op == "setitem":
        return ndim(a[0])
    if op == "list":
        return 1 + _mx([x for x in a if isinstance(x, Term) and x.op != "gi"] + [x.args[1] for x in a if x.op == "gi"])
    if op == "tuple":
        return 1 + _mx(a)
    if op == "rep":
        return 1
    if op in ("call", "rand"):
        name, args, kwargs = a[0], a[1], a[2]
        short = name.split(".")[-1]
        if op == "rand":
            if short in ("permutation", "shuffle"):
                return max(1, _mx(args))
            if _kw(kwargs, "size") is not None or (short == "choice" and len(args) > 1 and args[1] is not NONE):
                return 1
            if short in ("rand", "randn", "random_sample", "random") and args:
                return len(args)
            if short in ("normal", "uniform", "gamma", "beta") and len(args) > 2:
                return 1
            return 0
        if name.startswith("builtins."):
            return 1 if short in ("list", "sorted", "tuple", "range", "reversed") else 0
        if short in REDUCERS:
            ax = _kw(kwargs, "axis")
            if ax is None and len(args) > 1 and short not in ("percentile", "quantile"):
                ax = args[1]
            if ax is not None and ax is not NONE:
                return max(_mx(args[:1]) - 1, 0)
            if short in ("percentile", "quantile") and len(args) > 1:
                return ndim(args[1])
            return 0
        if short in ("zeros", "ones", "full", "empty"):
            s = args[0] if args else None
            return len(s.args) if s is not None and s.op == "tuple" else 1
        if short == "where" and len(args) == 3:
            return _mx(args)
        if short in ARRAYISH:
            if short in ("array", "asarray", "zeros_like", "ones_like", "full_like", "copy", "sort", "concatenate", "empty_like", "ascontiguousarray"):
                return max(1, _mx(args[:1]) - (1 if short == "concatenate" and _mx(args[:1]) > 1 else 0))
            return 1
        if short == "len":
            return 0
        if name.startswith("numpy."):
            return _mx(args)
        return 0
    if op == "method":
        name, base, args, kwargs = a[0], a[1], a[2], a[3]
        if name in REDUCERS:
            ax = _kw(kwargs, "axis")
            if ax is None and args:
                ax = args[0]
            if ax is not None and ax is not NONE:
                return max(ndim(base) - 1, 0)
            return 0
        if name in ("ravel", "flatten", "tolist", "nonzero"):
            return 1 if name != "tolist" else 0
        if name == "item":
            return 0
        return ndim(base)
    if op == "index":
        b, i = a
        nb = ndim(b)
        idx = list(i.args) if i.op == "tuple" else [i]
        r = nb
        for x in idx:
            if x.op in ("slice",) or x is NONE or (is_const(x) and cval(x) is Ellipsis):
                if x is NONE:
                    r += 1
                continue
            if ndim(x) >= 1:
                if ndim(x) >= 2:
                    r -= 1
                continue
            r -= 1
        return max(r, 0)
    if op == "npattr":
        if a[0] in ("T", "data", "values", "flat", "real"):
            return ndim(a[1])
        if a[0] == "shape":
            return 1
        return 0
    return 0


# --- helpers --------------------------------------------------------------------------------------
def children(t):
    out = []

    def rec(x):
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    for a in t.args:
        rec(a)
    return out


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    res = []
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        res.append(x)
        stack.extend(children(x))
    return res


def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "const":
        return repr(a[0])
    if op == "sym":
        return a[0]
    if op == "ref":
        return "#%d" % a[0]
    if op == "ext":
        return a[0]
    if op in ("bin", "cmp"):
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if op == "neg":
        return "-" + show(a[0], d)
    if op == "inv":
        return "~" + show(a[0], d)
    if op == "ite":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op in ("call", "rand"):
        s = [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return "%s(%s)%s" % (a[0].replace("builtins.", ""), ", ".join(s), "" if op == "call" else "!%s" % (a[3],))
    if op == "method":
        s = [show(x, d) for x in a[2]] + ["%s=%s" % (k, show(v, d)) for k, v in a[3]]
        return "%s.%s(%s)" % (show(a[1], d), a[0], ", ".join(s))
    if op == "index":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "npattr":
        return "%s.%s" % (show(a[1], d), a[0])
    if op in ("list", "tuple"):
        return ("[%s]" if op == "list" else "(%s)") % ", ".join(show(x, d) for x in a)
    if op == "gi":
        return "%s if %s" % (show(a[1], d), show(a[0], d))
    if op == "obs":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[2]))
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))
