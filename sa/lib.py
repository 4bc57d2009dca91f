"""Models of what /repo calls but does not define: builtins, numpy, pandas, joblib, sklearn, copy …

Pure numeric functions stay uninterpreted `call` terms (their meaning is supplied when terms are
compared); functions with aliasing, mutation or control effects are modelled here.
"""
import ast

from . import terms as tm
from .terms import (T, sym, const, NONE, TRUE, FALSE, UNBOUND, BOT, is_const, cval, ref, ext, unknown, NOT, AND, OR, ITE,
                    binop, compare, ndim)
from .interp import RObj, RList, RDict, RSet, RArr, RLazy, RExt, RCache, ClassInfo

ALIASES = {
    "pandas.core.frame.DataFrame": "pandas.DataFrame", "pandas.core.api.DataFrame": "pandas.DataFrame",
    "joblib.parallel.Parallel": "joblib.Parallel", "joblib.parallel.delayed": "joblib.delayed",
    "tqdm.std.tqdm": "tqdm.tqdm", "tqdm.auto.tqdm": "tqdm.tqdm", "tqdm.autonotebook.tqdm": "tqdm.tqdm", "tqdm.notebook.tqdm": "tqdm.tqdm",
    "_operator.le": "operator.le", "_operator.gt": "operator.gt", "operator.__le__": "operator.le", "operator.__gt__": "operator.gt",
    "operator.__lt__": "operator.lt", "operator.__ge__": "operator.ge",
    "numpy.product": "numpy.prod", "numpy.float": "builtins.float", "numpy.bool": "builtins.bool", "numpy.int": "builtins.int",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "builtins.BaseException": "builtins.Exception",
    "numpy.core.fromnumeric.sum": "numpy.sum",
}


def canonical(t):
    if t.op == "ext":
        p = t.args[0]
        if p.startswith("numpy.random.mtrand."):
            p = p.replace("numpy.random.mtrand.", "numpy.random.")
        p = ALIASES.get(p, p)
        if p != t.args[0]:
            return ext(p)
    return t


def isclass(p):
    s = p.split(".")[-1]
    return s[:1].isupper()


# ---------------------------------------------------------------------------------- guarded lists
def compress(items):
    """guarded list -> list of (guard that there is a k-th element, its value)"""
    if all(g is TRUE for g, _ in items):
        return list(items)
    n = len(items)
    # cnt[j][k]: exactly k of the first j present
    cnt = [[TRUE] + [FALSE] * n]
    for j in range(n):
        g = items[j][0]
        row = []
        for k in range(n + 1):
            row.append(OR(AND(cnt[j][k], NOT(g)), AND(cnt[j][k - 1], g) if k else FALSE))
        cnt.append(row)
    out = []
    for k in range(n):
        v, gd = None, FALSE
        for j in range(n - 1, -1, -1):
            c = AND(cnt[j][k], items[j][0])
            if c is FALSE:
                continue
            gd = OR(c, gd)
            v = items[j][1] if v is None else ITE(c, items[j][1], v)
        if v is None or gd is FALSE:
            break
        out.append((gd, v))
    return out


def length(items):
    if all(g is TRUE for g, _ in items):
        return const(len(items))
    t = const(0)
    for g, _ in items:
        t = binop("+", t, ITE(g, const(1), const(0)))
    return T("glen", t, tuple(g for g, _ in items))


def atleast(gs, k):
    if k <= 0:
        return TRUE
    if len(gs) < k:
        return FALSE
    return OR(AND(gs[0], atleast(gs[1:], k - 1)), atleast(gs[1:], k))


def items_of(it, st, v, node, what="collection"):
    l = it.iterate(st, v)
    return l


# ---------------------------------------------------------------------------------- attributes
def ext_attr(it, st, v, r, name):
    if name in ("resid", "fittedvalues") and r.path.endswith(".results"):
        y = r.args[0] if r.args else dict(r.kwargs).get("endog")
        if y is not None:
            x = it.pure(st, r.args[1] if len(r.args) > 1 else dict(r.kwargs).get("exog", NONE))
            return it.alloc(st, RArr(T("obs", name + ":" + r.path, "vec", (it.pure(st, y), x), (("like", 0),))))
    if r.path == "pandas.DataFrame":
        if name == "values":
            return frame_values(it, st, r)
        if name == "shape":
            return it.shape_attr(st, it.pure(st, frame_values(it, st, r)), "shape")
        return T("meth", v, name)
    h = it.ext_models.get(r.path)
    if h is not None and hasattr(h, "attr"):
        x = h.attr(it, st, v, r, name)
        if x is not None:
            return x
    if r.path.startswith("builtins.") and name == "args":
        return T("tuple", *r.args)
    return None


EXTNAMES = {"get_params", "set_params", "score", "get_support", "transform", "fit_transform", "inverse_transform", "_get_param_names",
            "_get_tags", "_more_tags", "_repr_html_", "_validate_data", "get_feature_names_out", "set_output", "_estimator_type",
            "get_metadata_routing", "__sklearn_tags__", "__getstate__", "__setstate__", "_check_n_features", "_check_feature_names"}


def ext_base_attr(it, st, v, r, name):
    exts = [b for b in r.cls.ext_bases() if b not in ("builtins.object", "abc.ABC", "typing.Generic")]
    if name in ("__reduce__", "__reduce_ex__", "__hash__", "__eq__", "__init__", "__repr__", "__str__", "__setattr__", "__getattribute__",
                "__getstate__", "__ne__", "__format__", "__sizeof__", "__dir__", "__new__"):
        return T("extsuper", v, name)
    if name in ("__doc__", "__module__", "__annotations__", "__weakref__", "__slots__"):
        return unknown(name)
    for b in exts:
        if b == "?":
            return unknown("attribute %s of an unknown base" % name)
        if b.startswith("sklearn.") and name in EXTNAMES:
            return T("extsuper", v, name)
        if b.startswith("builtins.") and (name in ("args", "with_traceback", "add_note", "__cause__")):
            return T("extsuper", v, name)
        if not b.startswith(("sklearn.", "builtins.")):
            return T("extsuper", v, name)
    return None


def ext_iter(it, st, v, r):
    h = it.ext_models.get(r.path)
    if h is not None and hasattr(h, "iter"):
        return h.iter(it, st, v, r)
    return None


# ---------------------------------------------------------------------------------- objects of external bases
def init_params(it, cls):
    f, c = cls.lookup("__init__")
    if f is None or isinstance(f, tuple) or f.op != "closure":
        return []
    a = it.closures[f.args[0]].node.args
    return [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]


def call_extsuper(it, st, selfv, name, args, kwargs, node):
    r = it.rec(st, selfv)
    if name in ("__init__", "__init_subclass__", "__post_init__"):
        if r is not None and r.kind == "obj" and args:
            if "args" not in r.fields:
                it.setfield(st, selfv, "args", T("tuple", *args))
        return NONE
    if r is not None and r.kind == "obj":
        if name == "set_params":
            valid = set()
            for c in r.cls.mro():
                valid |= set(init_params(it, c))
                break
            for k, v in kwargs.items():
                if k not in valid and "__" not in k:
                    f, c = r.cls.lookup("__init__")
                    has_kw = f is not None and not isinstance(f, tuple) and f.op == "closure" and it.closures[f.args[0]].node.args.kwarg is not None
                    it.raise_ext(st, "ValueError", "Invalid parameter %s" % k)
                    return BOT
                it.setattr(st, selfv, k, v, node)
                if st.dead:
                    return BOT
            return selfv
        if name == "get_params":
            ents = []
            for p in init_params(it, r.cls):
                v = it.getattr(st, selfv, p, node)
                if st.dead:
                    return BOT
                ents.append((const(p), v, TRUE))
            return it.alloc(st, RDict(ents))
        if name == "__getstate__":
            return it.alloc(st, RDict([(const(k), x, TRUE) for k, x in r.fields.items() if x is not UNBOUND]))
        if name == "__setstate__":
            d = it.rec(st, args[0]) if args else None
            if d is not None and d.kind == "dict":
                for k, v, g in d.entries:
                    it.setfield(st, selfv, cval(k), v)
                return NONE
        if name == "__setattr__" and len(args) == 2 and is_const(args[0]):
            it.setfield(st, selfv, cval(args[0]), args[1])
            return NONE
        if name == "get_support":
            m = it.getattr(st, selfv, "_get_support_mask", node)
            return BOT if st.dead else it.call(st, m, [], {}, node)
        if name == "transform" and args:
            m = call_extsuper(it, st, selfv, "get_support", [], {}, node)
            if st.dead:
                return BOT
            x = it.call(st, T("ext", "numpy.asarray"), [args[0]], {}, node)
            if st.dead:
                return BOT
            return it.getitem(st, x, T("tuple", T("slice", NONE, NONE, NONE), m), node)
        if name in ("__eq__", "__ne__") and args:
            return const((selfv is args[0]) == (name == "__eq__"))
        if name == "args":
            return r.fields.get("args", T("tuple"))
    if name in ("__repr__", "__str__", "__format__"):
        return T("fstr", const(name))
    if name in ("__hash__",):
        return T("call", "builtins.id", (selfv,), ())
    if name == "__new__":
        c = args[0] if args else selfv
        if c.op == "class":
            return it.alloc(st, RObj(it.classes[c.args[0]], {}))
    it.emit(st, "extcall", (selfv, name, tuple(args)), it.site(node))
    return T("extval", T("extsuper", selfv, name), T("tuple", *[it.pure(st, a) for a in args]))


def call_extobj(it, st, f, r, args, kwargs, node):
    if r.path == "joblib.Parallel":
        return run_parallel(it, st, f, r, args, node)
    h = it.ext_models.get(r.path)
    if h is not None and hasattr(h, "call"):
        return h.call(it, st, f, r, args, kwargs, node)
    it.emit(st, "extcall", (f, "__call__", tuple(args)), it.site(node))
    return T("extval", f, T("tuple", *[it.pure(st, a) for a in args]))


def run_parallel(it, st, f, r, args, node):
    it.emit(st, "parallel", (r.args, r.kwargs), it.site(node))
    l = it.iterate(st, args[0]) if args else None
    if l is None:
        return it.havoc(st, "Parallel over unknown collection", node)
    out = it.alloc(st, RList([]))
    for g, t in l:
        if st.dead:
            return BOT

        def one(s, t=t, g=g):
            x = t
            if x.op == "ite":
                y = it.fork_cases(s, x, lambda s2, z: run_task(it, s2, z, node))
            else:
                y = run_task(it, s, x, node)
            if not s.dead:
                o = s.heap[out.args[0]]
                s.heap[out.args[0]] = RList(o.items + [(TRUE, y)])
        it.branch(st, it.simp(st, g), one, lambda s: None)
    return BOT if st.dead else out


def run_task(it, st, t, node):
    if t.op == "task":
        f, a, k = t.args
        a, k = list(a), dict(k)
    elif t.op == "tuple" and len(t.args) == 3:
        f = t.args[0]
        l = it.iterate(st, t.args[1])
        a = [x for _, x in l or []]
        k = {}
    else:
        return it.havoc(st, "Parallel task", node)
    it.emit(st, "task", (f, tuple(a)), it.site(node))
    if it.copy_on_parallel:
        memo = {}
        a = [deepcopy(it, st, x, memo, node) for x in a]
        k = {kk: deepcopy(it, st, x, memo, node) for kk, x in k.items()}
    v = it.call(st, f, a, k, node)
    if it.copy_on_parallel and not st.dead:
        v = deepcopy(it, st, v, {}, node)
    return v


# ---------------------------------------------------------------------------------- copies
def deepcopy(it, st, v, memo, node=None):
    if v.op == "objdict":
        v = objdict(it, st, v)
    if v.op == "ref":
        oid = v.args[0]
        if oid in memo:
            return memo[oid]
        r = st.heap.get(oid)
        if r is None:
            return v
        if r.kind == "obj":
            f, c = r.cls.lookup("__deepcopy__")
            if f is not None:
                x = it.call(st, T("bound", f, v), [it.alloc(st, RDict([]))], {}, node)
                memo[oid] = x
                return x
            if any(b.startswith("builtins.") and b != "builtins.object" for b in r.cls.ext_bases()):
                memo[oid] = v
            n = it.alloc(st, RObj(r.cls, {}, None))
            memo[oid] = n
            g, c = r.cls.lookup("__getstate__")
            if g is not None:
                s = it.call(st, T("bound", g, v), [], {}, node)
                if st.dead:
                    return BOT
                if s.op == "objdict":
                    s = objdict(it, st, s)
                s = deepcopy(it, st, s, memo, node)
                h, c = r.cls.lookup("__setstate__")
                if h is not None:
                    it.call(st, T("bound", h, n), [s], {}, node)
                    return n
                d = it.rec(st, s)
                if d is not None and d.kind == "dict":
                    fields = {}
                    for k, x, gd in d.entries:
                        if is_const(k):
                            fields[cval(k)] = x
                    st.heap[n.args[0]] = RObj(r.cls, fields, None)
                    return n
                if s is NONE or (is_const(s) and not cval(s)):
                    return n
                it.havoc(st, "__getstate__ result", node)
                return n
            fields = {}
            for k, x in r.fields.items():
                fields[k] = deepcopy(it, st, x, memo, node)
                if st.dead:
                    return BOT
            h, c = r.cls.lookup("__setstate__")
            if h is not None:
                d = it.alloc(st, RDict([(const(k), x, TRUE) for k, x in fields.items()]))
                it.call(st, T("bound", h, n), [d], {}, node)
                return n
            st.heap[n.args[0]] = RObj(r.cls, fields, None)
            return n
        if r.kind == "list":
            n = it.alloc(st, RList([], r.arr))
            memo[oid] = n
            its = [(g, deepcopy(it, st, x, memo, node)) for g, x in r.items]
            if st.dead:
                return BOT
            st.heap[n.args[0]] = RList(its, r.arr)
            return n
        if r.kind == "dict":
            n = it.alloc(st, RDict([], r.default, r.counter))
            memo[oid] = n
            es = [(deepcopy(it, st, k, memo, node), deepcopy(it, st, x, memo, node), g) for k, x, g in r.entries]
            if st.dead:
                return BOT
            st.heap[n.args[0]] = RDict(es, r.default, r.counter)
            return n
        if r.kind == "set":
            n = it.alloc(st, RSet([(g, deepcopy(it, st, x, memo, node)) for g, x in r.items]))
            memo[oid] = n
            return n
        if r.kind == "arr":
            n = it.alloc(st, RArr(it.arrval(st, oid), frame=r.frame))
            memo[oid] = n
            return n
        if r.kind == "lazy":
            n = it.alloc(st, RLazy(r.src, r.lo, r.hi))
            memo[oid] = n
            return n
        if r.kind == "ext":
            n = it.alloc(st, RExt(r.path, tuple(deepcopy(it, st, x, memo, node) for x in r.args),
                                  tuple((k, deepcopy(it, st, x, memo, node)) for k, x in r.kwargs), r.state, None, None))
            memo[oid] = n
            f = {k: deepcopy(it, st, x, memo, node) for k, x in r.fields.items()}
            x = st.heap[n.args[0]]
            st.heap[n.args[0]] = RExt(x.path, x.args, x.kwargs, x.state, f, None)
            return n
        return v
    if v.op == "ite":
        a = deepcopy(it, st, v.args[1], memo, node)
        b = deepcopy(it, st, v.args[2], memo, node)
        return BOT if st.dead else ITE(v.args[0], a, b)
    if v.op == "tuple":
        return T("tuple", *[deepcopy(it, st, x, memo, node) for x in v.args])
    if v.op == "bound":
        return T("bound", v.args[0], deepcopy(it, st, v.args[1], memo, node))
    if v.op == "partial":
        return T("partial", v.args[0], tuple(deepcopy(it, st, x, memo, node) for x in v.args[1]),
                 tuple((k, deepcopy(it, st, x, memo, node)) for k, x in v.args[2]))
    if v.op == "task":
        return T("task", deepcopy(it, st, v.args[0], memo, node), tuple(deepcopy(it, st, x, memo, node) for x in v.args[1]),
                 tuple((k, deepcopy(it, st, x, memo, node)) for k, x in v.args[2]))
    return v


def shallow(it, st, v, node):
    if v.op == "ite":
        return it.fork_cases(st, v, lambda s, x: shallow(it, s, x, node))
    r = it.rec(st, v)
    if r is None:
        return v
    if r.kind == "obj":
        f, c = r.cls.lookup("__copy__")
        if f is not None:
            return it.call(st, T("bound", f, v), [], {}, node)
        g, c = r.cls.lookup("__getstate__")
        if g is not None:
            s = it.call(st, T("bound", g, v), [], {}, node)
            if st.dead:
                return BOT
            if s.op == "objdict":
                s = objdict(it, st, s)
            d = it.rec(st, s)
            h, c = r.cls.lookup("__setstate__")
            if h is not None:
                n = it.alloc(st, RObj(r.cls, {}, None))
                it.call(st, T("bound", h, n), [s], {}, node)
                return n
            if d is not None and d.kind == "dict":
                return it.alloc(st, RObj(r.cls, {cval(k): x for k, x, _ in d.entries if is_const(k)}))
        return it.alloc(st, RObj(r.cls, dict(r.fields)))
    if r.kind == "list":
        return it.alloc(st, RList(list(r.items), r.arr))
    if r.kind == "dict":
        return it.alloc(st, RDict(list(r.entries), r.default, r.counter))
    if r.kind == "set":
        return it.alloc(st, RSet(list(r.items)))
    if r.kind == "arr":
        return it.alloc(st, RArr(it.arrval(st, v.args[0]), frame=r.frame))
    if r.kind == "lazy":
        return it.alloc(st, RLazy(r.src, r.lo, r.hi))
    if r.kind == "ext":
        return it.alloc(st, RExt(r.path, r.args, r.kwargs, r.state, dict(r.fields)))
    return v


def sk_clone(it, st, v, node):
    if v.op == "ite":
        return it.fork_cases(st, v, lambda s, x: sk_clone(it, s, x, node))
    r = it.rec(st, v)
    if r is None:
        return v
    if r.kind == "ext":
        return it.alloc(st, RExt(r.path, r.args, r.kwargs, NONE, {k: x for k, x in r.fields.items() if not k.endswith("_")}))
    if r.kind == "obj" and [b for b in r.cls.ext_bases() if b.startswith("sklearn.")]:
        kw = {}
        for p in init_params(it, r.cls):
            x = it.getattr(st, v, p, node)
            if st.dead:
                return BOT
            kw[p] = deepcopy(it, st, x, {}, node)
        return it.instantiate(st, r.cls, [], kw, node)
    if r.kind in ("list", "set", "dict"):
        return deepcopy(it, st, v, {}, node)
    return deepcopy(it, st, v, {}, node)


# ---------------------------------------------------------------------------------- indexing
def isbool(t):
    return t.op == "inv" or (t.op == "cmp") or (t.op == "sym" and t.args[1] == "mask") or (t.op == "obs" and t.args[1] == "mask")


def fancy(t):
    """does this index make a copy?"""
    for x in (t.args if t.op == "tuple" else (t,)):
        if x.op == "slice" or x is NONE or (is_const(x) and cval(x) is Ellipsis):
            continue
        if ndim(x) > 0 or x.op == "list":
            return True
        if x.op == "ite" and any(ndim(y) > 0 for y in x.args[1:]):
            return True
    return False


def pure_index(it, st, i):
    if i.op == "tuple":
        return T("tuple", *[pure_index(it, st, x) for x in i.args])
    if i.op == "slice":
        return i
    p = it.pure(st, i)
    if p.op == "glen":
        p = p.args[0]
    return p


def getitem(it, st, o, i, node):
    if o.op == "bot" or i.op == "bot":
        return BOT
    if o.op == "ite":
        return it.fork_cases(st, o, lambda s, x: getitem(it, s, x, i, node))
    r = it.rec(st, o)
    if r is not None:
        if r.kind == "obj":
            f, c = r.cls.lookup("__getitem__")
            if f is None:
                it.emit(st, "attr-miss", (r.cls.qual, "__getitem__"), it.site(node))
                it.raise_ext(st, "TypeError", "not subscriptable")
                return BOT
            return it.call(st, T("bound", f, o), [i], {}, node)
        if r.kind == "list":
            return list_get(it, st, o, r, i, node)
        if r.kind == "dict":
            return dict_get(it, st, o, r, i, node)
        if r.kind == "lazy":
            p = it.pure(st, i)
            if is_const(p) and isinstance(cval(p), int):
                k = cval(p)
                k = r.hi + k if k < 0 else r.lo + k
                if r.src[0] != "ite" and r.lo <= k < r.hi:
                    return it.lazy_elem(st, r, k)
                it.raise_ext(st, "IndexError", "index")
                return BOT
            return it.unsupported(st, "index into prefetched draws", node)
        if r.kind == "arr":
            return arr_get(it, st, o, r, i, node)
        if r.kind == "ext":
            h = it.ext_models.get(r.path)
            if h is not None and hasattr(h, "getitem"):
                return h.getitem(it, st, o, r, i, node)
            if r.path == "pandas.DataFrame":
                d = r.args[0] if r.args else NONE
                if it.rec(st, d) is not None and it.rec(st, d).kind == "dict":
                    return getitem(it, st, d, i, node)
            return T("extval", o, it.pure(st, i))
        if r.kind == "set":
            it.raise_ext(st, "TypeError", "set index")
            return BOT
    if o.op == "indexer":
        return getitem_term(it, st, it.pure(st, o.args[0]), pure_index(it, st, i))
    if o.op == "tuple":
        p = it.pure(st, i)
        if is_const(p) and isinstance(cval(p), (int, bool)):
            k = int(cval(p))
            if -len(o.args) <= k < len(o.args):
                return o.args[k]
            it.raise_ext(st, "IndexError", "tuple index")
            return BOT
        if p.op == "slice" and all(is_const(x) for x in p.args):
            return T("tuple", *o.args[slice(*[cval(x) for x in p.args])])
        v = o.args[-1] if o.args else BOT
        for k in range(len(o.args) - 2, -1, -1):
            v = ITE(it.lit(compare("==", p, const(k))), o.args[k], v)
        return v
    if o.op == "const" and isinstance(cval(o), str):
        if is_const(i) and isinstance(cval(i), int):
            try:
                return const(cval(o)[cval(i)])
            except IndexError:
                it.raise_ext(st, "IndexError", "string index")
                return BOT
        return T("fstr", o, it.pure(st, i))
    if o.op == "const" and cval(o) is None:
        it.emit(st, "none-attr", ("__getitem__",), it.site(node))
        it.raise_ext(st, "TypeError", "None is not subscriptable")
        return BOT
    if o.op in ("ext", "class", "extclsattr"):
        return o
    if o.op in ("extval", "extcall"):
        return T("extval", o, it.pure(st, i))
    if o.op == "objdict":
        return dict_get(it, st, o, it.rec(st, objdict(it, st, o)), i, node)
    if o.op == "unknown":
        return unknown(o.args[0])
    if o.op in ("range", "dictview", "gen"):
        l = it.iterate(st, o)
        if l is not None:
            x = it.alloc(st, RList(list(l)))
            return getitem(it, st, x, i, node)
    if o.op in ("closure", "bound"):
        it.emit(st, "not-callable", ("subscript of a function",), it.site(node))
        it.raise_ext(st, "TypeError", "not subscriptable")
        return BOT
    return getitem_term(it, st, o, pure_index(it, st, i))


def getitem_term(it, st, t, i):
    if t.op in ("list", "tuple") and is_const(i) and isinstance(cval(i), int) and all(x.op not in ("gi", "spread") for x in t.args) and -len(t.args) <= cval(i) < len(t.args):
        return it.mkval(st, t.args[cval(i)])
    return it.mkval(st, T("index", t, i))


def list_get(it, st, o, r, i, node):
    p = pure_index(it, st, i)
    items = r.items
    full = all(g is TRUE for g, _ in items)
    if is_const(p) and isinstance(cval(p), (int, bool)) and not (isinstance(cval(p), bool)):
        k = cval(p)
        if full:
            if -len(items) <= k < len(items):
                return items[k][1]
            it.emit(st, "index-error", (k, len(items)), it.site(node))
            it.raise_ext(st, "IndexError", "list index")
            return BOT
        if k >= 0 and all(g is TRUE for g, _ in items[:k + 1]) and k < len(items):
            return items[k][1]
        if k < 0:
            rev = compress(list(reversed(items)))
            kk = -k - 1
        else:
            rev, kk = compress(items), k
        if kk >= len(rev):
            it.raise_ext(st, "IndexError", "list index")
            return BOT
        g, v = rev[kk]
        g = it.simp(st, g)
        it.branch(st, g, lambda s: None, lambda s: it.raise_ext(s, "IndexError", "list index"))
        return v if not st.dead else BOT
    if p.op == "slice" and all(is_const(x) for x in p.args):
        sl = slice(*[cval(x) for x in p.args])
        src = items if full else (compress(items) if not (sl.start in (None, 0) and sl.stop is None and sl.step in (None, 1)) else items)
        return it.alloc(st, RList(list(src[sl]), r.arr))
    if r.arr and p.op == "tuple":
        # two-dimensional indexing of an array of known rows
        return it.mkval(st, T("index", T("call", "numpy.array", (it.pure(st, o),), ()), p))
    if r.arr:
        ri = it.rec(st, i)
        if ri is not None and ri.kind == "list":
            vals = [x for _, x in ri.items]
            if len(vals) == len(items) and all(is_const(x) and isinstance(cval(x), bool) or it.boolish(x) for x in vals) and full:
                return it.alloc(st, RList([(AND(it.truth(st, m), g), x) for (g, x), m in zip(items, vals)], True))
            if full and all(is_const(x) and isinstance(cval(x), int) for x in vals):
                return it.alloc(st, RList([items[cval(x)] for x in vals], True))
        if ndim(p) > 0:
            return it.mkval(st, T("index", T("call", "numpy.array", (it.pure(st, o),), ()), p))
    if p.op == "slice":
        return it.mkval(st, T("index", it.pure(st, o), p))
    # symbolic position
    if full and items:
        if all(x.op not in ("ref",) for _, x in items) and len(items) > 6:
            return it.mkval(st, T("index", it.pure(st, o), p))
        v = items[-1][1]
        n = len(items)
        for k in range(n - 2, -1, -1):
            v = ITE(OR(it.lit(compare("==", p, const(k))), it.lit(compare("==", p, const(k - n)))), items[k][1], v)
        return v
    if items and len(items) <= 6 and ndim(p) == 0 and any(x.op in ("ref", "ite") and it.struct(st, x) for _, x in items):
        v, ok = None, []
        for pos, lst in ((lambda k: k, compress(items)), (lambda k: -k - 1, compress(list(reversed(items))))):
            for k, (g, x) in enumerate(lst):
                c = it.lit(compare("==", p, const(pos(k))))
                ok.append(AND(c, g))
                v = x if v is None else ITE(c, x, v)
        it.branch(st, it.simp(st, OR(*ok)), lambda s: None, lambda s: it.raise_ext(s, "IndexError", "list index"))
        return v if not st.dead else BOT
    return it.mkval(st, T("index", it.pure(st, o), p)) if items else it.unsupported(st, "index into empty list", node)


def key_eq(it, st, a, b, node):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b))
    return it.truth(st, it.comparison(st, "==", a, b, node))


def dict_get(it, st, o, r, i, node, default=None):
    if i.op == "ite":
        return it.fork_cases(st, i, lambda s, x: dict_get(it, s, o, it.rec(s, o) if o.op == "ref" else r, x, node, default))
    cases, rest = [], TRUE
    for k, v, g in r.entries:
        c = AND(g, key_eq(it, st, k, i, node))
        c = it.simp(st, c)
        if c is FALSE:
            continue
        cases.append((c, v))
        rest = AND(rest, NOT(c))
        if c is TRUE:
            break
    rest = it.simp(st, rest)
    if rest is FALSE or (cases and cases[-1][0] is TRUE):
        v = cases[-1][1]
        for c, x in reversed(cases[:-1]):
            v = ITE(c, x, v)
        return v
    if default is not None:
        v = default
        for c, x in reversed(cases):
            v = ITE(c, x, v)
        return v
    if r.counter:
        v = const(0)
        for c, x in reversed(cases):
            v = ITE(c, x, v)
        return v
    if r.default is not None:
        d = it.call(st, r.default, [], {}, node)
        rr = st.heap[o.args[0]]
        if not cases:
            st.heap[o.args[0]] = RDict(rr.entries + [(i, d, TRUE)], rr.default, rr.counter)
            return d
        return it.havoc(st, "defaultdict with symbolic keys", node)
    if not cases:
        it.emit(st, "key-error", (i,), it.site(node))
        it.raise_ext(st, "KeyError", repr(i)[:40])
        return BOT
    it.branch(st, rest, lambda s: it.raise_ext(s, "KeyError", "key"), lambda s: None)
    v = cases[-1][1]
    for c, x in reversed(cases[:-1]):
        v = ITE(c, x, v)
    return v


def arr_get(it, st, o, r, i, node):
    val = it.arrval(st, o.args[0])
    p = pure_index(it, st, i)
    if r.frame:
        if p.op == "tuple" or p.op == "slice" and False:
            it.raise_ext(st, "TypeError", "frame indexing")
            return BOT
        if isbool(p):
            return it.alloc(st, RArr(T("index", val, p), frame=True))
        if ndim(p) > 0:
            it.raise_ext(st, "KeyError", "frame columns")
            return BOT
        return it.mkval(st, T("index", val, T("tuple", T("slice", NONE, NONE, NONE), p)))
    t = T("index", val, p)
    if ndim(t) == 0:
        n = it.known_len(val)
        if n is not None and is_const(p) and isinstance(cval(p), int) and not -n <= cval(p) < n and ndim(val) == 1:
            it.raise_ext(st, "IndexError", "index out of bounds")
            return BOT
        if val.op == "list" and is_const(p) and all(x.op not in ("gi", "spread") for x in val.args) and isinstance(cval(p), int):
            return val.args[cval(p)]
        return t
    if fancy(p) or p.op == "ite":
        return it.alloc(st, RArr(t))
    return it.alloc(st, RArr(None, view=(o.args[0], p)))


def setitem(it, st, o, i, v, node):
    if o.op == "bot":
        return
    if o.op == "ite":
        it.fork_cases(st, o, lambda s, x: setitem(it, s, x, i, v, node) or NONE)
        return
    r = it.rec(st, o)
    if o.op == "objdict":
        if is_const(i):
            it.setfield(st, o.args[0], cval(i), v)
        return
    if o.op == "indexer":
        b = o.args[0]
        it.write_arr(st, b, T("setitem", it.pure(st, b), pure_index(it, st, i), it.pure(st, v)), node)
        return
    if r is None:
        if ndim(o) > 0:
            it.emit(st, "inplace-term", (o,), it.site(node))
        it.havoc(st, "item assignment on " + o.op, node)
        return
    if r.kind == "obj":
        f, c = r.cls.lookup("__setitem__")
        if f is None:
            it.emit(st, "attr-miss", (r.cls.qual, "__setitem__"), it.site(node))
            it.raise_ext(st, "TypeError", "item assignment")
            return
        it.call(st, T("bound", f, o), [i, v], {}, node)
        return
    if r.kind == "list":
        p = pure_index(it, st, i)
        items = list(r.items)
        if r.arr:
            it.emit(st, "inplace", (o,), it.site(node))
        if is_const(p) and isinstance(cval(p), int):
            k = cval(p)
            if k < 0 and all(g is TRUE for g, _ in items):
                k += len(items)
            if 0 <= k < len(items) and all(g is TRUE for g, _ in items[:k + 1]):
                items[k] = (TRUE, v)
                st.heap[o.args[0]] = RList(items, r.arr)
                return
            if all(g is TRUE for g, _ in items):
                it.emit(st, "index-error", (cval(p), len(items)), it.site(node))
                it.raise_ext(st, "IndexError", "assignment index")
                return
        elif p.op == "slice" and all(is_const(x) for x in p.args):
            z = it.rec(st, v)
            if z is not None and z.kind == "lazy" and not r.arr and (not items or p.args[0] in (NONE, const(0)) and p.args[1] is NONE and p.args[2] is NONE):
                st.heap[o.args[0]] = RLazy(z.src, z.lo, z.hi)
                return
            l = it.iterate(st, v)
            if l is not None and all(g is TRUE for g, _ in items):
                if r.arr and len(l) != len(items[slice(*[cval(x) for x in p.args])]):
                    l = None
                else:
                    items[slice(*[cval(x) for x in p.args])] = l
                    st.heap[o.args[0]] = RList(items, r.arr)
                    return
        elif all(g is TRUE for g, _ in items) and ndim(p) == 0 and p.op != "slice":
            st.heap[o.args[0]] = RList([(g, ITE(it.lit(compare("==", p, const(k))), v, x)) for k, (g, x) in enumerate(items)], r.arr)
            return
        if r.arr:
            st.heap[o.args[0]] = RList([(g, unknown("array element")) for g, x in items], True)
        it.havoc(st, "list item assignment", node)
        return
    if r.kind == "dict":
        if i.op == "ite":
            it.fork_cases(st, i, lambda s, x: setitem(it, s, o, x, v, node) or NONE)
            return
        out, hit = [], FALSE
        for k, x, g in r.entries:
            c = key_eq(it, st, k, i, node)
            out.append((k, ITE(c, v, x), OR(g, c) if c is not FALSE else g))
            hit = OR(hit, c)
        if hit is not TRUE:
            out.append((i, v, NOT(hit)))
        st.heap[o.args[0]] = RDict(out, r.default, r.counter)
        return
    if r.kind == "arr":
        p = pure_index(it, st, i)
        val = it.arrval(st, o.args[0])
        if r.frame and p.op != "tuple":
            p = T("tuple", T("slice", NONE, NONE, NONE), p)
        it.write_arr(st, o, T("setitem", val, p, it.pure(st, v)), node)
        return
    if r.kind == "ext":
        st.heap[o.args[0]] = RExt(r.path, r.args, r.kwargs, T("tuple", r.state, it.pure(st, v)), r.fields, r.tag)
        return
    it.havoc(st, "item assignment on " + r.kind, node)


def delitem(it, st, o, i, node):
    if o.op == "ite":
        it.fork_cases(st, o, lambda s, x: delitem(it, s, x, i, node) or NONE)
        return
    r = it.rec(st, o)
    if r is not None and r.kind == "list" and is_const(i) and isinstance(cval(i), int) and all(g is TRUE for g, _ in r.items):
        items = list(r.items)
        try:
            del items[cval(i)]
        except IndexError:
            it.raise_ext(st, "IndexError", "del")
            return
        st.heap[o.args[0]] = RList(items, r.arr)
        return
    if r is not None and r.kind == "list" and i.op == "slice" and all(is_const(x) for x in i.args) and all(g is TRUE for g, _ in r.items):
        items = list(r.items)
        del items[slice(*[cval(x) for x in i.args])]
        st.heap[o.args[0]] = RList(items, r.arr)
        return
    if r is not None and r.kind == "dict":
        call_method(it, st, o, "pop", [i], {}, node)
        return
    if o.op == "objdict" and is_const(i):
        rr = it.rec(st, o.args[0])
        f = dict(rr.fields)
        f.pop(cval(i), None)
        st.heap[o.args[0].args[0]] = RObj(rr.cls, f, rr.tag)
        return
    it.havoc(st, "del item", node)


def objdict(it, st, o):
    r = it.rec(st, o.args[0])
    return it.alloc(st, RDict([(const(k), x, TRUE) for k, x in r.fields.items() if x is not UNBOUND]))


def set_op(it, st, op, ra, rb):
    def has(items, x):
        g = FALSE
        for h, y in items:
            g = OR(g, AND(h, key_eq(it, st, x, y, None)))
        return g
    if op == "|":
        return it.alloc(st, RSet(list(ra.items) + [(AND(g, NOT(has(ra.items, x))), x) for g, x in rb.items if has(ra.items, x) is not TRUE]))
    if op == "&":
        its = [(AND(g, has(rb.items, x)), x) for g, x in ra.items]
    elif op == "-":
        its = [(AND(g, NOT(has(rb.items, x))), x) for g, x in ra.items]
    elif op == "^":
        its = [(AND(g, NOT(has(rb.items, x))), x) for g, x in ra.items] + [(AND(g, NOT(has(ra.items, x))), x) for g, x in rb.items]
    else:
        return unknown("set operation")
    return it.alloc(st, RSet([(g, x) for g, x in its if g is not FALSE]))


# ---------------------------------------------------------------------------------- methods
def frame_values(it, st, r):
    d = r.args[0] if r.args else NONE
    rd = it.rec(st, d)
    if rd is not None and rd.kind == "dict":
        cols = [it.pure(st, x) for _, x, _ in rd.entries]
        return it.alloc(st, RArr(T("npattr", "T", T("call", "numpy.array", (T("list", *cols),), ()))))
    return it.mkval(st, T("call", "numpy.array", (it.pure(st, d),), ()))


def frame_rows(it, st, r):
    rd = it.rec(st, r.args[0]) if r.args else None
    if rd is None or rd.kind != "dict":
        return None
    cols = []
    for k, x, g in rd.entries:
        l = it.iterate(st, x)
        if l is None or any(h is not TRUE for h, _ in l):
            return None
        cols.append([y for _, y in l])
    if not cols or len(set(len(c) for c in cols)) != 1:
        return None
    return [[c[i] for c in cols] for i in range(len(cols[0]))]


INPLACE_ARR = {"sort", "fill", "put", "itemset", "partition", "resize", "byteswap", "setfield"}


def call_method(it, st, base, name, args, kwargs, node):
    if base.op == "bot":
        return BOT
    if base.op == "ite":
        return it.fork_cases(st, base, lambda s, x: call_method(it, s, x, name, list(args), dict(kwargs), node))
    r = it.rec(st, base)
    if r is not None:
        k = r.kind
        if k == "list":
            return list_method(it, st, base, r, name, args, kwargs, node)
        if k == "dict":
            return dict_method(it, st, base, r, name, args, kwargs, node)
        if k == "set":
            return set_method(it, st, base, r, name, args, kwargs, node)
        if k == "lazy":
            return lazy_method(it, st, base, r, name, args, kwargs, node)
        if k == "arr":
            return arr_method(it, st, base, r, name, args, kwargs, node)
        if k == "ext":
            return ext_method(it, st, base, r, name, args, kwargs, node)
        if k == "obj":
            f = it.getattr(st, base, name, node)
            return BOT if st.dead else it.call(st, f, args, kwargs, node)
    if base.op == "objdict":
        if name == "update":
            for a in args:
                d = it.rec(st, objdict(it, st, a) if a.op == "objdict" else a)
                if d is not None and d.kind == "dict":
                    for kk, v, g in d.entries:
                        if is_const(kk):
                            it.setfield(st, base.args[0], cval(kk), v)
            for kk, v in kwargs.items():
                it.setfield(st, base.args[0], kk, v)
            return NONE
        d = objdict(it, st, base)
        return dict_method(it, st, d, it.rec(st, d), name, args, kwargs, node)
    if base.op in ("closure", "lru") and name in ("cache_clear", "cache_info"):
        if base.op == "lru" and name == "cache_clear":
            st.heap[base.args[1]] = RCache([])
        return NONE
    if base.op == "const" and isinstance(cval(base), str):
        return str_method(it, st, base, name, args, kwargs)
    if base.op == "fstr":
        return T("fstr", base, const(name), *[it.pure(st, a) for a in args])
    if base.op == "tuple":
        if name == "index" or name == "count":
            l = it.newlist(st, list(base.args))
            return list_method(it, st, l, it.rec(st, l), name, args, kwargs, node)
        it.emit(st, "attr-miss", ("tuple", name), it.site(node))
        it.raise_ext(st, "AttributeError", "tuple." + name)
        return BOT
    if base.op in ("extval", "extcall", "unknown"):
        it.emit(st, "extcall", (base, name, tuple(args)), it.site(node))
        return T("extval", T("extval", base, name), T("tuple", *[it.pure(st, a) for a in args]))
    if base.op == "dictview":
        l = it.iterate(st, base)
        x = it.alloc(st, RSet(list(l or [])))
        return set_method(it, st, x, it.rec(st, x), name, args, kwargs, node)
    if base.op == "gen":
        if name == "close":
            return NONE
        return it.havoc(st, "generator method", node)
    if base.op == "const" and cval(base) is None:
        it.emit(st, "none-attr", (name,), it.site(node))
        it.raise_ext(st, "AttributeError", "None." + name)
        return BOT
    if base.op in ("sym", "const", "bin", "call", "rand", "index", "method", "neg", "cmp", "obs", "npattr", "setitem", "glen", "inv", "kfold"):
        b = base.args[0] if base.op == "glen" else base
        return num_method(it, st, b, name, args, kwargs, node)
    return it.havoc(st, "method %s of %s" % (name, base.op), node)


def pargs(it, st, args, kwargs):
    f = lambda x: x.args[0] if x.op == "glen" else x
    return tuple(f(it.pure(st, a)) for a in args), tuple(sorted((k, f(it.pure(st, v))) for k, v in kwargs.items()))


def num_method(it, st, t, name, args, kwargs, node):
    if name in ("fit", "predict", "split") or name.startswith("_"):
        it.emit(st, "attr-miss", ("number", name), it.site(node))
        it.raise_ext(st, "AttributeError", name)
        return BOT
    a, k = pargs(it, st, args, kwargs)
    if name == "item" and not a:
        return t
    return it.mkval(st, T("method", name, t, a, k))


def str_method(it, st, base, name, args, kwargs):
    pa, pk = pargs(it, st, args, kwargs)
    if all(is_const(x) for x in pa) and all(is_const(v) for _, v in pk):
        try:
            v = getattr(cval(base), name)(*[cval(x) for x in pa], **{k: cval(v) for k, v in pk})
            if isinstance(v, (str, int, bool)):
                return const(v)
            if isinstance(v, list):
                return it.newlist(st, [const(x) for x in v])
        except Exception:
            pass
    return T("fstr", base, *pa)


def arr_method(it, st, base, r, name, args, kwargs, node):
    val = it.arrval(st, base.args[0])
    a, k = pargs(it, st, args, kwargs)
    if name in INPLACE_ARR:
        if name == "sort":
            new = T("call", "numpy.sort", (val,), k)
        elif name == "fill":
            new = T("call", "numpy.full_like", (val,) + a, ())
        else:
            new = unknown("array." + name)
        it.write_arr(st, base, new, node)
        return NONE
    if name in ("copy", "flatten"):
        return it.alloc(st, RArr(val if name == "copy" else T("method", name, val, a, k), frame=r.frame))
    if name == "to_numpy":
        if k and dict(k).get("copy") is TRUE:
            return it.alloc(st, RArr(val))
        return it.alloc(st, RArr(None, view=(base.args[0], T("npattr", "values", NONE))))
    if name in ("view", "ravel", "reshape", "squeeze", "transpose", "swapaxes"):
        if name == "view" or (name in ("ravel", "squeeze") and ndim(val) == 1):
            return it.alloc(st, RArr(None, view=(base.args[0], T("npattr", "values", NONE))))
        if name == "transpose" and not a:
            return it.alloc(st, RArr(None, view=(base.args[0], T("npattr", "T", NONE))))
        return it.mkval(st, T("method", name, val, a, k))
    if name == "tolist":
        if ndim(val) == 1 and it.known_len(val) is not None and it.known_len(val) > 8:
            return it.alloc(st, RLazy(("vec", val, it.known_len(val)), 0, it.known_len(val)))
        l = it.iter_term(st, val) if it.known_len(val) is not None else None
        if l is not None and ndim(val) == 1:
            return it.alloc(st, RList(list(l)))
        return it.alloc(st, RArr(T("call", "builtins.list", (val,), ())))
    if name == "astype" and kwargs.get("copy") is FALSE:
        return it.alloc(st, RArr(None, view=(base.args[0], T("npattr", "values", NONE)), frame=False))
    if name == "append" and not r.frame:
        it.emit(st, "attr-miss", ("array", name), it.site(node))
        it.raise_ext(st, "AttributeError", name)
        return BOT
    if r.frame and name not in ("astype", "sum", "mean", "max", "min", "std", "var", "any", "all"):
        it.emit(st, "extcall", (base, name, tuple(args)), it.site(node))
        if kwargs.get("inplace") is TRUE:
            it.emit(st, "inplace", (base,), it.site(node))
            st.heap[base.args[0]] = RArr(unknown("frame." + name), None, r.tag, True)
            return NONE
        if name == "iterrows" or name == "itertuples":
            return unknown("frame rows")
        return it.alloc(st, RArr(unknown("frame." + name), frame=True))
    if name in ("fit", "predict", "split"):
        it.emit(st, "attr-miss", ("array", name), it.site(node))
        it.raise_ext(st, "AttributeError", name)
        return BOT
    t = T("method", name, val, a, k)
    if name == "astype" and r.frame:
        return it.alloc(st, RArr(t, frame=True))
    out = kwargs.get("out")
    if out is not None and out.op == "ref" and it.rec(st, out).kind == "arr":
        it.write_arr(st, out, T("method", name, val, a, tuple(x for x in k if x[0] != "out")), node)
        return out
    return it.mkval(st, t)


def list_method(it, st, base, r, name, args, kwargs, node):
    oid = base.args[0]
    items = r.items
    if r.arr and name not in ("__len__",):
        if name in ("tolist", "copy"):
            return it.alloc(st, RList(list(items), name == "copy"))
        if name in ("astype", "ravel", "flatten", "view", "reshape") and name in ("astype", "ravel", "flatten", "view"):
            if name == "astype" and args:
                d = args[0]
                dn = d.args[0].split(".")[-1] if d.op == "ext" else (str(cval(d)) if is_const(d) else "")
                if dn.startswith("float") and all(x.op != "ref" for _, x in items):
                    return it.alloc(st, RList([(g, call_ext(it, st, "builtins.float", [x], {}, node)) for g, x in items], True))
                if dn == "object":
                    return it.alloc(st, RList(list(items), True))
                if dn.startswith("int") and all(x.op != "ref" for _, x in items):
                    return it.alloc(st, RList([(g, T("call", "builtins.int", (x,), ())) for g, x in items], True))
            if name != "astype":
                return it.alloc(st, RList(list(items), True))
        if name in ("append", "extend", "pop", "remove", "insert"):
            it.emit(st, "attr-miss", ("array", name), it.site(node))
            it.raise_ext(st, "AttributeError", name)
            return BOT
        if name in INPLACE_ARR:
            it.emit(st, "inplace", (base,), it.site(node))
            if name == "fill":
                st.heap[oid] = RList([(g, args[0]) for g, _ in items], True)
            else:
                st.heap[oid] = RList([(g, unknown("array." + name)) for g, _ in items], True)
            return NONE
        if name in ("any", "all"):
            ts = [AND(g, it.truth(st, x)) if name == "any" else OR(NOT(g), it.truth(st, x)) for g, x in items]
            return OR(*ts) if name == "any" else AND(*ts)
        a, k = pargs(it, st, args, kwargs)
        return it.mkval(st, T("method", name, T("call", "numpy.array", (it.pure(st, base),), ()), a, k))
    if name == "append":
        st.heap[oid] = RList(items + [(TRUE, args[0])])
        return NONE
    if name in ("appendleft",):
        st.heap[oid] = RList([(TRUE, args[0])] + items)
        return NONE
    if name == "extend":
        v = args[0]
        if v.op == "gen":
            l = it.iterate(st, v)
            items = st.heap[oid].items
        else:
            l = it.iterate(st, v)
        if l is None:
            rv = it.rec(st, v)
            if rv is not None and rv.kind == "lazy" and not items:
                st.heap[oid] = RLazy(rv.src, rv.lo, rv.hi)
                return NONE
            if rv is not None and rv.kind == "arr" and not items:
                z = to_list(it, st, v, node)
                st.heap[oid] = it.rec(st, z) if z.op == "ref" else RList([])
                return NONE
            it.havoc(st, "extend with unknown collection", node)
            st.heap[oid] = RList(items + [(TRUE, unknown("extended"))])
            return NONE
        st.heap[oid] = RList(items + list(l))
        return NONE
    if name == "insert":
        if is_const(args[0]) and all(g is TRUE for g, _ in items[:max(cval(args[0]), 0)]):
            l = list(items)
            l.insert(cval(args[0]), (TRUE, args[1]))
            st.heap[oid] = RList(l)
            return NONE
        it.havoc(st, "list.insert", node)
        return NONE
    if name in ("pop", "popleft"):
        k = const(0) if name == "popleft" else (it.pure(st, args[0]) if args else const(-1))
        if not items:
            it.raise_ext(st, "IndexError", "pop from empty list")
            return BOT
        if is_const(k):
            i = cval(k)
            if all(g is TRUE for g, _ in items):
                if not -len(items) <= i < len(items):
                    it.raise_ext(st, "IndexError", "pop")
                    return BOT
                l = list(items)
                _, v = l.pop(i)
                st.heap[oid] = RList(l)
                return v
            if i in (-1, 0):
                seq = items if i == 0 else list(reversed(items))
                v, out, none_before = None, [], TRUE
                vals = []
                for g, x in seq:
                    c = AND(none_before, g)
                    vals.append((c, x))
                    out.append((AND(g, NOT(none_before)), x))
                    none_before = AND(none_before, NOT(g))
                nb = it.simp(st, none_before)
                it.branch(st, nb, lambda s: it.raise_ext(s, "IndexError", "pop from empty list"), lambda s: None)
                if st.dead:
                    return BOT
                v = vals[-1][1]
                for c, x in reversed(vals[:-1]):
                    v = ITE(c, x, v)
                out = [(g, x) for g, x in out if g is not FALSE]
                st.heap[oid] = RList(out if i == 0 else list(reversed(out)))
                return v
        v = list_get(it, st, base, r, k, node)
        it.havoc(st, "pop at symbolic position", node)
        return v
    if name == "remove":
        x = args[0]
        if x.op == "ite":
            return it.fork_cases(st, x, lambda s, y: list_method(it, s, base, it.rec(s, base), "remove", [y], {}, node))
        out, done = [], FALSE
        for g, y in items:
            c = TRUE if y is x else it.truth(st, it.comparison(st, "==", y, x, node))
            c = AND(g, c)
            hit = AND(c, NOT(done))
            ng = AND(g, NOT(hit))
            ng = it.simp(st, ng)
            if ng is not FALSE:
                out.append((ng, y))
            done = OR(done, c)
        done = it.simp(st, done)
        st.heap[oid] = RList(out)
        if done is not TRUE:
            it.branch(st, done, lambda s: None, lambda s: it.raise_ext(s, "ValueError", "list.remove(x): x not in list", it.site(node)))
        return NONE
    if name == "index":
        x = args[0]
        cs = []
        for k, (g, y) in enumerate(items):
            c = TRUE if y is x else it.truth(st, it.comparison(st, "==", y, x, node))
            cs.append(AND(g, c))
        anyc = it.simp(st, OR(*cs) if cs else FALSE)
        it.branch(st, anyc, lambda s: None, lambda s: it.raise_ext(s, "ValueError", "not in list"))
        if st.dead:
            return BOT
        v = const(len(items) - 1)
        for k in range(len(items) - 2, -1, -1):
            v = ITE(cs[k], const(k), v)
        return v
    if name == "count":
        t = const(0)
        for g, y in items:
            c = AND(g, TRUE if y is args[0] else it.truth(st, it.comparison(st, "==", y, args[0], node)))
            t = binop("+", t, ITE(c, const(1), const(0)))
        return t
    if name == "copy":
        return it.alloc(st, RList(list(items)))
    if name == "reverse":
        st.heap[oid] = RList(list(reversed(items)))
        return NONE
    if name == "clear":
        st.heap[oid] = RList([])
        return NONE
    if name == "sort":
        x = call_ext(it, st, "builtins.sorted", [base], kwargs, node)
        rx = it.rec(st, x)
        if rx is not None and rx.kind == "list":
            st.heap[oid] = RList(rx.items)
        else:
            l = it.iter_term(st, it.pure(st, x))
            st.heap[oid] = RList([(TRUE, y) for _, y in l] if len(l) == len(items) else [(g, unknown("sorted")) for g, _ in items])
        return NONE
    if name in ("__len__",):
        return length(items)
    if name == "__contains__":
        return it.contains(st, args[0], base, node)
    if name == "__getitem__":
        return getitem(it, st, base, args[0], node)
    it.emit(st, "attr-miss", ("list", name), it.site(node))
    it.raise_ext(st, "AttributeError", "list." + name)
    return BOT


def lazy_method(it, st, base, r, name, args, kwargs, node):
    oid = base.args[0]
    if r.src[0] == "ite":
        return it.havoc(st, "prefetched draws on joined paths", node)
    if name in ("pop", "popleft"):
        k = const(0) if name == "popleft" else (it.pure(st, args[0]) if args else const(-1))
        if r.hi <= r.lo:
            it.raise_ext(st, "IndexError", "pop from empty list")
            return BOT
        if is_const(k) and cval(k) in (-1, 0):
            if cval(k) == 0:
                v = it.lazy_elem(st, r, r.lo)
                st.heap[oid] = RLazy(r.src, r.lo + 1, r.hi)
            else:
                v = it.lazy_elem(st, r, r.hi - 1)
                st.heap[oid] = RLazy(r.src, r.lo, r.hi - 1)
            return v
    if name == "__len__":
        return const(r.hi - r.lo)
    if name == "clear":
        st.heap[oid] = RList([])
        return NONE
    if name == "copy":
        return it.alloc(st, RLazy(r.src, r.lo, r.hi))
    if name == "tolist":
        return it.alloc(st, RLazy(r.src, r.lo, r.hi))
    if name in ("reverse",) and r.src[0] == "vec":
        return NONE
    if r.hi - r.lo <= 64:
        l = it.iterate(st, base)
        st.heap[oid] = RList(list(l))
        return list_method(it, st, base, st.heap[oid], name, args, kwargs, node)
    return it.havoc(st, "method %s of prefetched draws" % name, node)


def dict_method(it, st, base, r, name, args, kwargs, node):
    oid = base.args[0]
    if name in ("keys", "values", "items"):
        return T("dictview", base, name)
    if name == "get":
        return dict_get(it, st, base, RDict(r.entries), args[0], node, args[1] if len(args) > 1 else NONE)
    if name == "update":
        for a in args:
            if a.op == "ite":
                it.fork_cases(st, a, lambda s, x: dict_method(it, s, base, it.rec(s, base), "update", [x], {}, node))
                continue
            if a.op == "objdict":
                a = objdict(it, st, a)
            d = it.rec(st, a)
            if d is not None and d.kind == "dict":
                for k, v, g in d.entries:
                    if g is TRUE:
                        setitem(it, st, base, k, v, node)
                    else:
                        it.branch(st, it.simp(st, g), lambda s, k=k, v=v: setitem(it, s, base, k, v, node), lambda s: None)
                continue
            if r.counter:
                return it.havoc(st, "Counter.update", node)
            l = it.iterate(st, a)
            if l is None:
                it.havoc(st, "dict.update", node)
                continue
            for g, p in l:
                q = it.iterate(st, p)
                if q is not None and len(q) == 2:
                    setitem(it, st, base, q[0][1], q[1][1], node)
        for k, v in kwargs.items():
            setitem(it, st, base, const(k), v, node)
        return NONE
    if name == "setdefault":
        cur = dict_get(it, st, base, RDict(r.entries), args[0], node, UNBOUND)
        if cur is UNBOUND:
            d = args[1] if len(args) > 1 else NONE
            setitem(it, st, base, args[0], d, node)
            return d
        if cur.op == "ite" and UNBOUND in it.leaves(cur):
            return it.havoc(st, "setdefault with symbolic key", node)
        return cur
    if name == "pop":
        v = dict_get(it, st, base, RDict(r.entries), args[0], node, args[1] if len(args) > 1 else None)
        if st.dead:
            return BOT
        r = it.rec(st, base)
        out = []
        for k, x, g in r.entries:
            c = key_eq(it, st, k, args[0], node)
            ng = AND(g, NOT(c))
            if ng is not FALSE:
                out.append((k, x, ng))
        st.heap[oid] = RDict(out, r.default, r.counter)
        return v
    if name == "copy":
        return it.alloc(st, RDict(list(r.entries), r.default, r.counter))
    if name == "clear":
        st.heap[oid] = RDict([], r.default, r.counter)
        return NONE
    if name == "__len__":
        return length([(g, k) for k, _, g in r.entries])
    if name == "__contains__":
        return it.contains(st, args[0], base, node)
    if name == "__getitem__":
        return getitem(it, st, base, args[0], node)
    if r.counter and name == "most_common":
        return it.unsupported(st, "most_common", node)
    if r.counter and name == "elements":
        return it.unsupported(st, "elements", node)
    if r.counter and name == "total":
        t = const(0)
        for k, v, g in r.entries:
            t = binop("+", t, ITE(g, v, const(0)))
        return t
    it.emit(st, "attr-miss", ("dict", name), it.site(node))
    it.raise_ext(st, "AttributeError", "dict." + name)
    return BOT


def set_method(it, st, base, r, name, args, kwargs, node):
    oid = base.args[0]

    def toset(v):
        l = it.iterate(st, v)
        return RSet(list(l)) if l is not None else None
    if name == "add":
        g = FALSE
        for h, y in r.items:
            g = OR(g, AND(h, key_eq(it, st, args[0], y, node)))
        if g is not TRUE:
            st.heap[oid] = RSet(r.items + [(NOT(g), args[0])])
        return NONE
    if name in ("discard", "remove"):
        out = [(AND(g, NOT(key_eq(it, st, y, args[0], node))), y) for g, y in r.items]
        st.heap[oid] = RSet([(g, y) for g, y in out if g is not FALSE])
        return NONE
    ops = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}
    if name in ops and args:
        b = toset(args[0])
        if b is not None:
            return set_op(it, st, ops[name], r, b)
    if name == "update" and args:
        b = toset(args[0])
        if b is not None:
            x = set_op(it, st, "|", r, b)
            st.heap[oid] = st.heap[x.args[0]]
            return NONE
    if name in ("issubset", "issuperset", "isdisjoint") and args:
        b = toset(args[0])
        if b is not None:
            if name == "issuperset":
                r, b = b, r
            if name == "isdisjoint":
                x = it.rec(st, set_op(it, st, "&", r, b))
                return NOT(OR(*[g for g, _ in x.items]) if x.items else FALSE)
            x = it.rec(st, set_op(it, st, "-", r, b))
            return NOT(OR(*[g for g, _ in x.items]) if x.items else FALSE)
    if name == "copy":
        return it.alloc(st, RSet(list(r.items)))
    if name == "pop" and len(r.items) == 1:
        st.heap[oid] = RSet([])
        return r.items[0][1]
    if name == "__len__":
        return length(r.items)
    return it.havoc(st, "set." + name, node)


def ext_method(it, st, base, r, name, args, kwargs, node):
    h = it.ext_models.get(r.path)
    if h is not None and hasattr(h, "method"):
        x = h.method(it, st, base, r, name, args, kwargs, node)
        if x is not None:
            return x
    it.emit(st, "extcall", (base, name, tuple(args)), it.site(node))
    short = r.path.split(".")[-1]
    if r.path == "pandas.DataFrame":
        return frame_method(it, st, base, r, name, args, kwargs, node)
    if short == "KFold" and name == "split":
        n = r.args[0] if r.args else dict(r.kwargs).get("n_splits", const(5))
        kw = dict(r.kwargs)
        sh = kw.get("shuffle", r.args[1] if len(r.args) > 1 else FALSE)
        x = args[0] if args else kwargs.get("X", NONE)
        ln = call_ext(it, st, "builtins.len", [x], {}, node)
        if st.dead:
            return BOT
        ln = it.pure(st, ln)
        if is_const(n) and isinstance(cval(n), int):
            uid = it.new()
            it.emit(st, "kfold", (uid, n, sh, kw.get("random_state", NONE)), it.site(node))
            shuffle = not (sh is FALSE)
            out = []
            for f in range(cval(n)):
                out.append(T("tuple", it.alloc(st, RArr(T("kfold", uid, n, f, "train", ln, shuffle))),
                             it.alloc(st, RArr(T("kfold", uid, n, f, "test", ln, shuffle)))))
            return it.newlist(st, out)
        return it.unsupported(st, "KFold with unknown number of splits", node)
    if short == "KFold" and name == "get_n_splits":
        return r.args[0] if r.args else const(5)
    if r.path.startswith(("sklearn.", "statsmodels.", "stub.")):
        if name == "fit":
            st.heap[base.args[0]] = RExt(r.path, r.args, r.kwargs, T("tuple", *[it.pure(st, a) for a in args]), r.fields, r.tag)
            it.emit(st, "extfit", (base, tuple(it.pure(st, a) for a in args)), it.site(node))
            if r.path.startswith("statsmodels.") or r.path == "stub.StatModel":
                return it.alloc(st, RExt(r.path + ".results", r.args, r.kwargs, T("tuple", *[it.pure(st, a) for a in r.args])))
            return base
        if name in ("predict", "transform"):
            x = args[0] if args else NONE
            px = it.pure(st, x)
            return it.alloc(st, RArr(T("obs", "predict:" + r.path, "vec", (px, r.state), (("like", 0),))))
        if name == "get_params":
            return it.alloc(st, RDict([(const(k), v, TRUE) for k, v in r.kwargs]))
        if name == "set_params":
            kw = dict(r.kwargs)
            kw.update(kwargs)
            st.heap[base.args[0]] = RExt(r.path, r.args, tuple(sorted(kw.items())), r.state, r.fields, r.tag)
            return base
    if r.path.startswith("numpy.random."):
        it.emit(st, "foreign-rng", (r.path + "." + name,), it.site(node))
        a, k = pargs(it, st, args, kwargs)
        return it.mkval(st, T("rand", "numpy.random." + name, a, k, it.new()))
    if r.path.startswith("builtins."):
        if name == "with_traceback":
            return base
        return unknown(name)
    return T("extval", T("extval", base, name), T("tuple", *[it.pure(st, a) for a in args]))


def frame_method(it, st, base, r, name, args, kwargs, node):
    rows = frame_rows(it, st, r)
    if name in ("itertuples", "iterrows") and rows is not None:
        out = []
        for i, row in enumerate(rows):
            if name == "iterrows":
                out.append(T("tuple", const(i), it.newlist(st, row, True)))
            elif kwargs.get("index", args[0] if args else TRUE) is FALSE:
                out.append(T("tuple", *row))
            else:
                out.append(T("tuple", const(i), *row))
        return it.newlist(st, out)
    if name in ("max", "min", "mean", "sum", "quantile", "median"):
        ax = kwargs.get("axis", args[0] if args and name != "quantile" else const(0))
        if is_const(ax):
            ax = const({"columns": 1, "index": 0, 0: 0, 1: 1}.get(cval(ax), 0))
            v = it.pure(st, frame_values(it, st, r))
            if name == "quantile":
                q = it.pure(st, args[0] if args else kwargs.get("q", const(0.5)))
                return it.mkval(st, T("call", "numpy.quantile", (v, q), (("axis", ax),)))
            return it.mkval(st, T("method", name, v, (), (("axis", ax),)))
    if name in ("to_numpy",):
        return frame_values(it, st, r)
    if name == "apply" and args and rows is not None and kwargs.get("axis") in (const(1), const("columns")):
        return it.newlist(st, [it.call(st, args[0], [it.newlist(st, row, True)], {}, node) for row in rows], True)
    if name == "items":
        return T("dictview", r.args[0], "items")
    return T("extval", T("extval", base, name), T("tuple", *[it.pure(st, a) for a in args]))


# ---------------------------------------------------------------------------------- external functions
FORK0 = {"builtins.len", "builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.sorted", "builtins.reversed", "builtins.sum",
         "builtins.any", "builtins.all", "builtins.set", "builtins.dict", "builtins.type", "builtins.id", "builtins.isinstance", "builtins.iter", "builtins.next",
         "numpy.random.choice", "builtins.getattr", "builtins.setattr", "builtins.hasattr", "builtins.callable", "builtins.zip", "builtins.vars"}


def call_ext(it, st, path, args, kwargs, node):
    path = ALIASES.get(path, path)
    if path.startswith("numpy.random.mtrand."):
        path = path.replace("mtrand.", "")
    if any(a.op == "bot" for a in args):
        return BOT
    if it.ext_subst:
        sub = it.ext_subst.get((path.split(".")[0], path.split(".")[-1]))
        if sub is not None:
            return it.call(st, sub, list(args), dict(kwargs), node)
    h = it.ext_funcs.get(path)
    if h is not None:
        return h(it, st, list(args), dict(kwargs), it.site(node))
    if path in FORK0 and args and args[0].op == "ite" and (it.struct(st, args[0]) or path in ("builtins.type", "builtins.isinstance") or any(x.op in ("gen", "dictview") for x in it.leaves(args[0]))):
        return it.fork_cases(st, args[0], lambda s, x: call_ext(it, s, path, [x] + list(args[1:]), dict(kwargs), node))
    top, short = path.split(".")[0], path.split(".")[-1]
    if top == "builtins":
        return builtin(it, st, path[9:], args, kwargs, node)
    if top == "numpy":
        return numpy_call(it, st, path, short, args, kwargs, node)
    if top == "copy":
        if short == "deepcopy":
            return deepcopy(it, st, args[0], {}, node)
        if short == "copy":
            return shallow(it, st, args[0], node)
    if top == "pickle":
        if short == "dumps":
            return T("pickled", deepcopy(it, st, args[0], {}, node))
        if short == "loads" and args[0].op == "pickled":
            return deepcopy(it, st, args[0].args[0], {}, node)
    if path == "joblib.Parallel":
        return it.alloc(st, RExt(path, tuple(args), tuple(sorted(kwargs.items()))))
    if path == "joblib.delayed":
        return T("delayed", args[0])
    if top == "tqdm":
        if short == "trange":
            return builtin(it, st, "range", args, {}, node)
        return args[0] if args else kwargs.get("iterable", NONE)
    if path == "sklearn.base.clone":
        return sk_clone(it, st, args[0] if args else kwargs.get("estimator", NONE), node)
    if top == "functools":
        if short == "partial":
            return T("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if short == "reduce":
            l = it.iterate(st, args[1])
            if l is not None and all(g is TRUE for g, _ in l):
                vals = [x for _, x in l]
                acc = args[2] if len(args) > 2 else (vals.pop(0) if vals else None)
                if acc is None:
                    it.raise_ext(st, "TypeError", "reduce of empty sequence")
                    return BOT
                for x in vals:
                    acc = it.call(st, args[0], [acc, x], {}, node)
                    if st.dead:
                        return BOT
                return acc
            return it.unsupported(st, "reduce", node)
        if short in ("lru_cache", "cache"):
            if args and args[0].op in ("closure", "bound"):
                return T("lru", args[0], it.new())
            return T("lrufactory")
        if short == "wraps":
            return T("identitydec")
    if top == "itertools":
        return itertools_call(it, st, path, short, args, kwargs, node)
    if top == "operator":
        return operator_call(it, st, short, args, kwargs, node)
    if top == "collections":
        return collections_call(it, st, short, args, kwargs, node)
    if path == "pandas.DataFrame":
        a = args[0] if args else kwargs.get("data", NONE)
        r = it.rec(st, a)
        if r is not None and r.kind == "arr":
            return it.alloc(st, RArr(None, view=(a.args[0], T("npattr", "values", NONE)), frame=True))
        if r is not None and r.kind == "dict":
            return it.alloc(st, RExt(path, (a,), tuple(sorted(kwargs.items()))))
        return T("extval", ext(path), it.pure(st, a))
    if top == "dataclasses" and short == "field":
        return T("dcfield", kwargs.get("default_factory", NONE), kwargs.get("default", NONE))
    if top == "typing":
        if short == "cast":
            return args[1]
        return ext(path)
    if top in ("warnings", "logging", "gc"):
        return NONE if short != "getLogger" else T("extval", ext(path), T("tuple"))
    if top in ("random", "secrets", "uuid") or path.startswith(("os.urandom",)):
        it.emit(st, "foreign-rng", (path,), it.site(node))
        if short == "seed":
            return NONE
        if short in ("choice", "sample", "shuffle", "choices", "Random", "SystemRandom", "getstate", "setstate"):
            return T("extval", ext(path), T("tuple", *[it.pure(st, a) for a in args]))
        a, k = pargs(it, st, args, kwargs)
        return T("rand", "numpy.random." + {"gauss": "normal", "random": "uniform", "normalvariate": "normal"}.get(short, short), a, k, it.new())
    if top == "math":
        a, k = pargs(it, st, args, kwargs)
        return T("call", path, a, k)
    if top == "scipy":
        a, k = pargs(it, st, args, kwargs)
        if short == "rvs" or "random_state" in kwargs:
            if "random_state" in kwargs and kwargs["random_state"] is not NONE:
                it.emit(st, "foreign-rng", (path,), it.site(node))
            return it.mkval(st, T("rand", path, a, k, it.new()))
        if isclass(path):
            return it.alloc(st, RExt(path, tuple(args), tuple(sorted(kwargs.items()))))
        return it.mkval(st, T("call", path, a, k))
    if isclass(path):
        if top == "sklearn" and kwargs.get("random_state", NONE) is not NONE:
            it.emit(st, "foreign-rng", (path + "(random_state=…)",), it.site(node))
        return it.alloc(st, RExt(path, tuple(args), tuple(sorted(kwargs.items()))))
    it.emit(st, "extfn", (path, tuple(args)), it.site(node))
    return T("extval", ext(path), T("tuple", *([it.pure(st, a) for a in args] + [it.pure(st, v) for _, v in sorted(kwargs.items())])))


def operator_call(it, st, short, args, kwargs, node):
    c = {"le": "<=", "gt": ">", "lt": "<", "ge": ">=", "eq": "==", "ne": "!="}
    b = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "and_": "&", "or_": "|", "xor": "^", "matmul": "@"}
    if short in c:
        return it.comparison(st, c[short], args[0], args[1], node)
    if short in b:
        return it.binary(st, b[short], args[0], args[1], node)
    if short == "neg":
        return it.mkval(st, T("neg", it.pure(st, args[0])))
    if short in ("inv", "invert"):
        return it.mkval(st, T("inv", it.pure(st, args[0])))
    if short == "not_":
        return NOT(it.truth(st, args[0]))
    if short == "truth":
        return it.truth(st, args[0])
    if short == "getitem":
        return getitem(it, st, args[0], args[1], node)
    if short == "is_":
        return it.is_(st, args[0], args[1])
    if short in ("attrgetter", "itemgetter", "methodcaller"):
        return T("opgetter", short, tuple(args))
    return it.unsupported(st, "operator." + short, node)


def itertools_call(it, st, path, short, args, kwargs, node):
    def L(v):
        l = it.iterate(st, v)
        return l
    if short == "chain":
        out = []
        for a in args:
            l = L(a)
            if l is None:
                return it.unsupported(st, "chain", node)
            out += l
        return it.alloc(st, RList(out))
    if short == "from_iterable":
        out = []
        o = L(args[0])
        if o is None:
            return it.unsupported(st, "chain", node)
        for g, x in o:
            l = L(x)
            if l is None:
                return it.unsupported(st, "chain", node)
            out += [(AND(g, h), y) for h, y in l]
        return it.alloc(st, RList(out))
    if short == "product":
        rep = cval(kwargs["repeat"]) if "repeat" in kwargs and is_const(kwargs["repeat"]) else 1
        acc = [(TRUE, ())]
        for a in list(args) * rep:
            l = L(a)
            if l is None:
                return it.unsupported(st, "product", node)
            acc = [(AND(g, h), t + (x,)) for g, t in acc for h, x in l]
        return it.alloc(st, RList([(g, T("tuple", *t)) for g, t in acc]))
    if short == "repeat" and len(args) == 2 and is_const(args[1]):
        return it.newlist(st, [args[0]] * cval(args[1]))
    if short == "islice":
        l = L(args[0])
        if l is not None and all(is_const(x) for x in args[1:]):
            return it.alloc(st, RList(compress(l)[slice(*[cval(x) for x in args[1:]])]))
    if short == "accumulate":
        l = L(args[0])
        if l is not None and all(g is TRUE for g, _ in l) and len(args) == 1:
            out, acc = [], None
            for _, x in l:
                acc = x if acc is None else it.binary(st, "+", acc, x, node)
                out.append(acc)
            return it.newlist(st, out)
    if short == "combinations" and is_const(args[1]):
        import itertools as itt
        l = L(args[0])
        if l is not None:
            return it.alloc(st, RList([(AND(*[g for g, _ in c]), T("tuple", *[x for _, x in c])) for c in itt.combinations(l, cval(args[1]))]))
    if short == "groupby":
        return it.unsupported(st, "groupby", node)
    if short == "count":
        return T("countfrom", args[0] if args else const(0))
    return it.unsupported(st, "itertools." + short, node)


def collections_call(it, st, short, args, kwargs, node):
    if short == "defaultdict":
        d = it.alloc(st, RDict([], args[0] if args and args[0] is not NONE else None))
        if len(args) > 1:
            dict_method(it, st, d, it.rec(st, d), "update", [args[1]], {}, node)
        return d
    if short == "OrderedDict":
        return builtin(it, st, "dict", args, kwargs, node)
    if short == "deque":
        return to_list(it, st, args[0], node) if args else it.newlist(st, [])
    if short == "Counter":
        if not args:
            return it.alloc(st, RDict([], None, True))
        l = it.iterate(st, args[0])
        if l is None:
            return it.unsupported(st, "Counter of unknown collection", node)
        flat = []

        def leaves(g, x):
            if x.op == "ite":
                leaves(AND(g, x.args[0]), x.args[1])
                leaves(AND(g, NOT(x.args[0])), x.args[2])
            else:
                flat.append((g, x))
        for g, x in l:
            leaves(g, x)
        if not all(is_const(x) or x.op in ("ref", "tuple", "fstr") for _, x in flat):
            # symbolic items: count by pairwise equality
            return it.unsupported(st, "Counter of symbolic items", node)
        keys = []
        for g, x in flat:
            if x not in keys:
                keys.append(x)
        es = []
        for k in keys:
            t, g = const(0), FALSE
            for h, x in flat:
                if x is k:
                    t = binop("+", t, ITE(h, const(1), const(0)))
                    g = OR(g, h)
            es.append((k, t, g))
        return it.alloc(st, RDict(es, None, True))
    if short == "namedtuple":
        return it.unsupported(st, "namedtuple", node)
    return it.unsupported(st, "collections." + short, node)


def to_list(it, st, v, node):
    if v.op == "ite":
        return it.fork_cases(st, v, lambda s, x: to_list(it, s, x, node))
    r = it.rec(st, v)
    if r is not None and r.kind == "lazy":
        return it.alloc(st, RLazy(r.src, r.lo, r.hi))
    if r is not None and r.kind == "arr":
        t = it.arrval(st, v.args[0])
        n = it.known_len(t)
        if n is not None and ndim(t) == 1 and n > 8:
            return it.alloc(st, RLazy(("vec", t, n), 0, n))
        if n is None and ndim(t) == 1:
            if t.op == "rand":
                s = tm._kw(t.args[2], "size")
                if s is not None and s.op == "sym":
                    return it.alloc(st, RArr(T("call", "builtins.list", (t,), ())))
            return it.alloc(st, RArr(T("call", "builtins.list", (t,), ())))
    if v.op in ("extval", "unknown"):
        return T("extval", ext("builtins.list"), v)
    l = it.iterate(st, v)
    if l is None:
        if v.op in ("const", "class", "closure") or (r is not None and r.kind == "obj"):
            it.raise_ext(st, "TypeError", "not iterable")
            return BOT
        return it.unsupported(st, "list() of unknown collection", node)
    return it.alloc(st, RList(list(l)))


KINDT = {"num": "float", "pos": "float", "unit": "float", "int": "int", "posint": "int", "bool": "bool"}


def type_of(it, st, v):
    r = it.rec(st, v)
    if r is not None:
        if r.kind == "obj":
            return r.cls.term
        if r.kind == "arr":
            return ext("pandas.DataFrame" if r.frame else "numpy.ndarray")
        if r.kind == "list":
            return ext("numpy.ndarray" if r.arr else "builtins.list")
        if r.kind == "lazy":
            return ext("builtins.list")
        if r.kind in ("dict", "set"):
            return ext("builtins." + r.kind)
        if r.kind == "ext":
            return ext(r.path)
    if v.op == "const":
        return ext("builtins." + type(cval(v)).__name__)
    if v.op == "sym" and v.args[1] in KINDT:
        return ext("builtins." + KINDT[v.args[1]])
    if v.op == "tuple":
        return ext("builtins.tuple")
    if v.op in ("bin", "rand", "index", "neg", "call", "method", "obs"):
        return ext("numpy.float64")
    if v.op in ("cmp", "and", "or", "not", "truth"):
        return ext("builtins.bool")
    if v.op in ("closure", "bound", "lru"):
        return ext("builtins.function")
    if v.op == "ext":
        return ext("builtins.type" if isclass(v.args[0]) else "builtins.builtin_function_or_method")
    if v.op == "class":
        return ext("builtins.type")
    if v.op in ("fstr",):
        return ext("builtins.str")
    if v.op == "range":
        return ext("builtins.range")
    if v.op == "gen":
        return ext("types.GeneratorType")
    if v.op == "dictview":
        return ext("builtins.dict_" + v.args[1])
    return unknown("type of " + v.op)


def isinstance_(it, st, v, c):
    if c.op == "tuple":
        return OR(*[isinstance_(it, st, v, x) for x in c.args])
    if c.op == "unknown" or c.op == "sym":
        return T("truth", unknown("isinstance"))
    t = type_of(it, st, v)
    c = canonical(c)
    if t.op == "unknown":
        return T("truth", unknown("isinstance"))
    if t.op == "class":
        ci = it.classes[t.args[0]]
        if c.op == "class":
            return const(it.classes[c.args[0]] in ci.mro())
        if c.op == "ext":
            if c.args[0] == "builtins.object":
                return TRUE
            return const(c.args[0] in ci.ext_bases())
        return FALSE
    if c.op == "class":
        return FALSE
    if c.op != "ext":
        return T("truth", unknown("isinstance"))
    a, b = t.args[0], c.args[0]
    if a == b or b == "builtins.object":
        return TRUE
    sa, sb = a.split(".")[-1], b.split(".")[-1]
    if b in ("collections.abc.Sequence", "typing.Sequence", "collections.abc.Iterable", "typing.Iterable", "collections.Iterable"):
        return const(sa in ("list", "tuple", "range", "str") or (sb == "Iterable" and sa in ("ndarray", "dict", "set", "DataFrame")))
    if b in ("collections.abc.Mapping", "typing.Mapping"):
        return const(sa == "dict")
    if b.startswith("numbers."):
        return const(sa in ("float", "int", "bool", "float64") and (sb in ("Number", "Real", "Complex") or sa in ("int", "bool")))
    if sa == "float64":
        # a numeric value whose concrete type is not tracked
        if b in ("builtins.float", "numpy.floating", "numpy.number", "numpy.generic"):
            return TRUE
        if b in ("builtins.int", "numpy.integer"):
            return T("truth", unknown("isinstance int"))
        if b == "builtins.bool" or b == "numpy.bool_":
            return T("truth", unknown("isinstance bool"))
        return FALSE
    if sa == "bool" and b == "builtins.int":
        return TRUE
    if b == "typing.Callable" or b == "collections.abc.Callable":
        return const(sa in ("function", "type"))
    r = it.rec(st, v)
    if r is not None and r.kind == "ext":
        if a.startswith("builtins."):
            import builtins
            x, y = getattr(builtins, sa, None), getattr(builtins, sb, None)
            return const(isinstance(x, type) and isinstance(y, type) and issubclass(x, y))
        if b.startswith("sklearn.base.") and a.startswith("sklearn."):
            return TRUE
    return FALSE


def builtin(it, st, name, args, kwargs, node):
    if name == "len":
        v = args[0]
        if v.op == "ite":
            return it.fork_cases(st, v, lambda s, x: builtin(it, s, name, [x], kwargs, node))
        if v.op == "tuple":
            return const(len(v.args))
        if v.op == "const":
            if isinstance(cval(v), str):
                return const(len(cval(v)))
            it.raise_ext(st, "TypeError", "len() of scalar")
            return BOT
        if v.op in ("extval", "unknown"):
            return unknown("len of external value")
        if v.op in ("dictview", "iterobj"):
            return length(it.iterate(st, v))
        if v.op == "range":
            if all(is_const(x) for x in v.args):
                return const(len(range(*[cval(x) for x in v.args])))
            return T("call", "builtins.len", (it.pure(st, v),), ())
        if v.op == "gen":
            it.raise_ext(st, "TypeError", "generator has no len")
            return BOT
        r = it.rec(st, v)
        if r is not None:
            if r.kind in ("list", "set"):
                return length(r.items)
            if r.kind == "dict":
                return length([(g, k) for k, _, g in r.entries])
            if r.kind == "lazy":
                return const(r.hi - r.lo) if r.src[0] != "ite" else unknown("len of joined draws")
            if r.kind == "arr":
                t = it.arrval(st, v.args[0])
                s = it.shape(t)
                return s[0] if s else T("call", "builtins.len", (t,), ())
            if r.kind == "obj":
                f, c = r.cls.lookup("__len__")
                if f is None:
                    it.emit(st, "attr-miss", (r.cls.qual, "__len__"), it.site(node))
                    it.raise_ext(st, "TypeError", "no len()")
                    return BOT
                return it.call(st, T("bound", f, v), [], {}, node)
            if r.kind == "ext":
                rows = frame_rows(it, st, r) if r.path == "pandas.DataFrame" else None
                return const(len(rows)) if rows is not None else unknown("len of external object")
        if ndim(v) > 0 or v.op in ("call", "method", "index", "npattr"):
            return T("call", "builtins.len", (v,), ())
        it.raise_ext(st, "TypeError", "len() of unsized object")
        return BOT
    if name == "range":
        a = [it.pure(st, x) for x in args]
        a = [x.args[0] if x.op == "glen" else x for x in a]
        if any(is_const(x) and isinstance(cval(x), float) for x in a):
            it.raise_ext(st, "TypeError", "float range")
            return BOT
        return T("range", *a)
    if name == "enumerate":
        start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
        if args[0].op == "gen":
            if is_const(start):
                return T("genwrap", "enumerate", args[0], start)
        l = it.iterate(st, args[0])
        if l is None:
            return it.unsupported(st, "enumerate of unknown collection", node)
        if all(g is TRUE for g, _ in l):
            return it.newlist(st, [T("tuple", binop("+", start, const(i)), x) for i, (_, x) in enumerate(l)])
        out, cnt = [], start
        for g, x in l:
            out.append((g, T("tuple", cnt, x)))
            cnt = binop("+", cnt, ITE(g, const(1), const(0)))
        return it.alloc(st, RList(out))
    if name == "zip":
        if not args:
            return it.newlist(st, [])
        cf = [i for i, a in enumerate(args) if a.op == "countfrom"]
        ls = [it.iterate(st, a) if a.op != "countfrom" else None for a in args]
        m = min((len(l) for i, l in enumerate(ls) if i not in cf and l is not None), default=0)
        for i in cf:
            ls[i] = [(TRUE, binop("+", args[i].args[0], const(j))) for j in range(m)]
        if any(l is None for l in ls):
            return it.unsupported(st, "zip of unknown collection", node)
        n = min(len(l) for l in ls)
        if all(all(ls[0][j][0] is l[j][0] for l in ls) for j in range(n)) and len(set(len(l) for l in ls)) == 1:
            return it.alloc(st, RList([(ls[0][j][0], T("tuple", *[l[j][1] for l in ls])) for j in range(n)]))
        ls = [compress(l) for l in ls]
        n = min(len(l) for l in ls)
        return it.alloc(st, RList([(AND(*[l[j][0] for l in ls]), T("tuple", *[l[j][1] for l in ls])) for j in range(n)]))
    if name == "list":
        return to_list(it, st, args[0], node) if args else it.newlist(st, [])
    if name == "tuple":
        if not args:
            return T("tuple")
        l = it.iterate(st, args[0])
        if l is not None and all(g is TRUE for g, _ in l):
            return T("tuple", *[x for _, x in l])
        return to_list(it, st, args[0], node)
    if name == "dict":
        d = it.alloc(st, RDict([]))
        dict_method(it, st, d, it.rec(st, d), "update", args, kwargs, node)
        return d
    if name in ("set", "frozenset"):
        d = it.alloc(st, RSet([]))
        if args:
            l = it.iterate(st, args[0])
            if l is None:
                return it.unsupported(st, "set of unknown collection", node)
            for g, x in l:
                out = g
                for h, y in it.rec(st, d).items:
                    out = AND(out, NOT(AND(h, key_eq(it, st, x, y, node))))
                if out is not FALSE:
                    st.heap[d.args[0]] = RSet(it.rec(st, d).items + [(out, x)])
        return d
    if name in ("sorted", "reversed"):
        l = it.iterate(st, args[0])
        if l is None:
            return it.unsupported(st, name + " of unknown collection", node)
        if name == "reversed":
            return it.alloc(st, RList(list(reversed(l))))
        key = kwargs.get("key", NONE)
        rev = kwargs.get("reverse", FALSE)
        keys = []
        for g, x in l:
            k = it.call(st, key, [x], {}, node) if key is not NONE else x
            if st.dead:
                return BOT
            k = it.pure(st, k)
            keys.append(k)
        ok = all(is_const(k) or (k.op == "tuple" and all(is_const(z) for z in k.args)) for k in keys) and is_const(rev)
        if ok:
            kk = [cval(k) if is_const(k) else tuple(cval(z) for z in k.args) for k in keys]
            try:
                order = sorted(range(len(l)), key=lambda i: kk[i], reverse=bool(cval(rev)))
            except TypeError:
                it.raise_ext(st, "TypeError", "unorderable")
                return BOT
            return it.alloc(st, RList([l[i] for i in order]))
        if key is NONE and rev is FALSE:
            rr = it.rec(st, args[0])
            p = it.pure(st, args[0]) if rr is None or rr.kind != "dict" else T("list", *[x if g is TRUE else T("gi", g, x) for g, x in l])
            if p.op == "unknown":
                p = T("list", *[it.pure(st, x) if g is TRUE else T("gi", g, it.pure(st, x)) for g, x in l])
            return it.alloc(st, RArr(T("call", "builtins.sorted", (p,), ())))
        if len(l) <= 1:
            return it.alloc(st, RList(list(l)))
        return it.unsupported(st, "sorted by symbolic keys", node)
    if name == "sum":
        l = it.iterate(st, args[0])
        start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
        rr = it.rec(st, args[0])
        if rr is not None and rr.kind == "arr" and it.known_len(it.arrval(st, args[0].args[0])) is None:
            return it.mkval(st, T("call", "builtins.sum", (it.pure(st, args[0]), it.pure(st, start)), ()))
        if l is None:
            return it.unsupported(st, "sum of unknown collection", node)
        acc = start
        for g, x in l:
            if g is TRUE:
                acc = it.binary(st, "+", acc, x, node)
            else:
                s = it.binary(st, "+", acc, x, node)
                acc = it.mkval(st, ITE(g, it.pure(st, s), it.pure(st, acc))) if ndim(it.pure(st, s)) else ITE(g, s, acc)
            if st.dead:
                return BOT
        return acc
    if name in ("min", "max"):
        key = kwargs.get("key", NONE)
        if len(args) == 1:
            rr = it.rec(st, args[0])
            if rr is not None and rr.kind == "arr" and key is NONE:
                return T("call", "builtins." + name, (it.pure(st, args[0]),), ())
            l = it.iterate(st, args[0])
        else:
            l = [(TRUE, a) for a in args]
        if l is None:
            if args[0].op in ("extval", "unknown"):
                return unknown("min/max of external value")
            return it.unsupported(st, name + " of unknown collection", node)
        l = [(g, x) for g, x in l if g is not FALSE]
        if not l:
            if "default" in kwargs:
                return kwargs["default"]
            it.raise_ext(st, "ValueError", name + " of empty sequence")
            return BOT
        ks = []
        for g, x in l:
            k = it.call(st, key, [x], {}, node) if key is not NONE else x
            if st.dead:
                return BOT
            ks.append(it.pure(st, k))
        if all(g is TRUE for g, _ in l):
            if all(is_const(k) for k in ks):
                vals = [cval(k) for k in ks]
                return l[vals.index((min if name == "min" else max)(vals))][1]
            if key is NONE and all(x.op != "ref" for _, x in l):
                return T("call", "builtins." + name, (T("list", *ks),), ())
            v, k = l[0][1], ks[0]
            for (g, x), kk in list(zip(l, ks))[1:]:
                c = it.lit(compare("<", kk, k)) if name == "min" else it.lit(compare("<", k, kk))
                v, k = ITE(c, x, v), ITE(c, kk, k)
            return v
        if key is NONE and "default" not in kwargs:
            return T("call", "builtins." + name, (T("list", *[k if g is TRUE else T("gi", g, k) for (g, _), k in zip(l, ks)]),), ())
        if key is NONE:
            anyg = OR(*[g for g, _ in l])
            return ITE(anyg, T("call", "builtins." + name, (T("list", *[k if g is TRUE else T("gi", g, k) for (g, _), k in zip(l, ks)]),), ()), it.pure(st, kwargs["default"]))
        return it.unsupported(st, name + " with key over guarded list", node)
    if name in ("any", "all"):
        rr = it.rec(st, args[0])
        if rr is not None and rr.kind == "arr" and it.known_len(it.arrval(st, args[0].args[0])) is None:
            return T("call", "builtins." + name, (it.pure(st, args[0]),), ())
        l = it.iterate(st, args[0])
        if l is None:
            return it.unsupported(st, name + " of unknown collection", node)
        ts = [AND(g, it.truth(st, x)) if name == "any" else OR(NOT(g), it.truth(st, x)) for g, x in l]
        return (OR(*ts) if ts else FALSE) if name == "any" else (AND(*ts) if ts else TRUE)
    if name == "isinstance":
        return isinstance_(it, st, args[0], args[1])
    if name == "issubclass":
        a, b = args
        for x in (b.args if b.op == "tuple" else (b,)):
            if a.op == "class":
                ci = it.classes[a.args[0]]
                if x.op == "class" and it.classes[x.args[0]] in ci.mro() or x.op == "ext" and x.args[0] in ci.ext_bases():
                    return TRUE
            elif a is x:
                return TRUE
        return FALSE
    if name == "type":
        if len(args) == 1:
            return type_of(it, st, args[0])
        return it.unsupported(st, "type()", node)
    if name == "print":
        return NONE
    if name in ("hasattr", "getattr"):
        nm = args[1]
        if not is_const(nm):
            return it.unsupported(st, name + " with unknown name", node)
        nm = cval(nm)
        o = args[0]
        if name == "getattr":
            return it.getattr(st, o, nm, node, default=args[2] if len(args) > 2 else None) if (len(args) < 3 or has(it, st, o, nm) is not FALSE) else args[2]
        h = has(it, st, o, nm)
        return h
    if name == "setattr":
        if not is_const(args[1]):
            it.havoc(st, "setattr with unknown name", node)
            return NONE
        it.setattr(st, args[0], cval(args[1]), args[2], node)
        return NONE
    if name == "delattr":
        r = it.rec(st, args[0])
        if r is not None and r.kind == "obj" and is_const(args[1]):
            f = dict(r.fields)
            f.pop(cval(args[1]), None)
            st.heap[args[0].args[0]] = RObj(r.cls, f, r.tag)
        return NONE
    if name == "super":
        if len(args) == 2:
            return T("super", args[0].args[0], args[1])
        return it.unsupported(st, "super", node)
    if name in ("float", "int", "bool", "str", "abs", "round", "complex", "repr", "hash", "ord", "chr", "format"):
        if not args:
            return const({"float": 0.0, "int": 0, "bool": False, "str": ""}.get(name, ""))
        p = it.pure(st, args[0])
        if p.op == "glen":
            p = p.args[0]
        if name == "bool":
            return it.truth(st, args[0])
        if is_const(p) and all(is_const(x) for x in args[1:]):
            try:
                import builtins
                return const(getattr(builtins, name)(cval(p), *[cval(x) for x in args[1:]]))
            except Exception as e:
                it.raise_ext(st, type(e).__name__, str(e))
                return BOT
        if name in ("str", "repr", "format"):
            r = it.rec(st, args[0])
            if r is not None and r.kind == "obj":
                f, c = r.cls.lookup("__str__" if name == "str" else "__repr__")
                if f is not None:
                    return it.call(st, T("bound", f, args[0]), [], {}, node)
            return T("fstr", p)
        if name == "float":
            if p.op == "sym" and p.args[1] in ("num", "pos", "unit"):
                return p
            if p.op in ("bin", "rand", "neg", "index", "obs") and ndim(p) == 0:
                return p
            r = it.rec(st, args[0])
            if r is not None and r.kind in ("obj",):
                it.raise_ext(st, "TypeError", "float() argument")
                return BOT
            if p.op == "call" and ndim(p) == 0 and p.args[0].startswith("numpy."):
                return p
        if name == "int" and p.op == "sym" and p.args[1] in ("int", "posint"):
            return p
        if name == "hash":
            return T("call", "builtins.id", (args[0],), ())
        return it.mkval(st, T("call", "builtins." + name, (p,) + tuple(it.pure(st, x) for x in args[1:]), ()))
    if name == "id" and len(args) == 1:
        if args[0].op == "ref" and isinstance(args[0].args[0], int):
            return const(10 ** 9 + 16 * args[0].args[0])
        return T("call", "builtins.id", (args[0],), ())
    if name in ("map", "filter"):
        f = args[0]
        ls = [it.iterate(st, a) for a in args[1:]]
        if any(l is None for l in ls):
            return it.unsupported(st, name + " over unknown collection", node)
        out = it.alloc(st, RList([]))
        n = min(len(l) for l in ls)
        for j in range(n):
            if st.dead:
                return BOT
            g = AND(*[l[j][0] for l in ls])

            def one(s, j=j):
                if name == "map":
                    v = it.call(s, f, [l[j][1] for l in ls], {}, node)
                    if not s.dead:
                        s.heap[out.args[0]] = RList(s.heap[out.args[0]].items + [(TRUE, v)])
                else:
                    x = ls[0][j][1]
                    t = it.call(s, f, [x], {}, node) if f is not NONE else x
                    if not s.dead:
                        it.branch(s, it.truth(s, t), lambda z: z.heap.__setitem__(out.args[0], RList(z.heap[out.args[0]].items + [(TRUE, x)])), lambda z: None)
            it.branch(st, it.simp(st, g), one, lambda s: None)
        return BOT if st.dead else out
    if name == "iter":
        v = args[0]
        if v.op == "gen":
            return v
        return to_list(it, st, v, node)
    if name == "next":
        r = it.rec(st, args[0])
        if r is not None and r.kind == "list":
            if not r.items:
                if len(args) > 1:
                    return args[1]
                it.raise_ext(st, "StopIteration", "")
                return BOT
            if len(args) > 1:
                anyg = OR(*[g for g, _ in r.items])
                anyg = it.simp(st, anyg)
                if anyg is not TRUE:
                    box = {}

                    def f1(s):
                        box[1] = list_method(it, s, args[0], it.rec(s, args[0]), "pop", [const(0)], {}, node)
                    it.branch(st, anyg, f1, lambda s: None)
                    return ITE(anyg, box.get(1, BOT), args[1])
            return list_method(it, st, args[0], r, "pop", [const(0)], {}, node)
        if args[0].op == "gen":
            return next_gen(it, st, args[0], args[1:], node)
        return it.unsupported(st, "next()", node)
    if name == "id":
        return T("call", "builtins.id", (args[0],), ())
    if name == "callable":
        v = args[0]
        r = it.rec(st, v)
        if r is not None and r.kind == "obj":
            return const(r.cls.lookup("__call__")[0] is not None)
        return const(v.op in ("closure", "bound", "class", "ext", "partial", "stub", "lru", "meth"))
    if name == "vars":
        return T("objdict", args[0])
    if name in ("slice",):
        p = [it.pure(st, a) for a in args]
        return T("slice", *((NONE, p[0], NONE) if len(p) == 1 else (p + [NONE])[:3]))
    if name in ("pow", "divmod"):
        if name == "pow":
            return it.binary(st, "**", args[0], args[1], node)
    if name == "object":
        return it.alloc(st, RExt("builtins.object"))
    if name == "object.__new__":
        return it.alloc(st, RObj(it.classes[args[0].args[0]], {})) if args[0].op == "class" else unknown("object.__new__")
    if name.startswith("object."):
        return call_extsuper(it, st, args[0], name[7:], args[1:], kwargs, node)
    if name in ("property",):
        return it.unsupported(st, "property()", node)
    if name in ("staticmethod", "classmethod"):
        return args[0]
    if name.split(".")[0] in ("str", "dict", "list", "set", "float") and "." in name and args:
        if name == "dict.fromkeys":
            l = it.iterate(st, args[0])
            d = it.alloc(st, RDict([]))
            for g, x in l or []:
                setitem(it, st, d, x, args[1] if len(args) > 1 else NONE, node)
            return d
        return call_method(it, st, args[0], name.split(".")[1], args[1:], kwargs, node)
    import builtins
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return it.alloc(st, RExt("builtins." + name, tuple(args)))
    if c is None:
        it.emit(st, "attr-miss", ("builtins", name), it.site(node))
    return it.unsupported(st, "builtin " + name, node)


def next_gen(it, st, gen, rest, node):
    """first value of a fresh generator (only its prefix is analysed)"""
    box = []

    class _Stop(Exception):
        pass
    return it.havoc(st, "next() of a generator", node)


def has(it, st, o, nm):
    if o.op == "ite":
        return ITE(o.args[0], has(it, st, o.args[1], nm), has(it, st, o.args[2], nm))
    r = it.rec(st, o)
    if r is not None and r.kind == "obj":
        f, c = r.cls.lookup(nm)
        if f is not None:
            return TRUE
        x = r.fields.get(nm)
        if x is None or x is UNBOUND:
            return const(ext_base_attr(it, st, o, r, nm) is not None)
        return TRUE
    if r is not None and r.kind == "arr":
        if r.frame:
            return const(nm in ("values", "columns", "index", "iloc", "loc", "shape", "to_numpy", "copy", "astype"))
        import numpy
        return const(hasattr(numpy.ndarray, nm))
    if r is not None and r.kind in ("list", "lazy"):
        import numpy
        return const(hasattr(list, nm) if not getattr(r, "arr", False) else hasattr(numpy.ndarray, nm))
    if r is not None and r.kind in ("dict", "set"):
        return const(hasattr({"dict": dict, "set": set}[r.kind], nm))
    if o.op == "const":
        return const(hasattr(cval(o), nm))
    if o.op == "class":
        return const(it.classes[o.args[0]].lookup(nm)[0] is not None)
    if o.op in ("closure", "bound"):
        return const(nm in ("__name__", "__call__", "__doc__", "__qualname__", "__module__"))
    if o.op == "tuple":
        return const(hasattr((), nm))
    if r is not None and r.kind == "ext" and nm.endswith("_") and not nm.startswith("_"):
        return sym("has %s %s" % (nm, o.id), "bool")       # results of a fit that may or may not have taken place
    return T("truth", unknown("hasattr"))


NP_INPLACE = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis"}
RAND_OK = {"choice", "normal", "uniform", "gamma", "beta", "permutation", "shuffle", "randint", "rand", "randn", "random", "random_sample",
           "standard_normal", "standard_gamma", "exponential", "multinomial", "binomial", "poisson", "chisquare", "dirichlet", "standard_exponential",
           "laplace", "lognormal", "multivariate_normal", "ranf", "sample", "standard_t", "triangular", "geometric", "wald"}


def numpy_call(it, st, path, short, args, kwargs, node):
    if path.startswith("numpy.random."):
        return random_call(it, st, path, short, args, kwargs, node)
    if short in ("array", "asarray", "copy", "ascontiguousarray", "asanyarray", "asfortranarray", "require", "array_copy"):
        return np_array(it, st, path, short, args, kwargs, node)
    if short == "concatenate" or short in ("hstack",):
        x = concat(it, st, args, kwargs, node)
        if x is not None:
            return x
    if short == "append" and len(args) >= 2:
        x = concat(it, st, [it.newlist(st, [args[0], args[1]])], {}, node)
        if x is not None:
            return x
    if short in NP_INPLACE:
        tgt = args[0]
        r = it.rec(st, tgt)
        if r is not None and r.kind == "arr":
            new = T("setitem", it.pure(st, tgt), T("slice", NONE, NONE, NONE), it.pure(st, args[1])) if short == "copyto" and "where" not in kwargs else unknown("numpy." + short)
            it.write_arr(st, tgt, new, node)
            return NONE
        if r is not None and r.kind == "list":
            it.emit(st, "inplace", (tgt,), it.site(node))
            st.heap[tgt.args[0]] = RList([(g, unknown(short)) for g, _ in r.items], True)
        return NONE
    if short in ("errstate", "seterr", "set_printoptions", "printoptions"):
        return NONE
    if short in ("vectorize", "frompyfunc", "apply_along_axis"):
        return it.unsupported(st, "numpy." + short, node)
    out = kwargs.pop("out", None)
    a, k = pargs(it, st, args, kwargs)
    for x in a:
        if is_const(x) and cval(x) is None and short in ("log", "exp", "sqrt", "power", "square", "sum", "mean"):
            it.emit(st, "none-arith", (path,), it.site(node))
    # order comparisons/elementwise functions over lists of known scalars stay lists
    t = T("call", path, a, k)
    if out is not None and out is not NONE:
        r = it.rec(st, out)
        if r is not None and r.kind == "arr":
            it.write_arr(st, out, t, node)
            return out
    if isclass(path) and short not in ("True_", "False_"):
        return it.alloc(st, RExt(path, tuple(args), tuple(sorted(kwargs.items()))))
    if short in ("float64", "float_"):
        return a[0] if a and ndim(a[0]) == 0 else it.mkval(st, t)
    if short in ("all", "any") and len(args) == 1 and not k:
        r = it.rec(st, args[0])
        if r is not None and r.kind == "list":
            return builtin(it, st, short, args, {}, node)
    if short in ("logical_not",) and args and it.boolish(args[0]):
        return NOT(args[0])
    if short in ("where",) and len(args) == 3 and ndim(a[0]) == 0 and ndim(a[1]) == 0 and ndim(a[2]) == 0:
        return ITE(it.truth(st, args[0]), args[1], args[2])
    return it.mkval(st, t)


def np_array(it, st, path, short, args, kwargs, node):
    v = args[0] if args else kwargs.get("object", kwargs.get("a", NONE))
    if v.op == "ite":
        return it.fork_cases(st, v, lambda s, x: np_array(it, s, path, short, [x] + list(args[1:]), kwargs, node))
    cp = short in ("array", "copy") and kwargs.get("copy", TRUE) is not FALSE
    r = it.rec(st, v)
    dt = kwargs.get("dtype", args[1] if len(args) > 1 else NONE)
    if r is not None and r.kind == "arr":
        if cp or (dt is not NONE):
            t = it.arrval(st, v.args[0])
            if dt is not NONE and dt.op == "ext":
                t = T("method", "astype", t, (dt,), ())
                if not cp:
                    # no copy is made when the type already matches: may alias
                    return it.alloc(st, RArr(None, view=(v.args[0], T("npattr", "values", NONE))))
            return it.alloc(st, RArr(t))
        if r.frame:
            return it.alloc(st, RArr(None, view=(v.args[0], T("npattr", "values", NONE))))
        return v
    if r is not None and r.kind == "lazy":
        return it.alloc(st, RArr(it.pure(st, v)))
    if r is not None and r.kind == "list":
        if r.arr and not cp:
            return v
        kinds = [it.rec(st, x) for _, x in r.items]
        if any(k is not None and k.kind in ("list", "arr", "lazy") for k in kinds) or any(x.op == "tuple" for _, x in r.items):
            its = []
            for g, x in r.items:
                its.append((g, deepcopy(it, st, x, {}, node)))
            return it.alloc(st, RList(its, True))
        its = list(r.items)
        if dt.op == "ext" and dt.args[0].split(".")[-1].startswith("float") and all(x.op != "ref" for _, x in its):
            its = [(g, builtin(it, st, "float", [x], {}, node)) for g, x in its]
        if dt.op == "ext" and dt.args[0].split(".")[-1].startswith("bool"):
            its = [(g, it.truth(st, x)) for g, x in its]
        return it.alloc(st, RList(its, True))
    if v.op in ("tuple", "range", "dictview"):
        if v.op == "dictview":
            return it.alloc(st, RExt("numpy.ndarray0", (v,)))
        l = it.iterate(st, v)
        if l is not None:
            return it.alloc(st, RList(list(l), True))
    if v.op == "gen" or r is not None and r.kind in ("dict", "set"):
        return it.alloc(st, RExt("numpy.ndarray0", (v,)))
    a, k = pargs(it, st, [v] + list(args[1:]), kwargs)
    return it.mkval(st, T("call", "numpy." + short, a, k))


def concat(it, st, args, kwargs, node):
    l = it.iterate(st, args[0]) if args else None
    if l is None or any(g is not TRUE for g, _ in l):
        return None
    parts = []
    for _, x in l:
        r = it.rec(st, x)
        if x.op == "ite":
            return None
        if r is not None and r.kind == "list":
            parts.append([(g, shallow_row(it, st, y)) for g, y in r.items])
        elif x.op == "tuple":
            parts.append([(TRUE, y) for y in x.args])
        else:
            return None
    ax = kwargs.get("axis", args[1] if len(args) > 1 else const(0))
    if not (is_const(ax) and cval(ax) == 0):
        return None
    if not parts:
        it.raise_ext(st, "ValueError", "need at least one array to concatenate")
        return BOT
    return it.alloc(st, RList([y for p in parts for y in p], True))


def shallow_row(it, st, x):
    r = it.rec(st, x)
    if r is not None and r.kind == "arr":
        return it.alloc(st, RArr(it.arrval(st, x.args[0])))
    return x


def random_call(it, st, path, short, args, kwargs, node):
    if short in ("seed", "set_state", "get_state"):
        it.emit(st, "seed", (path, tuple(it.pure(st, a) for a in args)), it.site(node))
        return NONE
    if short not in RAND_OK:
        it.emit(st, "foreign-rng", (path,), it.site(node))
        if isclass(path) or short in ("default_rng",):
            return it.alloc(st, RExt("numpy.random.Generator", tuple(args), tuple(sorted(kwargs.items()))))
    uid = it.new()
    a, k = pargs(it, st, args, kwargs)
    it.emit(st, "rand", (short, a, k, uid), it.site(node))
    if short == "shuffle":
        tgt = args[0]
        r = it.rec(st, tgt)
        if r is not None and r.kind == "arr":
            it.write_arr(st, tgt, T("rand", "numpy.random.shuffled", (it.pure(st, tgt),), (), uid), node)
        elif r is not None and r.kind == "list":
            it.emit(st, "inplace", (tgt,), it.site(node))
            st.heap[tgt.args[0]] = RList([(TRUE, T("index", T("rand", "numpy.random.shuffled", (it.pure(st, tgt),), (), uid), const(i))) for i, _ in enumerate(r.items)], r.arr) if all(x.op != "ref" for _, x in r.items) else RList([(g, unknown("shuffled")) for g, _ in r.items], r.arr)
        return NONE
    if short == "choice":
        x = args[0] if args else kwargs.get("a", NONE)
        size = kwargs.get("size", args[1] if len(args) > 1 else NONE)
        r = it.rec(st, x)
        opts = None
        if r is not None and r.kind == "list":
            opts = r.items
        elif x.op in ("tuple",):
            opts = [(TRUE, y) for y in x.args]
        elif r is not None and r.kind in ("dict", "set", "obj"):
            it.raise_ext(st, "ValueError", "a must be 1-dimensional")
            return BOT
        elif x.op in ("const", "range"):
            n = cval(x) if x.op == "const" and isinstance(cval(x), int) else None
            if n is not None and n <= 8:
                opts = [(TRUE, const(i)) for i in range(n)]
        if opts is not None and not (len(opts) > 12 and size is NONE):
            if not opts:
                it.raise_ext(st, "ValueError", "a cannot be empty")
                return BOT
            g = it.simp(st, OR(*[h for h, _ in opts]))
            it.branch(st, g, lambda s: None, lambda s: it.raise_ext(s, "ValueError", "a cannot be empty"))
            if st.dead:
                return BOT
            pr = it.rec(st, kwargs["p"]) if "p" in kwargs else None
            if pr is not None and pr.kind == "list" and len(pr.items) == len(opts) and all(q is TRUE for q, _ in pr.items):
                sel = [(o, w) for o, (_, w) in zip(opts, pr.items) if not (is_const(w) and cval(w) == 0)]
                if sel:
                    opts = [o for o, _ in sel]
                    it.pick_p[uid] = tuple(it.pure(st, w) for _, w in sel)
            elif "p" in kwargs and kwargs["p"] is not NONE:
                # one weight per option that is there
                it.pick_p[uid] = (T("weights", it.pure(st, kwargs["p"])),)
            it.emit(st, "choice", (uid, tuple(opts), dict(k).get("p", NONE), it.pure(st, size)), it.site(node))
            if size is NONE:
                return it.pick(st, uid, 0, opts)
            size = it.pure(st, size)
            if is_const(size) and isinstance(cval(size), int):
                if cval(size) <= 4:
                    return it.newlist(st, [it.pick(st, uid, j, opts) for j in range(cval(size))], True)
                return it.alloc(st, RLazy(("pick", uid, tuple(opts)), 0, cval(size)))
            if size.op == "tuple" and all(is_const(z) for z in size.args) and len(size.args) == 1:
                return it.alloc(st, RLazy(("pick", uid, tuple(opts)), 0, cval(size.args[0])))
            return it.unsupported(st, "choice of unknown size", node)
    return it.mkval(st, T("rand", path, a, k, uid))
