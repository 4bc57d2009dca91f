"""Abstract interpreter: syntax trees of /repo -> gated value-flow summaries.

One pass over the source per entry point.  Branches on unknown conditions are both analysed and
joined (values by `ite`, effects by guards); functions are inlined context-sensitively; loops over
collections of known shape are unrolled, other loops are cut off after a few iterations (the cut
is recorded as an assumption on the summary).  Nothing of /repo is imported or executed.
"""
import ast
import os
import time

from . import terms as tm
from .terms import children as tm_children
from .terms import (T, Term, const, NONE, TRUE, FALSE, UNBOUND, BOT, is_const, cval, sym, ref, ext, unknown,
                    NOT, AND, OR, ITE, binop, compare, ndim)


class Unsupported(Exception):
    pass


class Budget(Exception):
    """the time allowed for one summary is used up"""


# ---- heap records (treated as immutable, replaced on write) ---------------------------------------
class RObj:
    kind = "obj"
    __slots__ = ("cls", "fields", "tag")

    def __init__(self, cls, fields, tag=None):
        self.cls, self.fields, self.tag = cls, fields, tag


class RList:
    kind = "list"
    __slots__ = ("items", "arr")

    def __init__(self, items, arr=False):
        self.items = items      # list of (guard, value)
        self.arr = arr          # a numpy array of known shape


class RDict:
    kind = "dict"
    __slots__ = ("entries", "default", "counter")

    def __init__(self, entries, default=None, counter=False):
        self.entries = entries  # list of (key, value, guard)
        self.default = default
        self.counter = counter


class RSet:
    kind = "set"
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class RArr:
    kind = "arr"
    __slots__ = ("val", "view", "tag", "frame")

    def __init__(self, val, view=None, tag=None, frame=False):
        self.val, self.view, self.tag, self.frame = val, view, tag, frame


class RLazy:
    """a long list whose elements are only named on demand (prefetched draws)"""
    kind = "lazy"
    __slots__ = ("src", "lo", "hi")

    def __init__(self, src, lo, hi):
        self.src, self.lo, self.hi = src, lo, hi


class RExt:
    """object of an external class; `state` is a term that changes when it is mutated (fit)"""
    kind = "ext"
    __slots__ = ("path", "args", "kwargs", "state", "fields", "tag")

    def __init__(self, path, args=(), kwargs=(), state=None, fields=None, tag=None):
        self.path, self.args, self.kwargs = path, args, kwargs
        self.state = state if state is not None else NONE
        self.fields = fields or {}
        self.tag = tag


class RCache:
    kind = "cache"
    __slots__ = ("entries",)

    def __init__(self, entries):
        self.entries = entries


class ClassInfo:
    def __init__(self, name, qual, bases, node, module):
        self.name, self.qual, self.bases, self.node, self.module = name, qual, bases, node, module
        self.dict = {}
        self.ann = []
        self.term = T("class", qual)
        self.dataclass = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassInfo):
                    out.append(b)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.dict:
                return c.dict[name], c
        return None, None


class Closure:
    __slots__ = ("node", "module", "fid", "defaults", "kwdefaults", "qual", "cls", "is_gen", "cache", "locals", "name")

    def __init__(self, node, module, fid, defaults, kwdefaults, qual, cls, is_gen):
        self.node, self.module, self.fid = node, module, fid
        self.defaults, self.kwdefaults, self.qual, self.cls, self.is_gen = defaults, kwdefaults, qual, cls, is_gen
        self.cache = None
        self.name = qual.split(".")[-1]


class Event:
    __slots__ = ("kind", "data", "pc", "site", "st")

    def __init__(self, kind, data, pc, site):
        self.kind, self.data, self.pc, self.site = kind, data, pc, site

    def __repr__(self):
        return "%s%r @%s" % (self.kind, self.data, self.site)


class Raise:
    __slots__ = ("exc", "st", "site", "loss")

    def __init__(self, exc, st, site):
        self.exc, self.st, self.site = exc, st, site
        self.loss = None


class St:
    """abstract state"""
    __slots__ = ("heap", "frames", "ev", "pc", "dead")

    def __init__(self):
        self.heap, self.frames, self.ev, self.pc, self.dead = {}, {}, None, (), False

    def fork(self):
        s = St()
        s.heap, s.frames, s.ev, s.pc, s.dead = dict(self.heap), dict(self.frames), self.ev, self.pc, self.dead
        return s

    def become(self, o):
        self.heap, self.frames, self.ev, self.pc, self.dead = o.heap, o.frames, o.ev, o.pc, o.dead

    def assume(self, c):
        if c is TRUE:
            return
        for x in (c.args if c.op == "and" else (c,)):
            if x is FALSE or NOT(x) in self.pc:
                self.dead = True
            if x not in self.pc:
                self.pc = self.pc + (x,)

    def events(self):
        out, e = [], self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


class Ctx:
    __slots__ = ("fid", "closure", "returns", "handler", "loops", "module", "globals", "nonlocals", "cls", "selfv", "pc")

    def __init__(self, fid, closure, module):
        self.pc = ()
        self.fid, self.closure, self.module = fid, closure, module
        self.returns, self.handler, self.loops = [], None, []
        self.globals, self.nonlocals = set(), set()
        self.cls, self.selfv = None, None


BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # make sure it belongs to this function
            return _owns_yield(node)
    return False


def _owns_yield(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Interp:
    MAXDEPTH = 70
    RECLIMIT = 3
    UNROLL = 5          # loops of unknown length
    def __init__(self, program):
        self.prog = program
        self.uid = 0
        self._pcs = {}
        self.losses = []
        self.aliases, self.joined, self.born = {}, {}, {}
        self._leaves, self.none_of = {}, {}
        self.escapes = 0
        self.deadline = None
        self.closures = {}
        self.classes = {}
        self.ctxs = []
        self.collectors = [[]]
        self.stubs = {}
        self.stubvals = {}
        self.origin = {}
        self.file_of = {}
        self.called = set()
        self.analysed = set()       # (qual) functions whose body was analysed
        self.sites = 0
        self.cur = None
        self.notes = []
        self.cut_quals = set()
        self.pick_p = {}
        self.copy_on_parallel = False
        self.parent = {}
        self.ext_models = {}
        self.ext_funcs = {}
        self.ext_subst = {}         # (library, name) -> client class standing for it
        from . import lib
        self.lib = lib
        self.limits_hit = []

    # ---------------------------------------------------------------- small helpers
    def new(self):
        self.uid += 1
        return self.uid

    def site(self, node=None):
        m = self.ctxs[-1].module if self.ctxs else "?"
        q = self.ctxs[-1].closure.qual if self.ctxs and self.ctxs[-1].closure else m
        line = getattr(node, "lineno", None) if node is not None else self.cur
        return (self.file_of.get(m, m), line or self.cur or 0, q)

    def emit(self, st, kind, data, site=None):
        e = Event(kind, data, st.pc, site or self.site())
        st.ev = (st.ev, e)
        return e

    def alloc(self, st, rec):
        oid = self.new()
        st.heap[oid] = rec
        return ref(oid)

    def rec(self, st, v):
        if v.op == "ref":
            return st.heap.get(v.args[0])
        return None

    def mkval(self, st, t, tag=None):
        if t.op not in ("bot", "unknown") and ndim(t) > 0:
            return self.alloc(st, RArr(t, tag=tag))
        return t

    def newlist(self, st, items, arr=False):
        return self.alloc(st, RList([(TRUE, x) for x in items], arr))

    # ---------------------------------------------------------------- values
    def arrval(self, st, oid):
        r = st.heap[oid]
        if r.view is not None:
            b = self.arrval(st, r.view[0])
            how = r.view[1]
            if how.op == "npattr":
                return T("npattr", how.args[0], b)
            return T("index", b, how)
        return r.val

    def pure(self, st, v, depth=0):
        if depth > 60:
            return unknown("deep value")
        op = v.op
        if op == "ref":
            r = st.heap.get(v.args[0])
            if r is None:
                return v
            if r.kind == "arr":
                return self.arrval(st, v.args[0])
            if r.kind == "list":
                out = []
                for g, x in r.items:
                    p = self.pure(st, x, depth + 1)
                    out.append(p if g is TRUE else T("gi", g, p))
                return T("list", *out)
            if r.kind == "set":
                if all(g is TRUE for g, _ in r.items):
                    return T("set", *[self.pure(st, x, depth + 1) for _, x in r.items])
                return unknown("guarded set")
            if r.kind == "dict":
                return T("dict", *[(self.pure(st, k, depth + 1), self.pure(st, x, depth + 1), g) for k, x, g in r.entries])
            if r.kind == "lazy":
                if r.src[0] == "vec":
                    if r.lo == 0 and r.hi == r.src[2]:
                        return r.src[1]
                    return T("index", r.src[1], T("slice", const(r.lo), const(r.hi), NONE))
                return unknown("lazy list as value")
            return v
        if op == "tuple":
            return T("tuple", *[self.pure(st, x, depth + 1) for x in v.args])
        if op == "ite":
            return self.mapped(v, lambda x: self.pure(st, x, depth + 1), {})
        if op == "range":
            return T("call", "builtins.range", v.args, ())
        if op == "dictview":
            l = self.iterate(st, v)
            if l is None:
                return unknown("dict view")
            return T("list", *[self.pure(st, x) if g is TRUE else T("gi", g, self.pure(st, x)) for g, x in l])
        if op in ("gen", "iterobj"):
            return unknown("generator as value")
        if op == "glen":
            return v.args[0]
        if op == "objdict":
            return self.pure(st, self.lib.objdict(self, st, v), depth + 1)
        return v

    # deep structural view of objects, for comparing summaries
    def lit(self, c):
        """canonical literal for scalar comparisons"""
        if c.op == "cmp" and ndim(c) == 0:
            o, a, b = c.args
            if o == ">":
                return T("cmp", "<", b, a)
            if o == ">=":
                return NOT(T("cmp", "<", a, b))
            if o == "<=":
                return NOT(T("cmp", "<", b, a))
            if o == "!=":
                return NOT(self.lit(T("cmp", "==", a, b)))
            if o == "==" and a.id > b.id:
                return T("cmp", "==", b, a)
            if o == "is not":
                return NOT(T("cmp", "is", a, b))
            if o == "not in":
                return NOT(T("cmp", "in", a, b))
        return c

    def pcset(self, st):
        pc = st.pc
        e = self._pcs.get(id(pc))
        if e is None or e[0] is not pc:
            if len(self._pcs) > 400:
                self._pcs.clear()
            e = (pc, frozenset(x.id for x in pc), {})
            self._pcs[id(pc)] = e
        return e

    def simp(self, st, c):
        if is_const(c):
            return c
        e = self.pcset(st)
        memo = e[2]
        r = memo.get(c.id)
        if r is None:
            r = memo[c.id] = self._simp(st, c, e[1])
        return r

    def _simp(self, st, c, ids):
        if c.op == "not":
            return NOT(self.simp(st, c.args[0]))
        if c.op == "and":
            return AND(*[self.simp(st, x) for x in c.args])
        if c.op == "or":
            r = OR(*[self.simp(st, x) for x in c.args])
            return TRUE if r.id in ids else r
        if c.op == "ite":
            k = self.simp(st, c.args[0])
            return ITE(k, self.simp(st, c.args[1]), self.simp(st, c.args[2]))
        if c.id in ids:
            return TRUE
        n = NOT(c)
        if n.id in ids:
            return FALSE
        if c.op == "cmp" and c.args[0] == "<":
            if T("cmp", "<", c.args[2], c.args[1]).id in ids:
                return FALSE
            a, b = c.args[1:]
            if self.lit(T("cmp", "==", a, b)).id in ids:
                return FALSE
        if c.op == "cmp" and c.args[0] == "==":
            a, b = c.args[1:]
            if T("cmp", "<", a, b).id in ids or T("cmp", "<", b, a).id in ids:
                return FALSE
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    for p in st.pc:
                        if p.op == "cmp" and p.args[0] == "==" and x in p.args[1:]:
                            o = p.args[2] if p.args[1] is x else p.args[1]
                            if is_const(o) and o is not y and cval(o) != cval(y):
                                return FALSE
            # all other picks excluded
            for x, y in ((a, b), (b, a)):
                if x.op == "randpick" and is_const(y):
                    n_opt = x.args[2]
                    left = [j for j in range(n_opt) if NOT(self.lit(compare("==", x, const(j)))).id not in ids]
                    if left == [cval(y)]:
                        return TRUE
        return c

    def truth(self, st, v):
        return self.simp(st, self._truth(st, v))

    def _truth(self, st, v):
        op = v.op
        if op == "const":
            return const(bool(cval(v)))
        if op == "ref":
            r = st.heap.get(v.args[0])
            if r is None:
                return TRUE
            if r.kind == "list":
                return OR(*[g for g, _ in r.items]) if r.items else FALSE
            if r.kind == "set":
                return OR(*[g for g, _ in r.items]) if r.items else FALSE
            if r.kind == "dict":
                return OR(*[g for _, _, g in r.entries]) if r.entries else FALSE
            if r.kind == "lazy":
                return const(r.hi > r.lo)
            if r.kind == "arr":
                return T("truth", self.arrval(st, v.args[0]))
            if r.kind == "obj":
                for m in ("__bool__", "__len__"):
                    f, c = r.cls.lookup(m)
                    if f is not None:
                        x = self.call(st, T("bound", f, v), [], {})
                        return self._truth(st, x)
            return TRUE
        if op == "tuple":
            return const(len(v.args) > 0)
        if op == "ite":
            return self.mapped(v, lambda x: self._truth(st, x), {})
        if op in ("and", "or", "not"):
            return v
        if op == "cmp" and ndim(v) == 0:
            return self.lit(v)
        if op == "sym" and v.args[1] == "bool":
            return v
        if op == "truth":
            return v
        if op == "glen":
            return OR(*v.args[1])
        if op in ("closure", "class", "bound", "ext", "module", "meth", "partial", "stub"):
            return TRUE
        if op == "range":
            l = self.iterate(st, v)
            return T("truth", self.pure(st, v)) if l is None else const(bool(l))
        if op == "unknown":
            return T("truth", v)
        if op == "bot":
            return FALSE
        return T("truth", v)

    def fork_cases(self, st, v, fn):
        """apply fn(st, leaf) for every leaf of an ite value, joining the results"""
        if v.op != "ite":
            return fn(st, v)
        ls = self.leaves(v)
        if len(ls) == 1:
            return fn(st, ls[0])
        if len(ls) == 2 and v.args[1].op != "ite" and v.args[2].op != "ite":
            pass
        elif len(ls) <= 8:
            w = ls[-1]
            for x in reversed(ls[:-1]):
                w = ITE(self.mapped(v, lambda y: const(y is x), {}), x, w)
            v = w
            if v.op != "ite":
                return fn(st, v)
        c = self.simp(st, v.args[0])
        if c is TRUE:
            return self.fork_cases(st, v.args[1], fn)
        if c is FALSE:
            return self.fork_cases(st, v.args[2], fn)
        old = st.heap
        s1, s2 = st.fork(), st.fork()
        s1.assume(c)
        s2.assume(NOT(c))
        r1 = BOT if s1.dead else self.fork_cases(s1, v.args[1], fn)
        r2 = BOT if s2.dead else self.fork_cases(s2, v.args[2], fn)
        d1, d2 = s1.dead, s2.dead
        self.merge_into(st, s1, s2)
        if d1 and d2:
            return BOT
        if d1:
            return r2
        if d2:
            return r1
        if r1.op == "ref" and r2.op == "ref" and r1.args[0] not in old and r2.args[0] not in old:
            x, y = st.heap.get(r1.args[0]), st.heap.get(r2.args[0])
            if x is not None and y is not None and x.kind == "arr" and y.kind == "arr" and x.val is y.val and x.view == y.view and x.frame == y.frame:
                return r1
        return self.mergeval(st, c, r1, r2)

    def mergeval(self, st, c, a, b):
        return ITE(c, a, b)

    # ---------------------------------------------------------------- merging
    @staticmethod
    def _split_pc(a, b):
        i = 0
        while i < len(a) and i < len(b) and a[i] is b[i]:
            i += 1
        return a[:i], a[i:], b[i:]

    def merge_into(self, st, s1, s2):
        if s1.dead and s2.dead:
            st.become(s1)
            st.dead = True
            return
        if s1.dead:
            st.become(s2)
            return
        if s2.dead:
            st.become(s1)
            return
        base, r1, r2 = self._split_pc(s1.pc, s2.pc)
        if r1 and r2 and r1[0] is NOT(r2[0]):
            c = r1[0]
        else:
            c = AND(*r1)
            if c is TRUE and r2:
                c = NOT(AND(*r2))
        a1, a2 = AND(*r1), AND(*r2)
        tot = OR(a1, a2)
        extra = ()
        if r1 and r2 and r1[0] is NOT(r2[0]):
            e1, e2 = AND(*r1[1:]), AND(*r2[1:])
            common = tuple(x for x in r1[1:] if x in r2[1:])
            if e1 is TRUE and e2 is TRUE:
                extra = ()
            else:
                q1 = [x for x in r1[1:] if x not in common]
                q2 = [x for x in r2[1:] if x not in common]
                extra = common
                if q1 or q2:
                    t = OR(AND(r1[0], *q1), AND(r2[0], *q2))
                    if not q1:
                        t = OR(r1[0], AND(*q2))
                    elif not q2:
                        t = OR(r2[0], AND(*q1))
                    extra = extra + (t,)
        elif tot is not TRUE:
            extra = (tot,)
        pc = base + tuple(x for x in extra if x is not TRUE)
        h1, h2 = s1.heap, s2.heap
        heap = dict(h2)
        heap.update(h1)
        self.joined = heap
        for oid in [k for k, x in h1.items() if h2.get(k, x) is not x]:
            heap[oid] = self.merge_rec(c, h1[oid], h2[oid])
        f1, f2 = s1.frames, s2.frames
        frames = dict(f2)
        frames.update(f1)
        for fid in [k for k, x in f1.items() if f2.get(k, x) is not x]:
            x, y = f1[fid], f2[fid]
            d = {}
            for k in list(x) + [k for k in y if k not in x]:
                d[k] = self.join(c, x.get(k, UNBOUND), y.get(k, UNBOUND))
            frames[fid] = d
        # events: common prefix, then both suffixes (each event carries its own guard)
        ev = self.merge_events(s1.ev, s2.ev)
        st.heap, st.frames, st.ev, st.pc, st.dead = heap, frames, ev, pc, False

    @staticmethod
    def merge_events(a, b):
        if a is b:
            return a
        ids = set()
        x = a
        while x is not None:
            ids.add(id(x))
            x = x[0]
        suffix = []
        y = b
        while y is not None and id(y) not in ids:
            suffix.append(y[1])
            y = y[0]
        r = a
        for e in reversed(suffix):
            r = (r, e)
        return r

    def join(self, c, a, b):
        """ite; two plain arrays holding the same value are represented by one of them (see aliases)"""
        if b.op == "ite" and b.id in self.none_of.get(c.id, ()):
            b = self.mapped(b, lambda x: BOT if x is NONE else x, {})
        if a.op == "ite" and a.id in self.none_of.get(NOT(c).id, ()):
            a = self.mapped(a, lambda x: BOT if x is NONE else x, {})
        r = ITE(c, a, b)
        if r.op == "ite" and r.args[1].op == "ref" and r.args[2].op == "ref":
            p, q = r.args[1].args[0], r.args[2].args[0]
            x, y = self.joined.get(p), self.joined.get(q)
            if x is not None and y is not None and x.kind == "arr" and y.kind == "arr" and x.val is not None and x.val is y.val \
                    and not x.view and not y.view and not x.tag and not y.tag and x.frame == y.frame \
                    and p in self.born and self.born[p] == self.born.get(q):
                both = self.aliases.get(p, frozenset((p,))) | self.aliases.get(q, frozenset((q,)))
                for o in both:
                    self.aliases[o] = both
                return r.args[1]
        return r

    def smudge(self, st, oid):
        """in-place write to an array that stands for others as well: those are unknown from here on"""
        for o in self.aliases.get(oid, ()):
            if o != oid and o in st.heap:
                st.heap[o] = RArr(unknown("written through a joined array"), None, st.heap[o].tag, st.heap[o].frame)

    def merge_rec(self, c, x, y):
        if x.kind != y.kind:
            raise Unsupported("merge of different records")
        if x.kind == "obj":
            f = {}
            for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
                f[k] = self.join(c, x.fields.get(k, UNBOUND), y.fields.get(k, UNBOUND))
            return RObj(x.cls, f, x.tag)
        if x.kind == "ext":
            f = {}
            for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
                f[k] = self.join(c, x.fields.get(k, UNBOUND), y.fields.get(k, UNBOUND))
            return RExt(x.path, x.args, x.kwargs, ITE(c, x.state, y.state), f, x.tag)
        if x.kind == "arr":
            return RArr(ITE(c, x.val, y.val) if x.val is not None else None, x.view, x.tag, x.frame)
        if x.kind == "list":
            a, b = x.items, y.items
            if len(a) == len(b) and all(g1 is g2 for (g1, _), (g2, _) in zip(a, b)):
                return RList([(g1, self.join(c, v1, v2)) for (g1, v1), (_, v2) in zip(a, b)], x.arr)
            i = 0
            while i < len(a) and i < len(b) and a[i][0] is b[i][0] and a[i][1] is b[i][1]:
                i += 1
            j = 0
            while j < len(a) - i and j < len(b) - i and a[-1 - j][0] is b[-1 - j][0] and a[-1 - j][1] is b[-1 - j][1]:
                j += 1
            mid = [(AND(c, g), v) for g, v in a[i:len(a) - j]] + [(AND(NOT(c), g), v) for g, v in b[i:len(b) - j]]
            return RList(a[:i] + mid + (a[len(a) - j:] if j else []), x.arr)
        if x.kind == "set":
            its = []
            for g, v in x.items:
                g2 = FALSE
                for h, w in y.items:
                    if w is v:
                        g2 = h
                its.append((ITE(c, g, g2), v))
            for h, w in y.items:
                if not any(v is w for _, v in x.items):
                    its.append((AND(NOT(c), h), w))
            return RSet(its)
        if x.kind == "dict":
            out = []
            for k, v, g in x.entries:
                m = [(v2, g2) for k2, v2, g2 in y.entries if k2 is k]
                if m:
                    out.append((k, ITE(c, v, m[0][0]), ITE(c, g, m[0][1])))
                else:
                    out.append((k, v, AND(c, g)))
            for k, v, g in y.entries:
                if not any(k2 is k for k2, _, _ in x.entries):
                    out.append((k, v, AND(NOT(c), g)))
            return RDict(out, x.default, x.counter)
        if x.kind == "lazy":
            if x.src == y.src and x.lo == y.lo and x.hi == y.hi:
                return x
            return RLazy(("ite", c, x, y), 0, 0)
        if x.kind == "cache":
            return RCache([e for e in x.entries if any(e[0] == f[0] and e[1] is f[1] for f in y.entries)])
        raise Unsupported("merge " + x.kind)

    def merge_many(self, st, states):
        """join a list of mutually exclusive states into st"""
        states = [s for s in states if not s.dead]
        if not states:
            st.dead = True
            return
        acc = states[-1]
        for s in reversed(states[:-1]):
            n = St()
            self.merge_into(n, s, acc)
            acc = n
        st.become(acc)

    # ---------------------------------------------------------------- raising
    def restrict(self, st, c):
        """the summary only covers executions with c from here on"""
        self.losses.append((st.pc, c))
        st.assume(c)

    def kill(self, st):
        l = (st.pc, FALSE)
        self.losses.append(l)
        st.dead = True
        return l

    def settle(self, st, pc0, k0):
        """path condition after a region entered with pc0: only what was lost inside matters"""
        if st.dead:
            return
        known = set(x.id for x in pc0)
        out, have = list(pc0), set(known)
        for pc, c in self.losses[k0:]:
            g = AND(*[x for x in pc if x.id not in known])
            x = OR(NOT(g), c)
            for y in (x.args if x.op == "and" else (x,)):
                if y is not TRUE and y.id not in have:
                    have.add(y.id)
                    out.append(y)
        if tuple(out) != st.pc:
            st.pc = tuple(out)

    def raise_(self, st, exc, site=None):
        s = st.fork()
        r = Raise(exc, s, site or self.site())
        self.collectors[-1].append(r)
        r.loss = self.kill(st)

    def raise_ext(self, st, name, why="", site=None):
        e = self.alloc(st, RExt("builtins." + name, (const(why),)))
        self.raise_(st, e, site)

    def exc_classes(self, st, exc):
        """names/classes an exception value is an instance of"""
        if exc.op == "class":
            ci = self.classes[exc.args[0]]
            return ci
        if exc.op == "ext":
            return exc.args[0]
        r = self.rec(st, exc)
        if r is not None and r.kind == "obj":
            return r.cls
        if r is not None and r.kind == "ext":
            return r.path
        return "builtins.Exception"

    def exc_matches(self, st, exc, handler):
        """handler: evaluated class term(s)"""
        if handler is None:
            return True
        if handler.op == "tuple":
            return any(self.exc_matches(st, exc, h) for h in handler.args)
        c = self.exc_classes(st, exc)
        if handler.op == "class":
            h = self.classes[handler.args[0]]
            return isinstance(c, ClassInfo) and h in c.mro()
        if handler.op == "ext":
            path = handler.args[0]
            names = [c] if isinstance(c, str) else c.ext_bases()
            import builtins as b
            for n in names:
                if n == path or path in ("builtins.Exception", "builtins.BaseException"):
                    return True
                x, y = getattr(b, n.split(".")[-1], None), getattr(b, path.split(".")[-1], None)
                if isinstance(x, type) and isinstance(y, type) and issubclass(x, y):
                    return True
            return False
        return False

    # ---------------------------------------------------------------- modules
    def load(self, st):
        """abstractly execute every module body (definitions, imports, constants)"""
        self.loaded = {}
        for name in sorted(self.prog.modules):
            self.import_module(st, name)
        return st

    def import_module(self, st, name):
        if name in self.loaded:
            return
        self.loaded[name] = True
        m = self.prog.modules[name]
        self.file_of[name] = m.relpath
        st.frames[name] = {"__name__": const(name)}
        ctx = Ctx(name, None, name)
        self.ctxs.append(ctx)
        self.exec_block(st, m.tree.body)
        self.ctxs.pop()

    def module_attr(self, st, mod, name):
        self.import_module(st, mod)
        fr = st.frames.get(mod, {})
        if name in fr:
            return fr[name]
        sub = mod + "." + name
        if sub in self.prog.modules:
            return T("module", sub)
        return None

    # ---------------------------------------------------------------- names
    def lookup(self, st, name, node=None):
        ctx = self.ctxs[-1]
        fid = ctx.fid
        fr = st.frames.get(fid, {})
        if name in fr and fr[name] is not UNBOUND:
            return fr[name]
        # enclosing frames
        p = self.parent.get(fid)
        while p is not None:
            fr = st.frames.get(p, {})
            if name in fr and fr[name] is not UNBOUND:
                return fr[name]
            p = self.parent.get(p)
        g = st.frames.get(ctx.module, {})
        if name in g and g[name] is not UNBOUND:
            return g[name]
        if name in BUILTINS:
            if name in ("None", "True", "False"):
                return {"None": NONE, "True": TRUE, "False": FALSE}[name]
            return ext("builtins." + name)
        self.emit(st, "name-miss", (name,), self.site(node))
        self.raise_ext(st, "NameError", name)
        return BOT

    def setvar(self, st, name, v):
        ctx = self.ctxs[-1]
        fid = ctx.fid
        if name in ctx.globals:
            fid = ctx.module
        elif name in ctx.nonlocals:
            p = self.parent.get(fid)
            while p is not None and name not in st.frames.get(p, {}):
                p = self.parent.get(p)
            if p is not None:
                fid = p
        d = dict(st.frames.get(fid, {}))
        d[name] = v
        st.frames[fid] = d

    # ---------------------------------------------------------------- attributes
    def getattr(self, st, v, name, node=None, default=None):
        op = v.op
        if op == "bot":
            return BOT
        if op == "ite":
            return self.fork_cases(st, v, lambda s, x: self.getattr(s, x, name, node, default))
        if op == "module":
            r = self.module_attr(st, v.args[0], name)
            if r is not None:
                return r
            self.emit(st, "attr-miss", ("module " + v.args[0], name), self.site(node))
            self.raise_ext(st, "AttributeError", name)
            return BOT
        if op == "ext":
            return ext(v.args[0] + "." + name)
        if op == "class":
            ci = self.classes[v.args[0]]
            if name == "__name__":
                return const(ci.name)
            f, c = ci.lookup(name)
            if f is None:
                if name in ("__doc__", "__module__", "__dict__", "__mro__"):
                    return unknown(name)
                if [b for b in ci.ext_bases() if b != "builtins.object"]:
                    return T("extclsattr", v, name)
                if name == "__init__" or name.startswith("__"):
                    return T("extclsattr", v, name)
                self.emit(st, "attr-miss", (ci.qual, name), self.site(node))
                self.raise_ext(st, "AttributeError", name)
                return BOT
            if isinstance(f, tuple):
                if f[0] == "static":
                    return f[1]
                if f[0] == "classmethod":
                    return T("bound", f[1], v)
                if f[0] == "property":
                    return T("propobj", v, name)
                if f[0] == "cached_property":
                    return T("propobj", v, name)
            return f
        if op == "super":
            return self.super_attr(st, v, name, node)
        if op == "ref":
            r = st.heap.get(v.args[0])
            if r is None:
                return unknown("dangling")
            if r.kind == "obj":
                return self.obj_attr(st, v, r, name, node, default)
            if r.kind == "ext":
                if name in r.fields:
                    return r.fields[name]
                h = self.lib.ext_attr(self, st, v, r, name)
                if h is not None:
                    return h
                return T("meth", v, name)
            if r.kind == "arr":
                return self.arr_attr(st, v, r, name)
            return T("meth", v, name)
        if op == "const" and cval(v) is None:
            if name.startswith("__"):
                return unknown("None." + name)
            self.emit(st, "none-attr", (name,), self.site(node))
            self.raise_ext(st, "AttributeError", "None." + name)
            return BOT
        if op in ("closure", "bound") and name in ("__name__", "__doc__", "__qualname__"):
            if name == "__name__" and op == "closure":
                return const(self.closures[v.args[0]].name)
            return unknown("function attribute")
        if op == "closure" and name in ("cache_clear", "cache_info"):
            return T("meth", v, name)
        if op in ("extval",):
            return T("extval", v, name)
        if op == "unknown":
            return unknown(v.args[0] + "." + name)
        if op in ("const", "tuple", "range", "gen", "dictview", "iterobj"):
            return T("meth", v, name)
        # numeric term: array attribute or method
        if name in ("shape", "T", "size", "ndim", "dtype", "data", "values", "flat"):
            return self.shape_attr(st, v, name)
        return T("meth", v, name)

    def shape_attr(self, st, t, name):
        if name == "shape":
            s = self.shape(t)
            if s is not None:
                return T("tuple", *s)
        if name == "data" and ndim(t):
            return self.mkval(st, t)
        return self.mkval(st, T("npattr", name, t))

    def shape(self, t):
        """tuple of terms (const where known) or None"""
        n = ndim(t)
        if n == 0:
            return ()
        ln = T("call", "builtins.len", (t,), ())
        if n == 1:
            k = self.known_len(t)
            return (const(k) if k is not None else ln,)
        if n == 2:
            c = self.known_cols(t)
            return (ln, c if c is not None else T("index", T("npattr", "shape", t), const(1)))
        return None

    def known_len(self, t):
        op, a = t.op, t.args
        if op == "sym":
            m = dict(a[2])
            return m.get("n")
        if op in ("list", "tuple") and all(x.op not in ("gi", "spread") for x in a):
            return len(a)
        if op == "bin":
            for x in a[1:]:
                if ndim(x):
                    return self.known_len(x)
        if op == "rand":
            s = tm._kw(a[2], "size")
            if s is not None and is_const(s) and isinstance(cval(s), int):
                return cval(s)
        if op == "call" and a[0] in ("numpy.array", "numpy.asarray", "numpy.log", "numpy.sqrt") and a[1]:
            return self.known_len(a[1][0])
        if op == "call" and a[0] == "builtins.range" and all(is_const(x) for x in a[1]):
            return len(range(*[cval(x) for x in a[1]]))
        if op == "index" and a[0].op == "sym" and a[0].args[1] == "mat":
            m = dict(a[0].args[2])
            return m.get("n")
        return None

    def known_cols(self, t):
        op, a = t.op, t.args
        if op == "sym":
            m = dict(a[2])
            return const(m["cols"]) if "cols" in m else None
        if op == "index":
            i = a[1]
            if i.op == "tuple" and len(i.args) == 2:
                j = i.args[1]
                if j.op == "slice" and all(x is NONE for x in j.args):
                    return self.known_cols(a[0])
                return None
            if ndim(i) or i.op == "slice":
                return self.known_cols(a[0])
        if op in ("method",) and a[0] in ("astype", "copy"):
            return self.known_cols(a[1])
        if op == "setitem":
            return self.known_cols(a[0])
        if op == "npattr" and a[0] in ("values", "data"):
            return self.known_cols(a[1])
        if op == "call" and a[0] in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.require") and a[1]:
            return self.known_cols(a[1][0])
        if op in ("bin",):
            for x in a[1:]:
                if ndim(x) == 2:
                    return self.known_cols(x)
        if op == "ite":
            x, y = self.known_cols(a[1]), self.known_cols(a[2])
            return x if x is y else None
        return None

    def arr_attr(self, st, v, r, name):
        if name == "values" and r.frame:
            return self.alloc(st, RArr(None, view=(v.args[0], T("npattr", "values", NONE))))
        if name == "data" and not r.frame:
            return v
        if name == "T":
            return self.alloc(st, RArr(None, view=(v.args[0], T("npattr", "T", NONE))))
        if name in ("shape", "size", "ndim", "dtype", "flat"):
            return self.shape_attr(st, self.arrval(st, v.args[0]), name)
        if name in ("columns", "index", "iloc", "loc", "mask") and (r.frame or name == "mask"):
            if name in ("iloc", "loc"):
                return T("indexer", v)
            return unknown("frame attribute " + name)
        return T("meth", v, name)

    def obj_attr(self, st, v, r, name, node=None, default=None):
        f, c = r.cls.lookup(name)
        if isinstance(f, tuple) and f[0] == "property":
            return self.call(st, f[1], [v], {}, node)
        if name in r.fields and r.fields[name] is not UNBOUND:
            return r.fields[name]
        if isinstance(f, tuple) and f[0] == "cached_property":
            x = self.call(st, f[1], [v], {}, node)
            if not st.dead:
                self.setfield(st, v, name, x)
            return x
        if f is not None:
            if isinstance(f, tuple):
                if f[0] == "static":
                    return f[1]
                if f[0] == "classmethod":
                    return T("bound", f[1], r.cls.term)
            if f.op == "closure":
                return T("bound", f, v)
            return f
        if name == "__class__":
            return r.cls.term
        if name == "__dict__":
            return T("objdict", v)
        g, c = r.cls.lookup("__getattr__")
        if g is not None:
            return self.call(st, T("bound", g, v), [const(name)], {}, node)
        h = self.lib.ext_base_attr(self, st, v, r, name)
        if h is not None:
            return h
        if default is not None:
            return default
        self.emit(st, "attr-miss", (r.cls.qual, name), self.site(node))
        self.raise_ext(st, "AttributeError", "%s.%s" % (r.cls.qual, name))
        return BOT

    def super_attr(self, st, v, name, node):
        cls, selfv = self.classes[v.args[0]], v.args[1]
        if selfv.op == "ref" and st.heap[selfv.args[0]].kind == "obj":
            start = st.heap[selfv.args[0]].cls
        elif selfv.op == "class":
            start = self.classes[selfv.args[0]]
        else:
            start = cls
        f, c = start.lookup(name, after=cls)
        if f is not None:
            if isinstance(f, tuple):
                if f[0] == "property":
                    return self.call(st, f[1], [selfv], {}, node)
                if f[0] == "static":
                    return f[1]
                if f[0] == "classmethod":
                    return T("bound", f[1], start.term)
            if f.op == "closure":
                return T("bound", f, selfv)
            return f
        return T("extsuper", selfv, name)

    def setfield(self, st, v, name, val):
        r = st.heap[v.args[0]]
        f = dict(r.fields)
        f[name] = val
        if r.kind == "ext":
            st.heap[v.args[0]] = RExt(r.path, r.args, r.kwargs, r.state, f, r.tag)
        else:
            st.heap[v.args[0]] = RObj(r.cls, f, r.tag)

    def setattr(self, st, v, name, val, node=None):
        if v.op == "bot":
            return
        if v.op == "ite":
            return self.fork_cases(st, v, lambda s, x: self.setattr(s, x, name, val, node) or NONE)
        if v.op == "ref":
            r = st.heap[v.args[0]]
            if r.kind == "obj":
                f, c = r.cls.lookup(name)
                if isinstance(f, tuple) and f[0] == "property":
                    if f[2] is not None:
                        self.call(st, f[2], [v, val], {}, node)
                    else:
                        self.emit(st, "attr-miss", (r.cls.qual, name + " (setter)"), self.site(node))
                        self.raise_ext(st, "AttributeError", name)
                    return
                if r.cls.dataclass == "frozen":
                    self.raise_ext(st, "AttributeError", "frozen")
                    return
                self.emit(st, "setattr", (v, name, val), self.site(node))
                self.setfield(st, v, name, val)
                return
            if r.kind == "ext":
                self.setfield(st, v, name, val)
                return
        if v.op == "class":
            ci = self.classes[v.args[0]]
            self.emit(st, "class-setattr", (v, name, val), self.site(node))
            ci.dict[name] = val
            return
        if v.op in ("module",):
            d = dict(st.frames.get(v.args[0], {}))
            d[name] = val
            st.frames[v.args[0]] = d
            return
        if v.op in ("closure", "ext", "unknown", "extval"):
            return
        self.havoc(st, "attribute assignment on " + v.op, node)

    def havoc(self, st, what, node=None):
        """an effect that is not modelled: nothing is claimed about executions that pass here"""
        v = self.unsupported(st, what, node)
        if not st.dead:
            self.restrict(st, T("truth", v))
        return v

    def unsupported(self, st, what, node=None):
        s = self.site(node)
        self.emit(st, "unsupported", (what,), s)
        return unknown("%s at %s:%s" % (what, s[0], s[1]))

    # ---------------------------------------------------------------- iteration
    def iterate(self, st, v):
        """list of (guard, value), or None when the shape is unknown"""
        op = v.op
        if op == "bot":
            return []
        if op == "tuple":
            return [(TRUE, x) for x in v.args]
        if op == "const" and isinstance(cval(v), str):
            return [(TRUE, const(c)) for c in cval(v)]
        if op == "range":
            if all(is_const(x) for x in v.args):
                try:
                    r = range(*[int(cval(x)) for x in v.args])
                except Exception:
                    return None
                if len(r) > 3000:
                    return None
                return [(TRUE, const(i)) for i in r]
            # unknown bound: bounded unrolling
            a = list(v.args)
            if len(a) == 1:
                lo, hi, step = const(0), a[0], const(1)
            elif len(a) == 2:
                lo, hi, step = a[0], a[1], const(1)
            else:
                lo, hi, step = a
            if not is_const(lo) or not is_const(step) or not isinstance(cval(step), int) or cval(step) < 1:
                return None
            out = []
            n = self.unroll(hi) if cval(step) == 1 else self.UNROLL
            for i in range(n):
                out.append((self.truth(st, compare("<", const(cval(lo) + i * cval(step)), hi)), const(cval(lo) + i * cval(step))))
            self.emit(st, "bounded", (hi,))
            self.restrict(st, NOT(self.lit(compare("<", const(cval(lo) + n * cval(step)), hi))))
            return out
        if op == "dictview":
            d, what = v.args
            r = self.rec(st, d)
            if r is None or r.kind != "dict":
                return None
            if what == "keys":
                return [(g, k) for k, x, g in r.entries]
            if what == "values":
                return [(g, x) for k, x, g in r.entries]
            return [(g, T("tuple", k, x)) for k, x, g in r.entries]
        if op == "iterobj":
            return self.iterate(st, v.args[0])
        if op == "objdict":
            return self.iterate(st, self.lib.objdict(self, st, v))
        if op == "ref":
            r = st.heap.get(v.args[0])
            if r is None:
                return None
            if r.kind in ("list", "set"):
                return list(r.items)
            if r.kind == "dict":
                return [(g, k) for k, x, g in r.entries]
            if r.kind == "lazy":
                if r.hi - r.lo <= 64 and r.src[0] != "ite":
                    return [(TRUE, self.lazy_elem(st, r, i)) for i in range(r.lo, r.hi)]
                return None
            if r.kind == "arr":
                return self.iter_term(st, self.arrval(st, v.args[0]))
            if r.kind == "obj":
                f, c = r.cls.lookup("__iter__")
                if f is not None:
                    return self.iterate(st, self.call(st, T("bound", f, v), [], {}))
                return None
            return self.lib.ext_iter(self, st, v, r)
        if op == "ite":
            c = self.simp(st, v.args[0])
            if c is TRUE or c is FALSE:
                return self.iterate(st, v.args[1 if c is TRUE else 2])
            a = self.iterate(st, v.args[1])
            b = self.iterate(st, v.args[2])
            if a is None or b is None:
                return None
            return [(AND(c, g), x) for g, x in a] + [(AND(NOT(c), g), x) for g, x in b]
        if op == "gen":
            out = []

            def h(s, x):
                out.append((AND(*[p for p in s.pc if p not in base]), x))
                return NONE
            base = list(st.pc)
            self.run_gen(st, v, h)
            return out
        if op in ("unknown", "extval"):
            return None
        if ndim(v) > 0 or op in ("call", "method"):
            return self.iter_term(st, v)
        return None

    def iter_term(self, st, t):
        if t.op == "list":
            return [(x.args[0], x.args[1]) if x.op == "gi" else (TRUE, x) for x in t.args]
        if t.op == "call" and t.args[0] in ("builtins.sorted", "builtins.list", "numpy.array", "numpy.asarray", "builtins.tuple", "builtins.reversed", "numpy.sort") and t.args[1] and not t.args[2]:
            n = self.known_len(t.args[1][0])
            if n is not None:
                if t.args[0] in ("builtins.list", "numpy.array", "numpy.asarray", "builtins.tuple"):
                    return self.iter_term(st, t.args[1][0])
                return [(TRUE, T("index", t, const(i))) for i in range(n)]
        n = self.known_len(t)
        if n is not None and n <= 64:
            return [(TRUE, self.mkval(st, T("index", t, const(i)))) for i in range(n)]
        ln = T("call", "builtins.len", (t,), ())
        out = []
        n = self.unroll(t)
        for i in range(n):
            out.append((self.simp(st, self.lit(compare("<", const(i), ln))), self.mkval(st, T("index", t, const(i)))))
        self.emit(st, "bounded", (ln,))
        self.restrict(st, NOT(self.lit(compare("<", const(n), ln))))
        return out

    def unroll(self, t):
        """how often to unroll a loop of unknown length: beyond the constants its length is bounded by"""
        n, seen, todo = self.UNROLL, 0, [t]
        while todo and seen < 40:
            x = todo.pop()
            seen += 1
            if is_const(x):
                v = cval(x)
                if isinstance(v, int) and not isinstance(v, bool) and n < v + 2 <= 130:
                    n = v + 2
            elif x.op in ("slice", "index", "tuple", "list", "listv", "ite", "bin", "cmp") or (x.op == "call" and str(x.args[0]).split(".")[-1] in ("min", "max", "minimum", "maximum", "len")):
                todo.extend(tm_children(x))
        return n

    def lazy_elem(self, st, r, i):
        if r.src[0] == "vec":
            return T("index", r.src[1], const(i))
        if r.src[0] == "pick":
            _, uid, opts = r.src
            return self.pick(st, uid, i, opts)
        return unknown("lazy element")

    def pick(self, st, uid, k, opts):
        """value of random choice number k of draw uid among guarded options"""
        n = len(opts)
        if n == 1 and opts[0][0] is TRUE:
            return opts[0][1]
        gs = tuple(g for g, _ in opts) if any(g is not TRUE for g, _ in opts) else ()
        p = T("randpick", uid, k, n, self.pick_p.get(uid, ()), gs)
        conds = [AND(g, self.lit(compare("==", p, const(j)))) for j, (g, _) in enumerate(opts)]
        if any(g is not TRUE for g, _ in opts):
            self.restrict(st, OR(*conds))
        v = opts[-1][1]
        for c, (g, x) in reversed(list(zip(conds[:-1], opts[:-1]))):
            v = ITE(c, x, v)
        return v

    # ---------------------------------------------------------------- generators
    def run_gen(self, st, gen, handler):
        """run a generator value, calling handler(st, value) at each yield"""
        clo, args = gen.args[0], gen.args[1]
        c = self.closures[clo.args[0]]
        saved_ctx, saved_col = self.ctxs, self.collectors
        base_ctx = list(saved_ctx)

        def h(s, v):
            inner_ctx, inner_col = self.ctxs, self.collectors
            self.ctxs, self.collectors = saved_ctx, saved_col
            try:
                r = handler(s, v)
            finally:
                self.ctxs, self.collectors = inner_ctx, inner_col
            return r if isinstance(r, Term) else NONE
        self.ctxs = base_ctx
        try:
            self.call_body(st, c, dict(args), h)
        finally:
            self.ctxs = saved_ctx

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, kwargs, node=None):
        if st.dead:
            return BOT
        op = f.op
        if op == "bot":
            return BOT
        if op == "ite":
            return self.fork_cases(st, f, lambda s, x: self.call(s, x, list(args), dict(kwargs), node))
        if op == "bound":
            return self.call(st, f.args[0], [f.args[1]] + list(args), kwargs, node)
        if op == "closure":
            return self.call_closure(st, f, args, kwargs, node)
        if op == "stub":
            return self.stubvals[f.args[0]](self, st, list(args), dict(kwargs), self.site(node))
        if op == "partial":
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(st, f.args[0], list(f.args[1]) + list(args), kw, node)
        if op == "class":
            return self.instantiate(st, self.classes[f.args[0]], args, kwargs, node)
        if op == "ext":
            return self.lib.call_ext(self, st, f.args[0], list(args), dict(kwargs), node)
        if op == "meth":
            return self.lib.call_method(self, st, f.args[0], f.args[1], list(args), dict(kwargs), node)
        if op == "extsuper":
            return self.lib.call_extsuper(self, st, f.args[0], f.args[1], list(args), dict(kwargs), node)
        if op == "extclsattr":
            return self.lib.call_extsuper(self, st, args[0] if args else NONE, f.args[1], list(args[1:]), dict(kwargs), node)
        if op == "lru":
            return self.call_lru(st, f, args, kwargs, node)
        if op == "delayed":
            return T("task", f.args[0], tuple(args), tuple(sorted(kwargs.items())))
        if op == "opgetter":
            if f.args[0] == "attrgetter":
                v = args[0]
                for nm in cval(f.args[1][0]).split("."):
                    v = self.getattr(st, v, nm, node)
                return v
            if f.args[0] == "itemgetter":
                return self.getitem(st, args[0], f.args[1][0], node)
            return self.call(st, self.getattr(st, args[0], cval(f.args[1][0]), node), list(f.args[1][1:]), {}, node)
        if op == "ref":
            r = st.heap.get(f.args[0])
            if r is not None and r.kind == "obj":
                g, c = r.cls.lookup("__call__")
                if g is not None:
                    return self.call(st, T("bound", g, f), args, kwargs, node)
                self.emit(st, "not-callable", (r.cls.qual,), self.site(node))
                self.raise_ext(st, "TypeError", "not callable")
                return BOT
            if r is not None and r.kind == "ext":
                return self.lib.call_extobj(self, st, f, r, list(args), dict(kwargs), node)
        if op == "const":
            self.emit(st, "not-callable", (repr(cval(f)),), self.site(node))
            self.raise_ext(st, "TypeError", "not callable")
            return BOT
        if op in ("extval", "extcall"):
            return T("extval", f, T("tuple", *[self.pure(st, a) for a in args]))
        if op in ("bin", "cmp") or (op in ("sym",) and f.args[1] != "any"):
            self.emit(st, "not-callable", (repr(f)[:60],), self.site(node))
            self.raise_ext(st, "TypeError", "not callable")
            return BOT
        return self.havoc(st, "call of " + repr(f)[:60], node)

    def call_lru(self, st, f, args, kwargs, node):
        inner, oid = f.args
        key = ("k", tuple(self.pure(st, a) for a in args), tuple(sorted((k, self.pure(st, v)) for k, v in kwargs.items())))
        key = (tuple(x.id for x in key[1]), tuple((k, v.id) for k, v in key[2]))
        r = st.heap.get(oid) or RCache([])
        for k, v in r.entries:
            if k == key:
                return v
        v = self.call(st, inner, args, kwargs, node)
        if not st.dead:
            r = st.heap.get(oid) or RCache([])
            st.heap[oid] = RCache(r.entries + [(key, v)])
        return v

    def bind(self, st, c, args, kwargs, node):
        a = c.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        kw = {}
        err = None
        for k, v in kwargs.items():
            if k in out:
                err = "multiple values for argument '%s'" % k
            elif k in pos or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            else:
                kw[k] = v
        if extra and not a.vararg:
            err = "takes %d positional arguments but %d were given" % (len(pos), len(args))
        if kw and not a.kwarg:
            err = "unexpected keyword argument '%s'" % list(kw)[0]
        d = c.defaults
        for i, name in enumerate(pos):
            if name not in out:
                j = i - (len(pos) - len(d))
                if j >= 0:
                    out[name] = d[j]
                else:
                    err = err or "missing argument '%s'" % name
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in c.kwdefaults:
                    out[x.arg] = c.kwdefaults[x.arg]
                else:
                    err = err or "missing argument '%s'" % x.arg
        if err:
            self.emit(st, "arity", (c.qual, err), self.site(node))
            self.raise_ext(st, "TypeError", "%s() %s" % (c.qual, err), self.site(node))
            return None
        if a.vararg:
            out[a.vararg.arg] = T("tuple", *extra)
        if a.kwarg:
            out[a.kwarg.arg] = self.alloc(st, RDict([(const(k), v, TRUE) for k, v in kw.items()]))
        return out

    def call_closure(self, st, f, args, kwargs, node):
        c = self.closures[f.args[0]]
        self.sites += 1
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        self.called.add(c.qual)
        stub = self.stubs.get(c.qual)
        if stub is not None:
            return stub(self, st, list(args), dict(kwargs), self.site(node))
        b = self.bind(st, c, args, kwargs, node)
        if b is None:
            return BOT
        if c.is_gen:
            return T("gen", f, tuple(sorted(b.items())), self.new())
        active = sum(1 for x in self.ctxs if x.closure is c and x.pc != st.pc)
        same = sum(1 for x in self.ctxs if x.closure is c and x.pc == st.pc)
        if active >= self.RECLIMIT or active + same >= 14 or len(self.ctxs) > self.MAXDEPTH:
            self.emit(st, "recursion", (c.qual,), self.site(node))
            self.limits_hit.append(c.qual)
            self.kill(st)
            return BOT
        return self.call_body(st, c, b, None)

    def call_body(self, st, c, bound, handler):
        self.analysed.add(c.qual)
        fid = "f%d" % self.new()
        self.parent[fid] = c.fid
        st.frames[fid] = dict(bound)
        ctx = Ctx(fid, c, c.module)
        ctx.pc = st.pc
        ctx.handler = handler
        ctx.cls = c.cls
        a = c.node.args
        allp = a.posonlyargs + a.args
        if allp:
            ctx.selfv = bound.get(allp[0].arg)
        self.ctxs.append(ctx)
        depth0 = len(self.ctxs)
        saved = self.cur
        pc0, k0 = st.pc, len(self.losses)
        try:
            if isinstance(c.node, ast.Lambda):
                v = self.eval(st, c.node.body)
                if not st.dead:
                    ctx.returns.append((st.fork(), v))
                st.dead = True
            else:
                self.exec_block(st, c.node.body)
                if not st.dead:
                    ctx.returns.append((st.fork(), NONE))
        finally:
            self.ctxs.pop()
            self.cur = saved
        rets = [(s, v) for s, v in ctx.returns if not s.dead]
        if not rets:
            st.dead = True
            return BOT
        acc, val = rets[-1]
        for s, v in reversed(rets[:-1]):
            n = St()
            base, r1, r2 = self._split_pc(s.pc, acc.pc)
            if r1 and r2 and r1[0] is NOT(r2[0]):
                cnd = r1[0]
            else:
                cnd = AND(*r1)
                if cnd is TRUE and r2:
                    cnd = NOT(AND(*r2))
            self.merge_into(n, s, acc)
            val = ITE(cnd, v, val)
            acc = n
        st.become(acc)
        self.settle(st, pc0, k0)
        st.frames = dict(st.frames)
        # keep the frame: closures may refer to it
        return val

    def instantiate(self, st, ci, args, kwargs, node):
        self.called.add(ci.qual)
        f, c = ci.lookup("__init__")
        stub = self.stubs.get(ci.qual)
        if stub is not None:
            return stub(self, st, list(args), dict(kwargs), self.site(node))
        o = self.alloc(st, RObj(ci, {}))
        if f is not None:
            self.call(st, f, [o] + list(args), kwargs, node)
            return o if not st.dead else BOT
        if ci.dataclass:
            flds = []
            for k in reversed(ci.mro()):
                for nm, d in k.ann:
                    flds = [x for x in flds if x[0] != nm] + [(nm, d)]
            names = [n for n, _ in flds]
            vals = {}
            for i, v in enumerate(args):
                if i < len(names):
                    vals[names[i]] = v
            vals.update(kwargs)
            for nm, d in flds:
                if nm not in vals:
                    if d is None:
                        self.emit(st, "arity", (ci.qual, "missing argument " + nm), self.site(node))
                        self.raise_ext(st, "TypeError", nm)
                        return BOT
                    vals[nm] = self.call(st, d[1], [], {}) if d[0] == "factory" else d[1]
            for k, v in vals.items():
                self.setfield(st, o, k, v)
            p, _ = ci.lookup("__post_init__")
            if p is not None:
                self.call(st, p, [o], {}, node)
            return o
        exts = [b for b in ci.ext_bases() if b not in ("builtins.object", "abc.ABC")]
        if exts:
            self.setfield(st, o, "args", T("tuple", *args))
            return o
        if args or kwargs:
            self.emit(st, "arity", (ci.qual, "takes no arguments"), self.site(node))
            self.raise_ext(st, "TypeError", ci.qual)
            return BOT
        return o

    # ---------------------------------------------------------------- statements
    def exec_block(self, st, body):
        for s in body:
            if st.dead:
                return
            self.cur = s.lineno
            m = getattr(self, "x_" + type(s).__name__, None)
            if m is None:
                self.havoc(st, "statement " + type(s).__name__, s)
                for t in self.assigned([s]):
                    self.setvar(st, t, unknown("unsupported statement"))
                continue
            m(st, s)

    @staticmethod
    def assigned(body):
        out = []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.append(n.id)
        return out

    def x_Pass(self, st, s):
        pass

    def x_Expr(self, st, s):
        self.eval(st, s.value)

    def x_Return(self, st, s):
        v = self.eval(st, s.value) if s.value is not None else NONE
        if st.dead:
            return
        self.ctxs[-1].returns.append((st.fork(), v))
        self.escapes += 1
        st.dead = True

    def x_Global(self, st, s):
        self.ctxs[-1].globals |= set(s.names)

    def x_Nonlocal(self, st, s):
        self.ctxs[-1].nonlocals |= set(s.names)

    def x_Import(self, st, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.name in self.prog.modules or top in self.prog.modules or top == self.prog.package:
                if a.name in self.prog.modules:
                    self.import_module(st, a.name)
                else:
                    self.emit(st, "import-miss", (a.name,), self.site(s))
                v = T("module", a.name if a.asname else top)
                if not a.asname and top not in self.prog.modules:
                    v = T("module", top)
            else:
                v = ext(a.name if a.asname else top)
            self.setvar(st, a.asname or top, v)

    def x_ImportFrom(self, st, s):
        mod = s.module or ""
        if s.level:
            base = self.ctxs[-1].module
            m = self.prog.modules.get(base)
            parts = base.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        internal = mod.split(".")[0] == self.prog.package
        for a in s.names:
            if internal:
                if mod not in self.prog.modules:
                    self.emit(st, "import-miss", (mod,), self.site(s))
                    self.setvar(st, a.asname or a.name, unknown("import"))
                    continue
                if a.name == "*":
                    self.import_module(st, mod)
                    for k, v in list(st.frames[mod].items()):
                        if not k.startswith("_"):
                            self.setvar(st, k, v)
                    continue
                v = self.module_attr(st, mod, a.name)
                if v is None:
                    # circular import: resolve lazily
                    if a.name in self.prog.modules[mod].defined:
                        v = T("lazyname", mod, a.name)
                    else:
                        self.emit(st, "import-miss", (mod + "." + a.name,), self.site(s))
                        v = unknown("import")
                self.setvar(st, a.asname or a.name, v)
            else:
                self.setvar(st, a.asname or a.name, self.lib.canonical(ext(mod + "." + a.name)))

    def make_closure(self, st, node, name, cls=None):
        ctx = self.ctxs[-1]
        a = node.args
        defaults = [self.eval(st, d) for d in a.defaults]
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.eval(st, d)
        if cls is not None:
            q = cls.qual + "." + name
        elif ctx.closure is not None:
            q = ctx.closure.qual + ".<locals>." + name
        else:
            q = ctx.module + "." + name
        fid = ctx.fid if ctx.closure is not None or ctx.fid != ctx.module else None
        cid = self.new()
        c = Closure(node, ctx.module, fid, defaults, kwd, q, cls if cls is not None else None, not isinstance(node, ast.Lambda) and has_yield(node) or (isinstance(node, ast.Lambda) and False))
        if cls is None and ctx.closure is not None:
            c.cls = ctx.cls
        self.closures[cid] = c
        return T("closure", cid)

    def decorate(self, st, f, node, cls=None):
        """returns class-dict entry or function value"""
        v = f
        for d in reversed(node.decorator_list):
            dv = None
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter") and isinstance(d.value, ast.Name) and cls is not None:
                old = cls.dict.get(d.value.id)
                if isinstance(old, tuple) and old[0] == "property":
                    if d.attr == "setter":
                        v = ("property", old[1], v)
                    continue
            dv = self.eval(st, d)
            if dv.op == "ext":
                p = dv.args[0]
                short = p.split(".")[-1]
                if p == "builtins.property" or short == "abstractproperty":
                    v = ("property", v, None)
                elif p == "functools.cached_property" or short == "cached_property":
                    v = ("cached_property", v)
                elif p == "builtins.staticmethod":
                    v = ("static", v)
                elif p == "builtins.classmethod":
                    v = ("classmethod", v)
                elif short in ("lru_cache", "cache"):
                    oid = self.new()
                    v = T("lru", v, oid)
                elif short in ("abstractmethod", "wraps", "njit", "jit", "final", "overload", "override"):
                    pass
                elif isinstance(v, tuple):
                    pass
                else:
                    v = self.call(st, dv, [v], {}, node)
                continue
            if dv.op == "lrufactory":
                v = T("lru", v, self.new())
                continue
            if dv.op == "identitydec":
                continue
            if not isinstance(v, tuple):
                v = self.call(st, dv, [v], {}, node)
        return v

    def x_FunctionDef(self, st, s):
        f = self.make_closure(st, s, s.name)
        v = self.decorate(st, f, s)
        if isinstance(v, tuple):
            v = v[1]
        self.setvar(st, s.name, v)

    def x_AsyncFunctionDef(self, st, s):
        self.setvar(st, s.name, self.unsupported(st, "async function", s))

    def x_ClassDef(self, st, s):
        ctx = self.ctxs[-1]
        bases = []
        for b in s.bases:
            v = self.eval(st, b)
            if v.op == "class":
                bases.append(self.classes[v.args[0]])
            elif v.op == "ext":
                bases.append(self.lib.canonical(v).args[0])
            else:
                bases.append("?")
        qual = (ctx.closure.qual + ".<locals>." if ctx.closure else ctx.module + ".") + s.name
        ci = ClassInfo(s.name, qual, bases, s, ctx.module)
        self.classes[qual] = ci
        for d in s.decorator_list:
            dv = self.eval(st, d.func if isinstance(d, ast.Call) else d)
            if dv.op == "ext" and dv.args[0].endswith("dataclass"):
                ci.dataclass = True
                if isinstance(d, ast.Call) and any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords):
                    ci.dataclass = "frozen"
        # class body executes in its own frame
        fid = "c%d" % self.new()
        self.parent[fid] = ctx.fid if ctx.closure else None
        st.frames[fid] = {}
        c2 = Ctx(fid, ctx.closure, ctx.module)
        self.ctxs.append(c2)
        for b in s.body:
            self.cur = b.lineno
            if isinstance(b, ast.FunctionDef):
                # functions in a class body do not see the class frame
                c2.fid = ctx.fid
                f = self.make_closure_in(st, b, b.name, ci, fid)
                v = self.decorate(st, f, b, ci)
                ci.dict[b.name] = v
                d = dict(st.frames[fid])
                d[b.name] = v if isinstance(v, Term) else v[1]
                st.frames[fid] = d
                c2.fid = fid
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                dv = None
                if b.value is not None:
                    val = self.eval(st, b.value)
                    dv = ("value", val)
                    if val.op == "dcfield":
                        dv = ("factory", val.args[0]) if val.args[0] is not NONE else ("value", val.args[1])
                    else:
                        ci.dict[b.target.id] = val
                ci.ann.append((b.target.id, dv))
            else:
                self.exec_block(st, [b])
                for k, v in st.frames[fid].items():
                    if k not in ci.dict and isinstance(v, Term):
                        ci.dict[k] = v
        self.ctxs.pop()
        self.setvar(st, s.name, ci.term)

    def make_closure_in(self, st, node, name, ci, fid):
        # defaults are evaluated in the class frame
        self.ctxs[-1].fid = fid
        a = node.args
        defaults = [self.eval(st, d) for d in a.defaults]
        kwd = {x.arg: self.eval(st, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        cid = self.new()
        c = Closure(node, self.ctxs[-1].module, self.parent[fid], defaults, kwd, ci.qual + "." + name, ci, has_yield(node))
        self.closures[cid] = c
        return T("closure", cid)

    def x_Assign(self, st, s):
        v = self.eval(st, s.value)
        if st.dead:
            return
        for t in s.targets:
            self.assign(st, t, v)

    def x_AnnAssign(self, st, s):
        if s.value is not None:
            v = self.eval(st, s.value)
            if not st.dead:
                self.assign(st, s.target, v)

    def assign(self, st, t, v):
        if st.dead:
            return
        if isinstance(t, ast.Name):
            self.setvar(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value)
            if not st.dead:
                self.setattr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, t.value)
            i = self.eval_index(st, t.slice)
            if not st.dead:
                self.setitem(st, o, i, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(st, t.elts, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)
        else:
            self.unsupported(st, "assignment target", t)

    def unpack(self, st, elts, v, node):
        if v.op == "ite":
            l1, l2 = self.iterate(st, v.args[1]), self.iterate(st, v.args[2])
            if l1 is not None and l2 is not None and len(l1) == len(l2) == len(elts) and all(g is TRUE for g, _ in l1 + l2):
                for e, (_, a), (_, b) in zip(elts, l1, l2):
                    self.assign(st, e, ITE(v.args[0], a, b))
                return
        if v.op in ("unknown", "extval") or (v.op == "ref" and self.rec(st, v) is not None and self.rec(st, v).kind == "ext"):
            for i, e in enumerate(elts):
                if isinstance(e, (ast.Tuple, ast.List)):
                    self.unpack(st, e.elts, T("extval", v, const(i)), node)
                else:
                    self.assign(st, e, T("extval", v, const(i)) if v.op != "unknown" else unknown(v.args[0]))
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        l = self.iterate(st, v)
        if l is None or any(g is not TRUE for g, _ in l):
            p = self.pure(st, v)
            if p.op not in ("unknown", "ref") and (ndim(p) or p.op in ("index", "call")):
                for i, e in enumerate(elts):
                    self.assign(st, e, self.mkval(st, T("index", p, const(i))))
                return
            for e in elts:
                self.assign(st, e, self.unsupported(st, "unpacking", node))
            return
        vals = [x for _, x in l]
        if star:
            i = star[0]
            k = len(elts) - 1 - i
            mid = vals[i:len(vals) - k]
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(st, e, x)
            self.assign(st, elts[i].value, self.newlist(st, mid))
            for e, x in zip(elts[i + 1:], vals[len(vals) - k:]):
                self.assign(st, e, x)
            return
        if len(vals) != len(elts):
            self.emit(st, "unpack", (len(elts), len(vals)), self.site(node))
            self.raise_ext(st, "ValueError", "unpack")
            return
        for e, x in zip(elts, vals):
            self.assign(st, e, x)

    OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
           ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
    DUN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "&": "and",
           "|": "or", "^": "xor", "@": "matmul", "<<": "lshift", ">>": "rshift"}

    def x_AugAssign(self, st, s):
        op = self.OPN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id, t)
            put = lambda v: self.setvar(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value)
            if st.dead:
                return
            cur = self.getattr(st, o, t.attr, t)
            put = lambda v: self.setattr(st, o, t.attr, v, t)
        else:
            o = self.eval(st, t.value)
            i = self.eval_index(st, t.slice)
            if st.dead:
                return
            cur = self.getitem(st, o, i, t)
            put = lambda v: self.setitem(st, o, i, v, t)
        if st.dead:
            return
        v = self.eval(st, s.value)
        if st.dead:
            return
        r = self.inplace(st, op, cur, v, s)
        if not st.dead:
            put(r)

    def inplace(self, st, op, cur, v, node):
        if cur.op == "ite":
            return self.fork_cases(st, cur, lambda s, x: self.inplace(s, op, x, v, node))
        r = self.rec(st, cur)
        if r is not None and r.kind == "arr":
            new = binop(op, self.arrval(st, cur.args[0]), self.pure(st, v))
            self.write_arr(st, cur, new, node)
            return cur
        if r is not None and r.kind == "list" and op == "+" and not r.arr:
            self.lib.call_method(self, st, cur, "extend", [v], {}, node)
            return cur
        if r is not None and r.kind == "list" and r.arr:
            res = self.binary(st, op, cur, v, node)
            rr = self.rec(st, res)
            self.emit(st, "inplace", (cur,), self.site(node))
            if rr is not None and rr.kind == "list":
                st.heap[cur.args[0]] = rr
                return cur
            return res
        if r is not None and r.kind == "dict" and op == "|":
            self.lib.call_method(self, st, cur, "update", [v], {}, node)
            return cur
        if r is not None and r.kind == "set" and op == "|":
            self.lib.call_method(self, st, cur, "update", [v], {}, node)
            return cur
        if r is not None and r.kind == "obj":
            f, c = r.cls.lookup("__i%s__" % self.DUN[op])
            if f is not None:
                return self.call(st, T("bound", f, cur), [v], {}, node)
        if cur.op not in ("const", "ref") and ndim(cur) > 0:
            self.emit(st, "inplace-term", (cur,), self.site(node))
        return self.binary(st, op, cur, v, node)

    def root(self, st, v):
        """root cell of an array reference"""
        oid = v.args[0]
        while True:
            r = st.heap.get(oid)
            if r is None or r.kind != "arr" or r.view is None:
                return oid
            oid = r.view[0]

    def write_arr(self, st, v, new, node):
        self.emit(st, "inplace", (v,), self.site(node))
        self._write(st, v.args[0], new)

    def _write(self, st, oid, new):
        r = st.heap[oid]
        if r.view is not None:
            base = self.arrval(st, r.view[0])
            how = r.view[1]
            if how.op == "npattr":
                nb = new if how.args[0] == "values" else T("npattr", "T", new)
            else:
                nb = T("setitem", base, how, new)
            self._write(st, r.view[0], nb)
        else:
            st.heap[oid] = RArr(new, None, r.tag, r.frame)
            if oid in self.aliases:
                self.smudge(st, oid)

    def x_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(st.frames.get(self.ctxs[-1].fid, {}))
                d.pop(t.id, None)
                st.frames[self.ctxs[-1].fid] = d
            elif isinstance(t, ast.Subscript):
                o = self.eval(st, t.value)
                i = self.eval_index(st, t.slice)
                if not st.dead:
                    self.lib.delitem(self, st, o, i, t)
            elif isinstance(t, ast.Attribute):
                o = self.eval(st, t.value)
                if not st.dead and o.op == "ref" and self.rec(st, o).kind == "obj":
                    r = self.rec(st, o)
                    f = dict(r.fields)
                    f.pop(t.attr, None)
                    st.heap[o.args[0]] = RObj(r.cls, f, r.tag)

    def branch(self, st, c, f1, f2):
        if c is TRUE:
            f1(st)
            return
        if c is FALSE:
            f2(st)
            return
        s1, s2 = st.fork(), st.fork()
        s1.assume(c)
        s2.assume(NOT(c))
        if not s1.dead:
            f1(s1)
        if not s2.dead:
            f2(s2)
        self.merge_into(st, s1, s2)

    def x_If(self, st, s):
        t = self.eval(st, s.test)
        if st.dead:
            return
        c = self.truth(st, t)
        if st.dead:
            return
        self.branch(st, c, lambda x: self.exec_block(x, s.body), lambda x: self.exec_block(x, s.orelse))

    def x_For(self, st, s):
        it = self.eval(st, s.iter)
        if st.dead:
            return
        self.loop_over(st, it, s.target, s.body, s.orelse, s)

    def loop_over(self, st, it, target, body, orelse, node):
        ctx = self.ctxs[-1]
        loop = {"breaks": [], "continues": []}

        def one(s, v):
            # s alive; run the body once with target bound to v
            saved = loop["continues"]
            loop["continues"] = []
            ctx.loops.append(loop)
            try:
                self.assign(s, target, v)
                self.exec_block(s, body)
            finally:
                ctx.loops.pop()
            states = [x for x in loop["continues"]]
            loop["continues"] = saved
            if states:
                if not s.dead:
                    states.append(s.fork())
                self.merge_many(s, states)
            return NONE
        if it.op == "gen":
            def h(s, v):
                one(s, v)
                return NONE
            self.run_gen(st, it, h)
        elif it.op == "ite" and any(x.op == "gen" for x in (it.args[1], it.args[2])):
            self.fork_cases(st, it, lambda s, x: self.loop_over(s, x, target, body, orelse, node) or NONE)
            return
        elif it.op == "genwrap":
            # enumerate/zip over a generator
            kind, g, extra = it.args
            cnt = [0]

            def h(s, v):
                if kind == "enumerate":
                    v = T("tuple", const(cnt[0] + cval(extra)), v)
                    cnt[0] += 1
                one(s, v)
                return NONE
            self.run_gen(st, g, h)
        else:
            items = self.iterate(st, it)
            if items is None:
                self.havoc(st, "loop over unknown collection", node)
                for n in self.assigned(body):
                    self.setvar(st, n, unknown("loop"))
                # analyse the body once for effects
                self.assign(st, target, unknown("loop item"))
                return
            for g, v in items:
                if st.dead:
                    break
                g = self.simp(st, g)
                self.branch(st, g, lambda x: one(x, v), lambda x: None)
        if orelse and not st.dead:
            self.exec_block(st, orelse)
        if loop["breaks"]:
            states = loop["breaks"]
            if not st.dead:
                states = states + [st.fork()]
            self.merge_many(st, states)

    def x_While(self, st, s):
        ctx = self.ctxs[-1]
        loop = {"breaks": [], "continues": []}
        exits = []
        n = 0
        limit = 400
        sym_iters = 0
        while not st.dead:
            t = self.eval(st, s.test)
            if st.dead:
                break
            c = self.truth(st, t)
            if c is FALSE:
                break
            if c is not TRUE:
                sym_iters += 1
                e = st.fork()
                e.assume(NOT(c))
                if not e.dead:
                    exits.append(e)
                st.assume(c)
                if st.dead:
                    break
            n += 1
            if sym_iters > (3 if not isinstance(s.test, ast.Constant) else 2) or n > limit:
                # cut: executions that iterate longer are outside the summary
                self.emit(st, "bounded", (c,), self.site(s))
                if sym_iters <= 3:
                    self.limits_hit.append(self.site(s)[2])
                self.kill(st)
                break
            loop["continues"] = []
            endless = isinstance(s.test, ast.Constant)
            if endless:
                esc, before = self.escapes, self.progress(st, ctx.fid)
            ctx.loops.append(loop)
            try:
                self.exec_block(st, s.body)
            finally:
                ctx.loops.pop()
            if loop["continues"]:
                states = loop["continues"]
                if not st.dead:
                    states = states + [st.fork()]
                self.merge_many(st, states)
            if endless and not st.dead and self.escapes > esc:
                # left depending on data: a retry loop, or one that a counter or a shrinking list ends
                sym_iters += 1 if self.progress(st, ctx.fid) == before else 0.1
        if not st.dead:
            exits.append(st.fork())
        self.merge_many(st, exits)
        if s.orelse and not st.dead:
            self.exec_block(st, s.orelse)
        if loop["breaks"]:
            states = loop["breaks"]
            if not st.dead:
                states = states + [st.fork()]
            self.merge_many(st, states)

    def progress(self, st, fid):
        """what a loop has changed in its local variables as far as it does not depend on data"""
        out = []
        for k, v in st.frames.get(fid, {}).items():
            if v.op == "ref":
                r = st.heap.get(v.args[0])
                out.append((k, len(r.items) if r is not None and r.kind == "list" else None))
            elif is_const(v):
                out.append((k, v.id))
            elif v.op == "ite" and all(is_const(x) for x in self.leaves(v)):
                out.append((k, v.id))
        return out

    def x_Break(self, st, s):
        self.ctxs[-1].loops[-1]["breaks"].append(st.fork())
        self.escapes += 1
        st.dead = True

    def x_Continue(self, st, s):
        self.ctxs[-1].loops[-1]["continues"].append(st.fork())
        self.escapes += 1
        st.dead = True

    def x_With(self, st, s):
        for it in s.items:
            v = self.eval(st, it.context_expr)
            if it.optional_vars is not None and not st.dead:
                self.assign(st, it.optional_vars, v)
        if not st.dead:
            self.exec_block(st, s.body)

    def x_Raise(self, st, s):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                self.raise_(st, cur[-1], self.site(s))
            else:
                self.raise_ext(st, "RuntimeError", "bare raise")
            return
        v = self.eval(st, s.exc)
        if st.dead:
            return
        if v.op == "class":
            v = self.instantiate(st, self.classes[v.args[0]], [], {}, s)
        elif v.op == "ext":
            v = self.alloc(st, RExt(v.args[0]))
        self.raise_(st, v, self.site(s))

    def x_Assert(self, st, s):
        t = self.eval(st, s.test)
        if st.dead:
            return
        c = self.truth(st, t)
        self.branch(st, c, lambda x: None, lambda x: self.raise_ext(x, "AssertionError", "assert", self.site(s)))

    def x_Try(self, st, s):
        pc0, k0, esc0 = st.pc, len(self.losses), self.escapes
        col = []
        self.collectors.append(col)
        try:
            self.exec_block(st, s.body)
        finally:
            self.collectors.pop()
        if not st.dead and s.orelse:
            self.exec_block(st, s.orelse)
        alive = [] if st.dead else [st.fork()]
        rest = []
        for r in col:
            handled = False
            for h in s.handlers:
                hv = None
                if h.type is not None:
                    hv = self.eval(r.st, h.type)
                if self.exc_matches(r.st, r.exc, hv):
                    x = r.st.fork()
                    x.dead = False
                    self.losses = self.losses[:k0] + [l for l in self.losses[k0:] if l is not r.loss]
                    if h.name:
                        self.setvar(x, h.name, r.exc)
                    self.emit(x, "caught", (r.exc,), self.site(h))
                    self.handling = getattr(self, "handling", []) + [r.exc]
                    self.exec_block(x, h.body)
                    self.handling = self.handling[:-1]
                    if not x.dead:
                        alive.append(x)
                    handled = True
                    break
            if not handled:
                rest.append(r)
        for r in rest:
            if s.finalbody:
                x = r.st.fork()
                x.dead = False
                self.exec_block(x, s.finalbody)
                r.st = x
            self.collectors[-1].append(r)
        self.merge_many(st, alive)
        if self.escapes == esc0:
            self.settle(st, pc0, k0)
        if s.finalbody and not st.dead:
            self.exec_block(st, s.finalbody)

    # ---------------------------------------------------------------- expressions
    def eval(self, st, n):
        if st.dead:
            return BOT
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unsupported(st, "expression " + type(n).__name__, n)
        v = m(st, n)
        if v.op == "lazyname":
            v = self.module_attr(st, v.args[0], v.args[1]) or unknown("import")
        if v.op == "ref" and v.args[0] not in self.born:
            self.born[v.args[0]] = id(n)
        if v.op in ("bin", "cmp", "call", "rand", "method", "index", "ite", "setitem", "neg", "inv") and v.id not in self.origin:
            self.origin[v.id] = self.site(n)
        elif v.op == "ref":
            r = st.heap.get(v.args[0])
            if r is not None and r.kind == "arr" and r.val is not None and r.val.id not in self.origin:
                self.origin[r.val.id] = self.site(n)
        return v

    def e_Constant(self, st, n):
        return const(n.value)

    def e_Name(self, st, n):
        return self.lookup(st, n.id, n)

    def e_Attribute(self, st, n):
        v = self.eval(st, n.value)
        if st.dead:
            return BOT
        return self.getattr(st, v, n.attr, n)

    def e_Tuple(self, st, n):
        return T("tuple", *self.eval_elts(st, n.elts))

    def e_List(self, st, n):
        return self.newlist(st, self.eval_elts(st, n.elts))

    def e_Set(self, st, n):
        return self.alloc(st, RSet([(TRUE, x) for x in self.eval_elts(st, n.elts)]))

    def eval_elts(self, st, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(st, e.value)
                l = self.iterate(st, v)
                if l is None or any(g is not TRUE for g, _ in l):
                    out.append(self.unsupported(st, "star", e))
                else:
                    out.extend(x for _, x in l)
            else:
                out.append(self.eval(st, e))
            if st.dead:
                return []
        return out

    def e_Dict(self, st, n):
        d = self.alloc(st, RDict([]))
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(st, v)
                if st.dead:
                    return BOT
                self.lib.call_method(self, st, d, "update", [o], {}, n)
            else:
                kv = self.eval(st, k)
                vv = self.eval(st, v)
                if st.dead:
                    return BOT
                self.setitem(st, d, kv, vv, n)
        return d

    def e_Lambda(self, st, n):
        return self.make_closure(st, n, "<lambda>")

    def e_JoinedStr(self, st, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.FormattedValue):
                v = self.eval(st, p.value)
                if st.dead:
                    return BOT
                parts.append(self.pure(st, v))
            else:
                parts.append(const(p.value))
        if all(is_const(p) for p in parts):
            return const("".join(str(cval(p)) for p in parts))
        return T("fstr", *parts)

    def e_IfExp(self, st, n):
        t = self.eval(st, n.test)
        if st.dead:
            return BOT
        c = self.truth(st, t)
        box = {}
        if c is TRUE:
            return self.eval(st, n.body)
        if c is FALSE:
            return self.eval(st, n.orelse)

        def f1(s):
            box[1] = self.eval(s, n.body)

        def f2(s):
            box[2] = self.eval(s, n.orelse)
        self.branch(st, c, f1, f2)
        return ITE(c, box.get(1, BOT), box.get(2, BOT))

    def e_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)
        v = self.eval(st, n.values[0])
        for nx in n.values[1:]:
            if st.dead:
                return BOT
            c = self.truth(st, v)
            if c is TRUE:
                if isand:
                    v = self.eval(st, nx)
                    continue
                return v
            if c is FALSE:
                if isand:
                    return v
                v = self.eval(st, nx)
                continue
            box = {}

            def go(s):
                box["v"] = self.eval(s, nx)
            if isand:
                self.branch(st, c, go, lambda s: None)
            else:
                self.branch(st, c, lambda s: None, go)
            w = box.get("v", BOT)
            if self.boolish(v) and self.boolish(w):
                # value of the connective as a truth value
                wt = self._truth(st, w) if w is not BOT else FALSE
                v = AND(c, wt) if isand else OR(c, wt)
            else:
                v = ITE(c, w, v) if isand else ITE(c, v, w)
        return v

    @staticmethod
    def boolish(v):
        return v.op in ("cmp", "and", "or", "not", "truth") and ndim(v) == 0 or (v.op == "const" and isinstance(cval(v), bool)) or (v.op == "sym" and v.args[1] == "bool") or v.op == "bot"

    def e_UnaryOp(self, st, n):
        v = self.eval(st, n.operand)
        if st.dead:
            return BOT
        if isinstance(n.op, ast.Not):
            return NOT(self.truth(st, v))
        p = self.pure(st, v)
        if isinstance(n.op, ast.USub):
            if is_const(p) and tm.num(cval(p)):
                return const(-cval(p))
            return self.mkval(st, self.map_ite(p, lambda x: const(-cval(x)) if is_const(x) and tm.num(cval(x)) else T("neg", x)) if p.op == "ite" else T("neg", p))
        if isinstance(n.op, ast.UAdd):
            return v
        if p.op in ("cmp", "and", "or", "not", "truth") and ndim(p) == 0:
            return T("inv", p)
        return self.mkval(st, T("inv", p))

    def map_ite(self, t, f):
        return self.mapped(t, f, {})

    def e_BinOp(self, st, n):
        a = self.eval(st, n.left)
        b = self.eval(st, n.right)
        if st.dead:
            return BOT
        return self.binary(st, self.OPN[type(n.op)], a, b, n)

    def binary(self, st, op, a, b, node):
        if a.op == "ite" and self.struct(st, a):
            return self.fork_cases(st, a, lambda s, x: self.binary(s, op, x, b, node))
        if b.op == "ite" and self.struct(st, b):
            return self.fork_cases(st, b, lambda s, x: self.binary(s, op, a, x, node))
        ra, rb = self.rec(st, a), self.rec(st, b)
        if ra is not None and ra.kind == "obj":
            f, c = ra.cls.lookup("__%s__" % self.DUN[op])
            if f is not None:
                return self.call(st, T("bound", f, a), [b], {}, node)
            self.emit(st, "attr-miss", (ra.cls.qual, "__%s__" % self.DUN[op]), self.site(node))
            self.raise_ext(st, "TypeError", op)
            return BOT
        if rb is not None and rb.kind == "obj":
            f, c = rb.cls.lookup("__r%s__" % self.DUN[op])
            if f is not None:
                return self.call(st, T("bound", f, b), [a], {}, node)
        if op == "+" and ra is not None and rb is not None and ra.kind == "list" and rb.kind == "list" and not ra.arr and not rb.arr:
            return self.alloc(st, RList(list(ra.items) + list(rb.items)))
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return T("tuple", *(a.args + b.args))
        if op == "*":
            for x, y, rx in ((a, b, ra), (b, a, rb)):
                if rx is not None and rx.kind == "list" and not rx.arr:
                    k = self.pure(st, y)
                    if is_const(k) and isinstance(cval(k), int):
                        return self.alloc(st, RList(list(rx.items) * cval(k)))
                    return self.alloc(st, RArr(T("bin", "*", self.pure(st, x), k)))
                if x.op == "tuple" and is_const(y):
                    return T("tuple", *(x.args * cval(y)))
        if op == "|" and ra is not None and rb is not None and ra.kind == "dict" and rb.kind == "dict":
            d = self.alloc(st, RDict(list(ra.entries), ra.default))
            self.lib.call_method(self, st, d, "update", [b], {}, node)
            return d
        if ra is not None and ra.kind == "set" and rb is not None and rb.kind == "set":
            return self.lib.set_op(self, st, op, ra, rb)
        if op == "%" and is_const(a) and isinstance(cval(a), str):
            return T("fstr", a, self.pure(st, b))
        pa, pb = self.pure(st, a), self.pure(st, b)
        for p in (pa, pb):
            if is_const(p) and cval(p) is None:
                self.emit(st, "none-arith", (op,), self.site(node))
                self.raise_ext(st, "TypeError", op)
                return BOT
        if pa.op == "ite" and is_const(pb) and all(is_const(x) for x in self.leaves(pa)):
            return self.map_ite(pa, lambda x: binop(op, x, pb))
        if pb.op == "ite" and is_const(pa) and all(is_const(x) for x in self.leaves(pb)):
            return self.map_ite(pb, lambda x: binop(op, pa, x))
        return self.mkval(st, binop(op, pa, pb))

    def leaves(self, t):
        """distinct leaves of an ite dag"""
        if t.op != "ite":
            return [t]
        r = self._leaves.get(t.id)
        if r is None:
            r = []
            for x in self.leaves(t.args[1]) + self.leaves(t.args[2]):
                if x not in r:
                    r.append(x)
            self._leaves[t.id] = r
        return r

    def mapped(self, t, f, memo):
        """ite dag with every leaf replaced"""
        if t.op != "ite":
            return f(t)
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = ITE(t.args[0], self.mapped(t.args[1], f, memo), self.mapped(t.args[2], f, memo))
        return r

    def struct(self, st, v):
        for x in self.leaves(v):
            r = self.rec(st, x)
            if r is not None and r.kind in ("obj", "list", "dict", "set", "ext") or x.op == "tuple":
                return True
        return False

    CMPN = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
            ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def e_Compare(self, st, n):
        a = self.eval(st, n.left)
        res = None
        for o, c in zip(n.ops, n.comparators):
            b = self.eval(st, c)
            if st.dead:
                return BOT
            r = self.comparison(st, self.CMPN[type(o)], a, b, n)
            if st.dead:
                return BOT
            if res is None:
                res = r
            else:
                res = AND(self.truth(st, res), self.truth(st, r))
            a = b
        return res

    def comparison(self, st, op, a, b, node):
        if op in ("is not", "not in"):
            return NOT(self.truth(st, self.comparison(st, {"is not": "is", "not in": "in"}[op], a, b, node)))
        if op == "is":
            return self.is_(st, a, b)
        if op == "in":
            return self.contains(st, a, b, node)
        # == / != / order
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if op in ("==", "!=") and (a.op == "ite") != (b.op == "ite"):
                # many alternatives, all of them scalars or None: no need to look at them one by one
                u, w = (a, b) if a.op == "ite" else (b, a)
                plain = lambda x: is_const(x) or (ndim(x) == 0 and (x.op in ("index", "bin", "neg", "rand") or (x.op == "sym" and x.args[1] in ("num", "pos", "unit", "int", "posint"))))
                if plain(w) and len(self.leaves(u)) > 4 and all(plain(x) for x in self.leaves(u)):
                    return self.simp(st, self.mapped(u, lambda x: compare(op, x, w), {}))
            if a.op == "ite" and (self.struct(st, a) or (op in ("==", "!=") and self.symbolicish(a))):
                return self.fork_cases(st, a, lambda s, x: self.comparison(s, op, x, b, node))
            if b.op == "ite" and (self.struct(st, b) or (op in ("==", "!=") and self.symbolicish(b))):
                return self.fork_cases(st, b, lambda s, x: self.comparison(s, op, a, x, node))
            ra, rb = self.rec(st, a), self.rec(st, b)
            if ra is not None and ra.kind == "obj":
                nm = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
                f, c = ra.cls.lookup(nm)
                if f is None and op == "!=":
                    f, c = ra.cls.lookup("__eq__")
                    if f is not None:
                        return NOT(self.truth(st, self.call(st, T("bound", f, a), [b], {}, node)))
                if f is not None:
                    return self.call(st, T("bound", f, a), [b], {}, node)
                if ra.cls.dataclass and op in ("==", "!=") and rb is not None and rb.kind == "obj" and rb.cls is ra.cls:
                    c = TRUE
                    for k in ra.fields:
                        c = AND(c, self.truth(st, self.comparison(st, "==", ra.fields[k], rb.fields.get(k, UNBOUND), node)))
                    return c if op == "==" else NOT(c)
                if op in ("==", "!="):
                    return const((a is b) == (op == "=="))
            if rb is not None and rb.kind in ("obj", "ext") and op in ("==", "!=") and (ra is None or ra.kind in ("obj", "ext", "list")):
                if rb.kind == "obj":
                    f, c = rb.cls.lookup("__eq__")
                    if f is not None and ra is None:
                        r = self.call(st, T("bound", f, b), [a], {}, node)
                        return r if op == "==" else NOT(self.truth(st, r))
                return const((a is b) == (op == "=="))
            tv = {"class", "closure", "bound", "ext", "module", "stub"}
            if op in ("==", "!=") and (a.op in tv or b.op in tv):
                na, nb = self.lib.canonical(a), self.lib.canonical(b)
                if na.op == "unknown" or nb.op == "unknown":
                    return T("cmp", op, na, nb)
                if na.op == "sym" or nb.op == "sym":
                    return T("cmp", op, na, nb)
                return const((na is nb) == (op == "=="))
        if a.op == "glen" or b.op == "glen":
            r = self.len_cmp(op, a, b)
            if r is not None:
                return self.simp(st, r)
        pa, pb = self.pure(st, a), self.pure(st, b)
        if op in ("==", "!=") and (pa.op == "ite" or pb.op == "ite") and ndim(pa) == 0 and ndim(pb) == 0 and len(self.leaves(pa)) * len(self.leaves(pb)) <= 24:
            la, lb = self.leaves(pa), self.leaves(pb)
            if all(is_const(x) or x.op in ("ext", "ref", "closure") for x in la + lb):
                f = lambda x: self.map_ite(pb, lambda y: compare(op, x, y))
                return self.map_ite(pa, f)
        return self.mkval(st, compare(op, pa, pb))

    def len_cmp(self, op, a, b):
        if b.op == "glen" and is_const(a):
            a, b = b, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        if a.op != "glen" or not is_const(b) or not isinstance(cval(b), (int, float)) or len(a.args[1]) > 8:
            return None
        import math
        gs, c = list(a.args[1]), cval(b)
        al = self.lib.atleast
        if op == "==":
            return AND(al(gs, c), NOT(al(gs, c + 1))) if float(c).is_integer() else FALSE
        if op == "!=":
            return NOT(self.len_cmp("==", a, b))
        if op == ">=":
            return al(gs, math.ceil(c))
        if op == ">":
            return al(gs, math.floor(c) + 1)
        if op == "<":
            return NOT(al(gs, math.ceil(c)))
        return NOT(al(gs, math.floor(c) + 1))

    def symbolicish(self, v):
        return any(x.op in ("class", "closure", "bound", "ext", "stub") or x is NONE or (is_const(x) and isinstance(cval(x), str)) for x in self.leaves(v))

    NUMOPS = ("bin", "neg", "rand", "setitem", "npattr", "kfold", "counter", "frame", "cmp", "and", "or", "not", "truth", "inv",
              "call", "method", "fstr")

    def is_(self, st, a, b):
        if a.op == "ite":
            r = self.mapped(a, lambda x: self.is_(st, x, b), {})
            if b is NONE:
                r = self.simp(st, r)
                self.none_of.setdefault(r.id, set()).add(a.id)
            return r
        if b.op == "ite":
            return self.mapped(b, lambda x: self.is_(st, a, x), {})
        a, b = self.lib.canonical(a), self.lib.canonical(b)
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            return const(type(cval(a)) == type(cval(b)) and cval(a) == cval(b))
        for x, y in ((a, b), (b, a)):
            if is_const(x) and isinstance(cval(x), bool):
                if self.boolish(y) and y.op != "const":
                    return y if cval(x) else NOT(y)
                if y.op in ("ref", "tuple", "closure", "class", "ext"):
                    return FALSE
                if y.op in ("bin", "neg", "rand"):
                    return FALSE
                if y.op == "call" and y.args[0].startswith("builtins.") and y.args[0].split(".")[1] in ("any", "all", "bool"):
                    return T("truth", y) if cval(x) else NOT(T("truth", y))
                if y.op in ("unknown",):
                    return T("cmp", "is", x, y)
                return T("cmp", "is", y, x)
            if x is NONE:
                if y.op in self.NUMOPS or y.op in ("ref", "tuple", "closure", "class", "ext", "bound", "range", "gen", "meth", "partial", "stub", "module", "lru", "dictview"):
                    return FALSE
                if y.op == "sym":
                    return const(False) if not dict(y.args[2]).get("maybe_none") else T("cmp", "is", y, x)
                if y.op == "obs":
                    return FALSE
                if y.op == "index":
                    return FALSE
                return T("cmp", "is", y, x)
        if a.op == "ref" and b.op == "ref":
            return FALSE
        if a.op in ("ref", "class", "closure", "ext") or b.op in ("ref", "class", "closure", "ext"):
            if "unknown" in (a.op, b.op) or "sym" in (a.op, b.op):
                return T("cmp", "is", a, b)
            return FALSE
        return T("cmp", "is", a, b)

    def contains(self, st, a, b, node):
        if b.op == "ite":
            return self.fork_cases(st, b, lambda s, x: self.contains(s, a, x, node))
        if b.op == "const" and isinstance(cval(b), str) and is_const(a):
            return const(cval(a) in cval(b))
        r = self.rec(st, b)
        if r is not None and r.kind == "obj":
            f, c = r.cls.lookup("__contains__")
            if f is not None:
                return self.call(st, T("bound", f, b), [a], {}, node)
        if r is not None and r.kind == "lazy":
            return unknown("in lazy list")
        if r is not None and r.kind == "arr" and self.known_len(self.arrval(st, b.args[0])) is None:
            return T("cmp", "in", self.pure(st, a), self.pure(st, b))
        if b.op == "range" and not all(is_const(x) for x in b.args):
            return T("cmp", "in", self.pure(st, a), self.pure(st, b))
        l = self.iterate(st, b)
        if l is None:
            return T("cmp", "in", self.pure(st, a), self.pure(st, b))
        out = FALSE
        for g, x in l:
            if x is a:
                c = TRUE
            else:
                c = self.truth(st, self.comparison(st, "==", x, a, node))
            out = OR(out, AND(g, c))
        return out

    def eval_index(self, st, n):
        if isinstance(n, ast.Slice):
            return self.e_Slice(st, n)
        if isinstance(n, ast.Tuple):
            return T("tuple", *[self.eval_index(st, e) for e in n.elts])
        return self.eval(st, n)

    def e_Slice(self, st, n):
        p = [self.pure(st, self.eval(st, x)) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
        return T("slice", *p)

    def e_Subscript(self, st, n):
        o = self.eval(st, n.value)
        if st.dead:
            return BOT
        i = self.eval_index(st, n.slice)
        if st.dead:
            return BOT
        return self.getitem(st, o, i, n)

    def getitem(self, st, o, i, node):
        return self.lib.getitem(self, st, o, i, node)

    def setitem(self, st, o, i, v, node):
        return self.lib.setitem(self, st, o, i, v, node)

    def e_Call(self, st, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            ctx = self.ctxs[-1]
            k = len(self.ctxs) - 1
            while k > 0 and (self.ctxs[k].cls is None):
                k -= 1
            ctx = self.ctxs[k]
            if ctx.cls is None or ctx.selfv is None:
                return self.unsupported(st, "super()", n)
            return T("super", ctx.cls.qual, ctx.selfv)
        f = self.eval(st, n.func)
        if st.dead:
            return BOT
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value)
                l = self.iterate(st, v)
                if l is None or any(g is not TRUE for g, _ in l):
                    return self.unsupported(st, "star argument", n)
                args.extend(x for _, x in l)
            else:
                args.append(self.eval(st, a))
            if st.dead:
                return BOT
        for k in n.keywords:
            v = self.eval(st, k.value)
            if st.dead:
                return BOT
            if k.arg is None:
                if v.op == "objdict":
                    v = self.lib.objdict(self, st, v)
                r = self.rec(st, v)
                if r is None or r.kind != "dict":
                    return self.unsupported(st, "double star argument", n)
                for kk, vv, g in r.entries:
                    if is_const(kk):
                        kwargs[cval(kk)] = vv
            else:
                kwargs[k.arg] = v
        self.cur = n.lineno
        return self.call(st, f, args, kwargs, n)

    # comprehensions
    def comp(self, st, n, emit):
        ctx = self.ctxs[-1]
        fid = "k%d" % self.new()
        self.parent[fid] = ctx.fid if ctx.fid != ctx.module else None
        st.frames[fid] = {}
        c2 = Ctx(fid, ctx.closure, ctx.module)
        c2.cls, c2.selfv, c2.handler = ctx.cls, ctx.selfv, ctx.handler
        c2.globals, c2.nonlocals = ctx.globals, ctx.nonlocals

        def rec(s, gens):
            if s.dead:
                return
            if not gens:
                emit(s)
                return
            g = gens[0]
            it = self.eval(s, g.iter)
            if s.dead:
                return

            def body(x, v):
                if x.dead:
                    return NONE
                self.assign(x, g.target, v)

                def conds(y, ifs):
                    if y.dead:
                        return
                    if not ifs:
                        rec(y, gens[1:])
                        return
                    t = self.eval(y, ifs[0])
                    if y.dead:
                        return
                    self.branch(y, self.truth(y, t), lambda z: conds(z, ifs[1:]), lambda z: None)
                conds(x, g.ifs)
                return NONE
            if it.op == "gen":
                self.run_gen(s, it, body)
                return
            items = self.iterate(s, it)
            if items is None:
                s2 = self.unsupported(s, "comprehension over unknown collection", n)
                raise _CompUnknown(s2)
            for gd, v in items:
                if s.dead:
                    return
                self.branch(s, self.simp(s, gd), lambda x: body(x, v), lambda x: None)
        self.ctxs.append(c2)
        try:
            rec(st, n.generators)
        finally:
            while self.ctxs[-1] is not c2:
                self.ctxs.pop()
            self.ctxs.pop()

    def e__Known(self, st, n):
        return n.v

    def e_ListComp(self, st, n):
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id:
            # [x for x in long vector] is list(long vector)
            v = self.eval(st, g.iter)
            r = self.rec(st, v) if not st.dead else None
            if r is not None and (r.kind == "lazy" or r.kind == "arr" and not r.frame and (self.known_len(self.arrval(st, v.args[0])) or 0) > 8):
                return self.lib.to_list(self, st, v, n)
            n = ast.copy_location(ast.ListComp(n.elt, [ast.comprehension(g.target, _Known(v), [], 0)]), n)
        l = self.alloc(st, RList([]))

        def emit(s):
            v = self.eval(s, n.elt)
            if not s.dead:
                r = s.heap[l.args[0]]
                s.heap[l.args[0]] = RList(r.items + [(TRUE, v)])
        try:
            self.comp(st, n, emit)
        except _CompUnknown as e:
            return e.v
        return BOT if st.dead else l

    def e_GeneratorExp(self, st, n):
        return self.e_ListComp(st, n)

    def e_SetComp(self, st, n):
        l = self.e_ListComp(st, n)
        if st.dead or l.op != "ref":
            return l
        return self.lib.call_ext(self, st, "builtins.set", [l], {}, n)

    def e_DictComp(self, st, n):
        d = self.alloc(st, RDict([]))

        def emit(s):
            k = self.eval(s, n.key)
            v = self.eval(s, n.value)
            if not s.dead:
                self.setitem(s, d, k, v, n)
        try:
            self.comp(st, n, emit)
        except _CompUnknown as e:
            return e.v
        return BOT if st.dead else d

    def e_NamedExpr(self, st, n):
        v = self.eval(st, n.value)
        if not st.dead:
            self.assign(st, n.target, v)
        return v

    def e_Starred(self, st, n):
        return self.unsupported(st, "star", n)

    def e_Yield(self, st, n):
        v = self.eval(st, n.value) if n.value is not None else NONE
        if st.dead:
            return BOT
        h = self.ctxs[-1].handler
        if h is None:
            return self.unsupported(st, "yield", n)
        return h(st, v)

    def e_YieldFrom(self, st, n):
        v = self.eval(st, n.value)
        if st.dead:
            return BOT
        h = self.ctxs[-1].handler
        if v.op == "gen":
            self.run_gen(st, v, lambda s, x: h(s, x))
            return NONE
        l = self.iterate(st, v)
        if l is None:
            return self.unsupported(st, "yield from", n)
        for g, x in l:
            if st.dead:
                break
            self.branch(st, self.simp(st, g), lambda s: h(s, x), lambda s: None)
        return NONE


class _Known(ast.expr):
    """an expression that has been evaluated already"""
    _fields = ()

    def __init__(self, v=None):
        super().__init__()
        self.v = v


class _CompUnknown(Exception):
    def __init__(self, v):
        self.v = v
