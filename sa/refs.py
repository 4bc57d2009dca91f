"""Reference resolution on the syntax tree: names, imports, attributes of the package's own objects, call signatures.

Everything reported is definite: an object whose definition cannot be found in source (C extensions, dynamic attributes,
decorated functions, star arguments) is skipped and counted.
"""
import ast
import builtins
import glob
import os
import symtable
import sys

from .program import Module

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__class__",
                                "__module__", "__qualname__", "__annotations__", "__debug__"}


def libdirs():
    out = glob.glob("/opt/venv/lib/python3*/site-packages")
    for d in sorted(glob.glob("/usr/lib/python3.*")) + [os.path.dirname(os.__file__)]:
        if os.path.isfile(os.path.join(d, "copy.py")):
            out.append(d)
    return out


class Library:
    """source of third-party modules, parsed on demand"""

    def __init__(self):
        self.dirs = libdirs()
        self.cache = {}

    def module(self, name):
        if name not in self.cache:
            self.cache[name] = self._load(name)
        return self.cache[name]

    def _load(self, name):
        rel = name.replace(".", os.sep)
        for d in self.dirs:
            for p, pkg in ((os.path.join(d, rel, "__init__.py"), True), (os.path.join(d, rel + ".py"), False)):
                if os.path.isfile(p):
                    try:
                        src = open(p, encoding="utf-8").read()
                        return Module(name, p, p, ast.parse(src, p), pkg, src)
                    except (SyntaxError, UnicodeDecodeError, ValueError):
                        return None
        return None

    def lookup(self, mod, name, depth=0):
        """definition of a module's member: ('def'|'class', node, module) | 'unknown' | 'absent'"""
        m = self.module(mod)
        if m is None or depth > 8:
            return "unknown"
        if self.module(mod + "." + name) is not None:
            return "unknown"
        res = "absent"
        for s in top_level(m.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                if s.name == "__getattr__":
                    return "unknown"
                if s.name == name:
                    res = ("def" if isinstance(s, ast.FunctionDef) else "class", s, m)
            elif isinstance(s, ast.ImportFrom):
                src = absolute(m, s)
                for a in s.names:
                    if a.name == "*":
                        r = self.lookup(src, name, depth + 1)
                        if r != "absent":
                            res = r
                    elif (a.asname or a.name) == name:
                        res = self.lookup(src, a.name, depth + 1)
                        if res == "absent":
                            res = "unknown"
            elif isinstance(s, ast.Import):
                if any((a.asname or a.name).split(".")[0] == name for a in s.names):
                    res = "unknown"
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With, ast.Delete)):
                if any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load) for x in ast.walk(s)):
                    res = "unknown"
            elif isinstance(s, ast.Expr):
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("globals", "vars", "setattr", "exec") for x in ast.walk(s)):
                    return "unknown"
        if res == "absent" and ("globals()" in m.src or "sys.modules" in m.src or "lazy" in m.src):
            return "unknown"
        return res


def top_level(body):
    for s in body:
        yield s
        for f in ("body", "orelse", "finalbody"):
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                yield from top_level(getattr(s, f, []) or [])
        for hd in getattr(s, "handlers", []) or []:
            yield from top_level(hd.body)


def absolute(m, s):
    if not s.level:
        return s.module or ""
    parts = m.name.split(".")
    if not m.is_pkg:
        parts = parts[:-1]
    if s.level > 1:
        parts = parts[:len(parts) - (s.level - 1)]
    return ".".join(parts + ([s.module] if s.module else []))


# ------------------------------------------------------------------ signatures
def signature(f, drop_first=False):
    """(positional names, number required, keyword-only names, required keyword-only, *args?, **kw?)"""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nreq = len(pos) - len(a.defaults)
    if drop_first:
        pos, nreq = pos[1:], max(nreq - 1, 0)
    konly = [x.arg for x in a.kwonlyargs]
    kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    ponly = [x.arg for x in a.posonlyargs][1 if drop_first else 0:]
    return pos, nreq, konly, kreq, a.vararg is not None, a.kwarg is not None, ponly


def bind_error(sig, call):
    pos, nreq, konly, kreq, var, kw, ponly = sig
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        # star arguments: only what is given explicitly can be wrong
        names = [k.arg for k in call.keywords if k.arg is not None]
        for n in names:
            if not kw and n not in pos + konly:
                return "has no parameter %s" % n
        return None
    n = len(call.args)
    if n > len(pos) and not var:
        return "takes %d positional arguments, %d given" % (len(pos), n)
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg in given:
            return "parameter %s given twice" % k.arg
        if k.arg in ponly or (k.arg not in pos and k.arg not in konly):
            if not kw:
                return "has no parameter %s" % k.arg
        given.add(k.arg)
    miss = [p for p in pos[:nreq] if p not in given] + [p for p in kreq if p not in given]
    if miss:
        return "parameter %s is missing" % ", ".join(miss)
    return None


TRANSPARENT = {"staticmethod", "classmethod", "abstractmethod"}


def deco_names(f):
    out = []
    for d in f.decorator_list:
        out.append(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?")
    return out


# ------------------------------------------------------------------ the package
class Refs:
    def __init__(self, prog):
        self.prog = prog
        self.lib = Library()
        self.problems = []       # (rule, (file, line, where), message)
        self.counts = {"names": 0, "imports": 0, "attributes": 0, "calls": 0, "library calls": 0, "functions": 0, "skipped": 0}
        self.classes = {}        # qual -> (module, node)
        self.bind = {}           # module -> name -> ('mod', m) | ('own', module, name) | ('ext', module, name|None)
        self.stores = set()
        mods = [m for m in prog.modules.values() if not m.path.startswith("<")]
        self.mods = {m.name: m for m in mods}
        for m in mods:
            self.bind[m.name] = self.bindings(m)
            for s in top_level(m.tree.body):
                if isinstance(s, ast.ClassDef):
                    self.classes[m.name + "." + s.name] = (m, s)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.stores.add(x.attr)

    # -------------------------------------------------- what module-level names mean
    def bindings(self, m):
        out, multi = {}, set()

        def put(n, v):
            if n in out and out[n] != v:
                multi.add(n)
            out[n] = v
        for s in top_level(m.tree.body):
            if isinstance(s, ast.ImportFrom):
                for a, v in self.from_import(m, s):
                    put(a, v)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        put(a.asname, ("mod", a.name))
                    else:
                        put(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                put(s.name, ("own", m.name, s.name))
            else:
                for x in ast.walk(s) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With, ast.While, ast.If, ast.Try)) else ():
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        put(x.id, ("value",))
        for n in multi:
            out[n] = ("value",)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                for n in x.names:
                    out[n] = ("value",)
        return out

    def from_import(self, m, s):
        src = absolute(m, s)
        for a in s.names:
            if a.name == "*":
                if src in self.mods:
                    for n in self.mods[src].defined:
                        yield n, ("value",)
                else:
                    yield "*", ("value",)
            elif src == self.prog.package or src.startswith(self.prog.package + "."):
                if src + "." + a.name in self.mods and not (src in self.mods and a.name in self.mods[src].defined):
                    yield a.asname or a.name, ("mod", src + "." + a.name)
                else:
                    yield a.asname or a.name, ("own", src, a.name)
            else:
                yield a.asname or a.name, ("ext", src, a.name)

    def resolve_own(self, mod, name, depth=0):
        """definition node of a package name, following re-exports"""
        m = self.mods.get(mod)
        if m is None or depth > 8:
            return None
        b = self.bind[mod].get(name)
        if b is None or b[0] == "value":
            return None
        if b[0] == "own":
            if b[1] == mod and b[2] == name:
                nodes = [s for s in top_level(m.tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name]
                return (m, nodes[-1]) if len(nodes) == 1 else None
            return self.resolve_own(b[1], b[2], depth + 1)
        return None

    def problem(self, rule, m, node, where, msg):
        self.problems.append((rule, (m.relpath, getattr(node, "lineno", 0), where), msg))

    # -------------------------------------------------- the analyses
    def run(self):
        for m in self.mods.values():
            self.names(m)
            self.imports(m)
            Walker(self, m).visit(m.tree)
        return self.problems

    def names(self, m):
        """every free name of every function is defined at module level or is a builtin"""
        try:
            top = symtable.symtable(m.src, m.path, "exec")
        except SyntaxError:
            return
        known = set(self.bind[m.name]) | m.defined | BUILTIN
        if "*" in known:
            return
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) and absolute(m, x) not in self.mods:
                return
        lines = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                lines.setdefault(x.id, x)
        guarded = set()      # names tested by 'except NameError'
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Try) and any(h.type is None or "NameError" in ast.dump(h.type) or "Exception'" in ast.dump(h.type) for h in x.handlers):
                for y in x.body:
                    guarded |= {z.id for z in ast.walk(y) if isinstance(z, ast.Name)}

        def rec(t, path):
            p = path + [t.get_name()] if t.get_type() != "module" else path
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                self.counts["names"] += 1
                n = s.get_name()
                glob = s.is_global() or (t.get_type() == "module")
                if glob and n not in known and n not in guarded and not (t.get_type() == "module" and s.is_assigned()):
                    if n.startswith("__") or (t.get_type() != "module" and s.is_assigned() and not s.is_declared_global()):
                        continue
                    if n not in lines:
                        continue        # only in annotations or the like
                    if self.only_annotation(m, n):
                        continue
                    self.problem("undefined-name", m, lines[n], ".".join(p), "name %s is not defined anywhere" % n)
            for c in t.get_children():
                rec(c, p)
        rec(top, [])

    def only_annotation(self, m, n):
        """local variable annotations are never evaluated"""
        skip = set()
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef):
                for s in ast.walk(f):
                    if isinstance(s, ast.AnnAssign):
                        skip |= {id(x) for x in ast.walk(s.annotation)}
        uses = [x for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
        return all(id(x) in skip for x in uses)

    def imports(self, m):
        """imports inside the package name modules and members that exist"""
        guarded = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Try):
                for y in x.body:
                    guarded |= {id(z) for z in ast.walk(y)}
            if isinstance(x, ast.If) and "TYPE_CHECKING" in ast.dump(x.test):
                for y in x.body:
                    guarded |= {id(z) for z in ast.walk(y)}
        pk = self.prog.package
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and id(x) not in guarded:
                src = absolute(m, x)
                own = src == pk or src.startswith(pk + ".")
                for a in x.names:
                    self.counts["imports"] += 1
                    if own:
                        if src not in self.mods:
                            self.problem("missing-import", m, x, m.name, "module %s does not exist" % src)
                        elif a.name != "*" and src + "." + a.name not in self.mods and a.name not in self.mods[src].defined and a.name not in self.bind[src] \
                                and "__getattr__" not in self.mods[src].defined:
                            self.problem("missing-import", m, x, m.name, "module %s has no member %s" % (src, a.name))
                    elif a.name != "*" and src and self.lib.module(src) is not None:
                        if self.lib.lookup(src, a.name) == "absent":
                            self.problem("missing-import", m, x, m.name, "library module %s has no member %s" % (src, a.name))
            elif isinstance(x, ast.Import) and id(x) not in guarded:
                for a in x.names:
                    self.counts["imports"] += 1
                    if (a.name == pk or a.name.startswith(pk + ".")) and a.name not in self.mods:
                        self.problem("missing-import", m, x, m.name, "module %s does not exist" % a.name)

    # -------------------------------------------------- classes
    def mro(self, m, c, seen=()):
        """[(module, ClassDef)], names of bases that are not in the package"""
        out, ext = [(m, c)], []
        for b in c.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve_own(m.name, b.id)
                k = self.bind[m.name].get(b.id)
                nm = b.id if k is None else (k[2] if k[0] == "ext" else b.id)
            elif isinstance(b, ast.Attribute):
                nm = b.attr
                t = self.target(m, b, {})
                r = t[1:] if t and t[0] == "own" else None
            else:
                nm = "?"
            if r and isinstance(r[1], ast.ClassDef) and r[1] not in seen:
                o, e = self.mro(r[0], r[1], tuple(seen) + (c,))
                out += o
                ext += e
            else:
                ext.append(nm)
        return out, ext

    def members(self, c):
        out = {}
        for s in top_level(c.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out[s.name] = s
            else:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out[x.id] = None
                    if isinstance(x, ast.ImportFrom) or isinstance(x, ast.Import):
                        for a in x.names:
                            out[(a.asname or a.name).split(".")[0]] = None
        return out

    def dynamic(self, c):
        for x in ast.walk(c):
            if isinstance(x, ast.FunctionDef) and x.name in ("__getattr__", "__getattribute__"):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "exec", "vars"):
                return True
            if isinstance(x, ast.Attribute) and x.attr == "__dict__" and not isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "update" and "__dict__" in ast.dump(x.func.value):
                return True
        return bool(c.keywords) or bool(c.decorator_list)

    def subclasses(self, c):
        for q, (m, k) in self.classes.items():
            o, _ = self.mro(m, k)
            if any(y is c for _, y in o):
                yield k

    def has_attr(self, m, c, name):
        """may an object of this class (or a subclass) have the attribute?"""
        o, ext = self.mro(m, c)
        real = [e for e in ext if e not in ("object", "ABC", "Generic", "NamedTuple")]
        if real and not (set(real) <= {"BaseEstimator", "RegressorMixin", "SelectorMixin", "Exception"}):
            return True
        from .lib import EXTNAMES
        if real and (name in EXTNAMES or name in ("args", "with_traceback", "_parameter_constraints", "_validate_params")):
            return True
        if name in self.stores or hasattr(object, name):
            return True
        for _, k in o:
            if self.dynamic(k) or name in self.members(k):
                return True
        for k in self.subclasses(c):
            if self.dynamic(k) or name in self.members(k):
                return True
        return False

    def method(self, m, c, name):
        """the function a method name resolves to, None when that cannot be told"""
        o, ext = self.mro(m, c)
        if name in self.stores:
            return None
        for mm, k in o:
            mem = self.members(k)
            if name in mem:
                return (mm, k, mem[name]) if isinstance(mem[name], ast.FunctionDef) else None
        return None

    def constructor(self, m, c):
        """('sig', signature) | ('none',) no arguments | None unknown"""
        o, ext = self.mro(m, c)
        if any(k.decorator_list or k.keywords for _, k in o):
            return None
        real = [e for e in ext if e not in ("object", "ABC", "BaseEstimator", "RegressorMixin", "SelectorMixin")]
        for _, k in o:
            mem = self.members(k)
            if "__new__" in mem:
                return None
            if "__init__" in mem:
                f = mem["__init__"]
                if not isinstance(f, ast.FunctionDef) or f.decorator_list:
                    return None
                return "sig", signature(f, True)
        return None if real else ("none",)

    # -------------------------------------------------- expressions
    def target(self, m, e, local):
        """what a dotted expression denotes: ('own', module, node) | ('ext', module, name) | ('mod', name) | None"""
        if isinstance(e, ast.Name):
            b = local.get(e.id) if e.id in local else self.bind[m.name].get(e.id)
            if b is None or b[0] == "value":
                return None
            if b[0] == "own":
                r = self.resolve_own(b[1], b[2])
                return ("own",) + r if r else None
            return b
        if isinstance(e, ast.Attribute):
            t = self.target(m, e.value, local)
            if t and t[0] == "ext" and t[1]:
                full = t[1] + "." + t[2]
                if self.lib.module(full) is not None:
                    t = ("mod", full)
            if t and t[0] == "mod":
                if t[1] in self.mods:
                    if t[1] + "." + e.attr in self.mods:
                        return "mod", t[1] + "." + e.attr
                    r = self.resolve_own(t[1], e.attr)
                    return ("own",) + r if r else ("missing", t[1], e.attr) if e.attr not in self.mods[t[1]].defined and e.attr not in self.bind[t[1]] \
                        and not e.attr.startswith("__") and "__getattr__" not in self.mods[t[1]].defined and e.attr not in self.stores else None
                if t[1].split(".")[0] == self.prog.package:
                    return None
                if self.lib.module(t[1] + "." + e.attr) is not None and self.lib.lookup(t[1], e.attr) in ("absent", "unknown"):
                    return "mod", t[1] + "." + e.attr
                return "ext", t[1], e.attr
        return None


class Walker(ast.NodeVisitor):
    """visits every expression with its enclosing function and class"""

    def __init__(self, refs, m):
        self.r, self.m = refs, m
        self.cls, self.fn, self.locals, self.selfname = [], [], [{}], [None]

    def where(self):
        return ".".join([self.m.name] + [c.name for c in self.cls] + [f.name for f in self.fn if hasattr(f, "name")])

    def visit_ClassDef(self, n):
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(d)
        self.cls.append(n)
        fn, self.fn = self.fn, []
        self.selfname.append(None)
        for s in n.body:
            self.visit(s)
        self.selfname.pop()
        self.fn = fn
        self.cls.pop()

    def visit_FunctionDef(self, n):
        self.r.counts["functions"] += 1
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
        loc = dict(self.locals[-1])
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        for x in names:
            loc[x] = ("value",)
        own, multi = {}, set()
        globs = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Global):
                globs |= set(x.names)
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                multi.add(x.id)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n:
                multi.add(x.name)
            if isinstance(x, ast.ExceptHandler) and x.name:
                multi.add(x.name)
            if isinstance(x, ast.Lambda):
                multi |= {y.arg for y in x.args.args + x.args.kwonlyargs + x.args.posonlyargs}
            if isinstance(x, ast.ImportFrom):
                for nm, v in self.r.from_import(self.m, x):
                    if nm in own and own[nm] != v:
                        multi.add(nm)
                    own[nm] = v
            if isinstance(x, ast.Import):
                for al in x.names:
                    own[al.asname or al.name.split(".")[0]] = ("mod", al.name if al.asname else al.name.split(".")[0])
        loc.update(own)
        for x in multi - globs:
            loc[x] = ("value",)
        deco = deco_names(n)
        sn = None
        if self.cls and not self.fn and "staticmethod" not in deco and "classmethod" not in deco and (a.posonlyargs + a.args):
            sn = (a.posonlyargs + a.args)[0].arg
            if sn in multi:
                sn = None
        elif self.fn and self.selfname[-1] and self.selfname[-1] not in names and self.selfname[-1] not in multi:
            sn = self.selfname[-1]
        self.locals.append(loc)
        self.fn.append(n)
        self.selfname.append(sn)
        if len(self.fn) == 1 and not set(deco) & {"abstractmethod", "overload"}:
            self.recursion(n, deco, sn, loc)
        for s in n.body:
            self.visit(s)
        self.selfname.pop()
        self.fn.pop()
        self.locals.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)
        self.visit(n.target)

    def visit_Lambda(self, n):
        loc = dict(self.locals[-1])
        for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]:
            loc[x.arg] = ("value",)
        for d in n.args.defaults:
            self.visit(d)
        sn = self.selfname[-1]
        self.locals.append(loc)
        self.selfname.append(None if sn in [x.arg for x in n.args.args] else sn)
        self.visit(n.body)
        self.selfname.pop()
        self.locals.pop()

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Load):
            if isinstance(n.value, ast.Name) and self.selfname[-1] == n.value.id and self.cls:
                self.r.counts["attributes"] += 1
                if not n.attr.startswith("__") and not self.hasattr_guard(n) and not self.r.has_attr(self.m, self.cls[-1], n.attr):
                    self.r.problem("missing-attribute", self.m, n, self.where(), "objects of class %s have no attribute %s" % (self.cls[-1].name, n.attr))
            else:
                t = self.r.target(self.m, n, self.locals[-1])
                if t and t[0] == "missing":
                    self.r.problem("missing-attribute", self.m, n, self.where(), "module %s has no member %s" % (t[1], t[2]))
                if t and t[0] == "own" and False:
                    pass
        self.generic_visit(n)

    def hasattr_guard(self, n):
        for f in self.fn:
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and any(isinstance(a, ast.Constant) and a.value == n.attr for a in x.args):
                    return True
                if isinstance(x, ast.ExceptHandler) and x.type is not None and "AttributeError" in ast.dump(x.type):
                    return True
        return False

    def visit_Call(self, n):
        r = self.r
        f = n.func
        done = False
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.selfname[-1] == f.value.id and self.cls:
            k = r.method(self.m, self.cls[-1], f.attr)
            # a subclass may override the method with another signature: the call is wrong when it fits none of them
            if k:
                sigs = [k]
                for sub in r.subclasses(self.cls[-1]):
                    mem = r.members(sub)
                    if sub is not self.cls[-1] and f.attr in mem:
                        sigs.append((None, sub, mem[f.attr]))
                errs = []
                for _, c, g in sigs:
                    d = set(deco_names(g)) if isinstance(g, ast.FunctionDef) else {"?"}
                    if d - TRANSPARENT:
                        errs.append(None)
                    else:
                        errs.append(bind_error(signature(g, "staticmethod" not in d), n))
                r.counts["calls"] += 1
                done = True
                if errs and all(errs):
                    r.problem("call-signature", self.m, n, self.where(), "%s.%s %s" % (k[1].name, f.attr, errs[0]))
        if not done:
            t = r.target(self.m, f, self.locals[-1])
            if t and t[0] == "own":
                node = t[2]
                if isinstance(node, ast.FunctionDef):
                    if not node.decorator_list:
                        r.counts["calls"] += 1
                        e = bind_error(signature(node), n)
                        if e:
                            r.problem("call-signature", self.m, n, self.where(), "%s %s" % (node.name, e))
                elif isinstance(node, ast.ClassDef):
                    c = r.constructor(t[1], node)
                    r.counts["calls"] += 1
                    e = None
                    if c and c[0] == "sig":
                        e = bind_error(c[1], n)
                    elif c and (n.args or n.keywords) and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
                        e = "takes no arguments"
                    if e:
                        r.problem("call-signature", self.m, n, self.where(), "%s %s" % (node.name, e))
            elif t and t[0] == "ext":
                d = r.lib.lookup(t[1], t[2])
                if d == "absent":
                    r.counts["library calls"] += 1
                    r.problem("missing-attribute", self.m, n, self.where(), "library module %s has no member %s" % (t[1], t[2]))
                elif isinstance(d, tuple) and d[0] == "def" and not d[1].decorator_list:
                    r.counts["library calls"] += 1
                    e = bind_error(signature(d[1]), n)
                    if e:
                        r.problem("library-call-signature", self.m, n, self.where(), "%s.%s %s" % (t[1], t[2], e))
                elif isinstance(d, tuple) and d[0] == "class" and not d[1].decorator_list and not d[1].keywords:
                    init = [s for s in d[1].body if isinstance(s, ast.FunctionDef) and s.name in ("__init__", "__new__")]
                    if len(init) == 1 and init[0].name == "__init__" and not init[0].decorator_list:
                        r.counts["library calls"] += 1
                        e = bind_error(signature(init[0], True), n)
                        if e:
                            r.problem("library-call-signature", self.m, n, self.where(), "%s.%s %s" % (t[1], t[2], e))
                    else:
                        r.counts["skipped"] += 1
                else:
                    r.counts["skipped"] += 1
            elif isinstance(f, ast.Attribute) and t is None and isinstance(f.value, ast.Name):
                # Class.method(object, ...)
                k = r.target(self.m, f.value, self.locals[-1])
                if k and k[0] == "own" and isinstance(k[2], ast.ClassDef):
                    g = r.method(k[1], k[2], f.attr)
                    if g:
                        d = set(deco_names(g[2]))
                        if not d - TRANSPARENT:
                            r.counts["calls"] += 1
                            e = bind_error(signature(g[2], "classmethod" in d), n)
                            if e:
                                r.problem("call-signature", self.m, n, self.where(), "%s.%s %s" % (g[1].name, f.attr, e))
                    elif not r.has_attr(k[1], k[2], f.attr) and not f.attr.startswith("__"):
                        r.problem("missing-attribute", self.m, n, self.where(), "class %s has no attribute %s" % (k[2].name, f.attr))
        self.generic_visit(n)

    # -------------------------------------------------- functions that can only call themselves
    def recursion(self, n, deco, sn, loc):
        prop = "property" in deco or "cached_property" in deco

        def is_self(e):
            if self.cls:
                if not sn:
                    return False
                if prop:
                    return isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and e.attr == n.name and isinstance(e.value, ast.Name) and e.value.id == sn
                return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == n.name and isinstance(e.func.value, ast.Name) and e.func.value.id == sn
            return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == n.name and n.name not in loc

        def must_e(e):
            """is the function called whenever the expression is evaluated?"""
            if e is None:
                return False
            if is_self(e):
                return True
            if isinstance(e, ast.BoolOp):
                return must_e(e.values[0])
            if isinstance(e, ast.IfExp):
                return must_e(e.test) or (must_e(e.body) and must_e(e.orelse))
            if isinstance(e, (ast.Lambda, ast.GeneratorExp)):
                return isinstance(e, ast.GeneratorExp) and must_e(e.generators[0].iter)
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
                return must_e(e.generators[0].iter)
            if isinstance(e, ast.Compare):
                return must_e(e.left) or must_e(e.comparators[0])
            return any(must_e(c) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr) or isinstance(c, ast.keyword)) if not isinstance(e, ast.keyword) else must_e(e.value)

        def must(body):
            """'rec': certainly calls itself, 'stop': may end without, 'fall': goes on"""
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
                    continue
                if isinstance(s, ast.If):
                    if must_e(s.test):
                        return "rec"
                    a, b = must(s.body), must(s.orelse)
                    if a == b == "rec":
                        return "rec"
                    if "stop" in (a, b):
                        return "stop"
                    if "rec" in (a, b):
                        continue        # the other branch goes on
                elif isinstance(s, (ast.For, ast.While)):
                    if must_e(s.iter if isinstance(s, ast.For) else s.test):
                        return "rec"
                    if any(isinstance(x, (ast.Return, ast.Raise, ast.Yield, ast.Break)) for x in ast.walk(s)):
                        return "stop"
                elif isinstance(s, ast.Try):
                    a = must(s.body)
                    if a == "rec" and not s.handlers:
                        return "rec"
                    if a != "fall":
                        return "stop"
                elif isinstance(s, ast.With):
                    if any(must_e(i.context_expr) for i in s.items):
                        return "rec"
                    a = must(s.body)
                    if a != "fall":
                        return a
                elif isinstance(s, ast.Return):
                    return "rec" if must_e(s.value) else "stop"
                elif isinstance(s, ast.Raise):
                    return "stop"
                else:
                    for e in ast.iter_child_nodes(s):
                        if isinstance(e, ast.expr) and must_e(e):
                            return "rec"
            return "fall"
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return
        if must(n.body) == "rec":
            self.r.problem("self-recursion", self.m, n, self.where() if self.fn else n.name, "%s can only call itself" % n.name)
