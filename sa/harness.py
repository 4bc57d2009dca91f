"""Glue between the abstract interpreter and the rules.

A rule supplies a small *client* in Python source (text).  The client is analysed together with
the package (it is interpreted abstractly, never executed): it builds symbolic data, calls the
package's public entry points and returns the values the property talks about.  The rule then
states, for one valuation of the symbols, what those values must be.
"""
import ast
import sys
import textwrap
import time

sys.setrecursionlimit(30000)

from . import terms as tm
from .terms import T, Term, const, sym, NONE, TRUE, FALSE, BOT, AND, NOT, is_const, cval, subterms
from . import evalt
from .evalt import Valuation, ev, Undecided, Vacuous, EvalError, Ref, Named, same
from .interp import Interp, St, Ctx, RObj, RList, RArr, RExt, RDict, Unsupported, ClassInfo, Budget
from .program import Program, Module


ROOT = "/repo"
START = time.time()
TOTAL = 420 if __import__("os").environ.get("VERIF_TIER") != "thorough" else 3000


class Missing(Exception):
    """a public name the property is anchored in does not exist any more"""


def matrices(v):
    for x in v:
        if isinstance(x, (list, tuple)):
            yield from matrices(x)
        elif isinstance(x, Term) and x.op == "sym" and x.args[1] == "mat":
            yield x


class Outcome:
    def __init__(self, kind, value=None, exc=None, site=None, classes=()):
        self.kind, self.value, self.exc, self.site, self.classes = kind, value, exc, site, classes

    def __repr__(self):
        return "%s %s" % (self.kind, self.exc if self.kind == "raise" else self.value)


class Run:
    def __init__(self, h, st, value, raises):
        self.h, self.it, self.st, self.value, self.raises = h, h.it, st, value, raises
        self._events = None
        self.why = None

    @property
    def events(self):
        if self._events is None:
            out, seen = [], set()
            for s in [self.st] + [r.st for r in self.raises]:
                for e in s.events():
                    if id(e) not in seen:
                        seen.add(id(e))
                        out.append(e)
            self._events = out
        return self._events

    def ev_kind(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def pure(self, v):
        return self.it.pure(self.st, v)

    def terms(self):
        out = [c for c in self.st.pc]
        for r in self.raises:
            out.extend(r.st.pc)
        if isinstance(self.value, Term):
            out.append(self.flat(self.value))
        return out

    def flat(self, v):
        """value with lists/tuples/dicts resolved into pure terms"""
        return self.it.pure(self.st, v)

    def outcome(self, env):
        """what happens under one valuation: normal completion or an exception"""
        und = None
        for r in self.raises:
            try:
                if all(evalt.truth(ev(c, env)) for c in r.st.pc):
                    c = self.it.exc_classes(r.st, r.exc)
                    if isinstance(c, ClassInfo):
                        names = [k.name for k in c.mro()] + [b.split(".")[-1] for b in c.ext_bases()]
                    else:
                        import builtins as b
                        x = getattr(b, c.split(".")[-1], None)
                        names = [k.__name__ for k in x.__mro__] if isinstance(x, type) else [c.split(".")[-1]]
                    why = ""
                    rec = self.it.rec(r.st, r.exc)
                    if rec is not None and rec.kind == "ext" and rec.args and is_const(rec.args[0]):
                        why = str(cval(rec.args[0]))
                    return Outcome("raise", exc=names[0] + (": " + why if why else ""), site=r.site, classes=names)
            except Undecided as e:
                und = e
            except EvalError:
                continue
        if und is not None:
            raise und
        if self.why:
            raise Undecided(self.why)
        if self.st.dead:
            raise Vacuous("no path")
        for c in self.st.pc:
            if not evalt.truth(ev(c, env)):
                raise Vacuous("outside the analysed bounds")
        return Outcome("ok", value=self.value)

    def get(self, env, v):
        return ev(self.flat(v), env)


class H:
    _prog = None

    def __init__(self, root=None):
        root = root or ROOT
        if H._prog is None or H._prog.root != root:
            H._prog = Program(root)
        self.prog = Program.__new__(Program)
        self.prog.root, self.prog.package = H._prog.root, H._prog.package
        self.prog.modules = dict(H._prog.modules)
        self.it = Interp(self.prog)
        self.st = St()
        self.it.load(self.st)
        self.load_events = self.st.events()
        self.load_raises = list(self.it.collectors[0])
        self.n = 0
        self.runs = []

    # -------------------------------------------------- names
    def get(self, qual):
        mod, name = qual.rsplit(".", 1)
        fr = self.st.frames.get(mod)
        if fr and name in fr:
            return fr[name]
        for m in sorted(self.st.frames):
            if isinstance(m, str) and m in self.prog.modules and name in self.prog.modules[m].defined:
                v = self.st.frames[m].get(name)
                if v is not None and v.op in ("class", "closure"):
                    return v
        raise Missing(qual)

    def qual(self, qual):
        """qualified name of a function/class as defined, or of a method 'mod.Class.meth'"""
        return qual

    # -------------------------------------------------- client code
    def client(self, text, entry="main", inject=None, args=(), st=None, imports=(), budget=45, subst=None):
        """analyse client text; returns Run of entry(*args)"""
        self.n += 1
        name = "client%d" % self.n
        it = self.it
        src = textwrap.dedent(text)
        tree = ast.parse(src, name)
        m = Module(name, name, "<client>", tree, False, src)
        self.prog.modules[name] = m
        s = (st or self.st).fork()
        it.loaded[name] = True
        it.file_of[name] = "<client>"
        fr = {"__name__": const(name)}
        for k, v in (inject or {}).items():
            fr[k] = self.lift(s, v)
        for q in imports:
            fr[q.rsplit(".", 1)[1]] = self.get(q)
        s.frames[name] = fr
        it.collectors.append([])
        it.ctxs.append(Ctx(name, None, name))
        depth = len(it.ctxs)
        ncol = len(it.collectors)
        it.deadline = min(time.time() + budget, START + TOTAL)
        v, why = BOT, None
        try:
            it.exec_block(s, tree.body)
            it.ext_subst = {k: s.frames[name][c] for k, c in (subst or {}).items()}
            f = s.frames[name].get(entry)
            if not s.dead and f is not None:
                v = it.call(s, f, [self.lift(s, a) for a in args], {})
        except Budget:
            why = "analysis budget exceeded"
        except (Unsupported, RecursionError) as e:
            why = "not analysable: %s" % (str(e) or type(e).__name__)
        if why:
            s.dead = True
            v = BOT
            del it.ctxs[depth:]
            del it.collectors[ncol:]
        it.ctxs.pop()
        raises = it.collectors.pop()
        r = Run(self, s, v, [] if why else raises)
        r.why = why
        r.mats = list(matrices(list(args) + list((inject or {}).values())))
        self.runs.append(r)
        return r

    def lift(self, st, v):
        if isinstance(v, Term):
            if v.op == "sym" and v.args[1] in ("vec", "mat", "mask"):
                return self.it.alloc(st, RArr(v, tag=v.args[0], frame=bool(dict(v.args[2]).get("frame"))))
            return v
        if callable(v):
            key = "s%d" % self.it.new()
            self.it.stubvals[key] = v
            return T("stub", key)
        if isinstance(v, (list,)):
            return self.it.newlist(st, [self.lift(st, x) for x in v])
        if isinstance(v, tuple):
            return T("tuple", *[self.lift(st, x) for x in v])
        return const(v)

    def missing_events(self):
        out = []
        for r in self.runs:
            out.extend(r.ev_kind("unsupported"))
        return out


def vec(name, **m):
    return sym(name, "vec", **m)


def mat(name, cols=2, **m):
    return sym(name, "mat", cols=cols, **m)


def where(site):
    return "%s:%s (%s)" % site if site else "?"


def blame(run, v):
    """source position that produced (the outermost part of) a value"""
    try:
        t = run.flat(v)
    except Exception:
        t = v
    todo, seen = [t], set()
    while todo:
        x = todo.pop(0)
        if x.id in seen:
            continue
        seen.add(x.id)
        s = run.it.origin.get(x.id)
        if s and not str(s[0]).startswith("<client"):
            return s
        if len(seen) > 3000:
            break
        todo.extend(tm.children(x))
    return None


# ------------------------------------------------------------------ report
class Report:
    """collects the obligations of one property"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obls = []
        self._lits = None
        self.last = time.time()
        self.violations = []
        self.undecided = []
        self.functions = set()
        self.samples = []
        self.evaluations = 0
        self.assumptions = []
        self.call_sites = 0
        self.n_events = 0

    @property
    def nval(self):
        return 60 if self.tier == "quick" else 600

    def note_run(self, run):
        it = run.it
        self.functions |= {q for q in it.analysed if q.startswith("bartpy")}
        self.call_sites = max(self.call_sites, it.sites)
        self.n_events += len(run.events)

    def violation(self, rule, site, msg, **detail):
        key = (rule, where(site) if site else "", msg[:80])
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "rule": rule, "where": where(site) if site else "?", "message": msg, "detail": detail})

    def obligation(self, name, status, **k):
        d = {"name": name, "status": status, "seconds": round(time.time() - self.last, 2)}
        self.last = time.time()
        d.update(k)
        self.obls.append(d)

    def holds(self, name, run, pred, rule=None, extra=(), rows=(5, 4, 6, 3, 2), n=None, over=None, site=None, pre=None, err_ok=False, modes=None, enough=None):
        """pred(env, outcome) for many valuations: None/True = fine, string = violated"""
        self.note_run(run)
        rule = rule or name
        pool = evalt.const_pool(list(run.terms()) + list(extra))
        if self._lits is None:
            self._lits = set(literals(lo=1, hi=5000))
        prefer = self._lits
        done = vac = und = 0
        why = None
        bad = None
        for env in evalt.valuations(n or self.nval, self.seed, pool, rows, over, modes, prefer):
            if time.time() > START + TOTAL * 1.3:
                why = why or "time limit"
                break
            try:
                for q in run.mats:
                    env.sym(q)
                if pre is not None and not pre(env):
                    vac += 1
                    continue
                o = run.outcome(env)
                r = pred(env, o)
            except Vacuous:
                vac += 1
                continue
            except Undecided as e:
                und += 1
                why = str(e)
                continue
            except EvalError as e:
                if err_ok:
                    vac += 1
                    continue
                r = "the computation fails: %s" % (str(e)[:300],)
                if "__unmodelled__" in r:
                    und += 1
                    continue
            done += 1
            self.evaluations += 1
            if enough and done >= enough and not isinstance(r, (str, tuple)):
                break
            if isinstance(r, (str, tuple)):
                msg, s = r if isinstance(r, tuple) else (r, site)
                if isinstance(s, Term):
                    s = blame(run, s)
                if s is None and isinstance(run.value, Term):
                    s = blame(run, run.value)
                bad = (msg, env, s)
                break
        if bad:
            msg, env, s = bad
            vals = {k: repr(v)[:300] for k, v in sorted(env.vals.items()) if not k.startswith("_")}
            self.violation(rule, s, msg, obligation=name, valuation=vals, rows=env.rows)
            self.obligation(name, "violated", valuations=done)
        elif done == 0:
            self.obligation(name, "undecided", why=why or "no valuation inside the analysed bounds", vacuous=vac)
            self.undecided.append((name, why or "vacuous"))
        else:
            self.obligation(name, "discharged", valuations=done, outside_bounds=vac, undecided_valuations=und)
            if len(self.samples) < 6:
                self.samples.append({"obligation": name, "valuations": done})
        return bad is None

    def fact(self, name, ok, rule=None, site=None, msg="", **detail):
        if ok is None:
            self.obligation(name, "undecided", why=msg)
            self.undecided.append((name, msg))
        elif ok:
            self.obligation(name, "discharged")
        else:
            self.violation(rule or name, site, msg, **detail)
            self.obligation(name, "violated")
        return ok


def rands(run, v):
    """the random draws a value is made of"""
    return [t for t in subterms(run.flat(v)) if t.op == "rand"]


def literals(root=None, modules=None, lo=2, hi=150):
    """integer constants the code compares, slices, takes remainders or bounds with: the sizes at which its behaviour may change"""
    root = root or ROOT
    if H._prog is None or H._prog.root != root:
        H._prog = Program(root)
    out = set()

    def add(n):
        for c in ast.walk(n):
            if isinstance(c, ast.Constant) and type(c.value) in (int, float) and lo <= abs(c.value) <= hi and float(c.value).is_integer():
                out.add(abs(int(c.value)))
    for name, m in H._prog.modules.items():
        if modules is not None and not any(name == k or name.startswith(k + ".") for k in modules):
            continue
        names = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                for t in n.targets:
                    if isinstance(t, (ast.Name, ast.Attribute)):
                        names[t.id if isinstance(t, ast.Name) else t.attr] = n.value
        for n in ast.walk(m.tree):
            parts = []
            if isinstance(n, ast.Compare):
                parts = [n.left] + n.comparators
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                parts = [n.right]
            elif isinstance(n, ast.Subscript):
                parts = [n.slice]
            elif isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")) in ("range", "min", "max", "islice", "minimum", "maximum", "clip"):
                parts = n.args
            for p in parts:
                add(p)
                for c in ast.walk(p):
                    k = c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else None
                    if k in names:
                        add(names[k])
    return sorted(out)
