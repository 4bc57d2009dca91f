"""C33 diagnostic plots show the recorded samples"""
import numpy as np
from ..harness import H, vec, mat, sym, same, literals, Vacuous, Undecided
from .common import SHAPES
from .estim import EST

EXPLAIN = """The plotting functions are analysed with stand-ins for axes, figures, seaborn's regplot and boxplot, statsmodels' qqplot and pandas'
DataFrame that only note what they are given.  A model with symbolic data, changing trees, several chains and stored series is fitted
with a stand-in tree sampler; what every plot is given is compared with the model's own samples: noise levels, smallest, mean and largest
depth, acceptance rates, residuals against predictions of the same training rows, shares of splits, thresholds and null shares.
Axes handed over are separate from the current ones, so that drawing somewhere else shows up."""

CLIENT = EST + """
from bartpy.tree import deep_copy_tree
from bartpy.diagnostics.residuals import plot_qq, plot_homoskedasity_diagnostics
from bartpy.diagnostics.sampling import plot_tree_mutation_acceptance_rate
from bartpy.diagnostics.sigma import plot_sigma_convergence
from bartpy.diagnostics.trees import plot_tree_depth
from bartpy.diagnostics.features import plot_feature_split_proportions, plot_feature_proportions_against_thresholds, plot_null_feature_importance_distributions
from bartpy.diagnostics.diagnostics import plot_diagnostics

class Ax:
    # axes that note what is drawn
    def __init__(self, name):
        self.name, self.calls = name, []
    def note(self, kind, a, k):
        self.calls.append((kind, [listed(x) for x in a], {q: listed(k[q]) for q in k}))
        return self
    def plot(self, *a, **k):
        return [self.note("plot", a, k)]
    def step(self, *a, **k):
        return [self.note("plot", a, k)]
    def scatter(self, *a, **k):
        return self.note("scatter", a, k)
    def bar(self, *a, **k):
        return self.note("bar", a, k)
    def barh(self, *a, **k):
        return self.note("barh", a, k)
    def set_yticks(self, *a, **k):
        return self.note("yticks", a, k)
    def set_yticklabels(self, *a, **k):
        return self.note("yticklabels", a, k)
    def set_title(self, *a, **k):
        return None
    def set_xlabel(self, *a, **k):
        return None
    def set_ylabel(self, *a, **k):
        return None
    def set_ylim(self, *a, **k):
        return None
    def set_xlim(self, *a, **k):
        return None
    def set_xticks(self, *a, **k):
        return None
    def set_xticklabels(self, *a, **k):
        return None
    def set(self, *a, **k):
        return None
    def legend(self, *a, **k):
        return None
    def grid(self, *a, **k):
        return None
    def axhline(self, *a, **k):
        return None
    def axvline(self, *a, **k):
        return None
    def invert_yaxis(self, *a, **k):
        return None
    def tick_params(self, *a, **k):
        return None

def listed(x):
    t = type(x)
    if t == Column:
        return [v for v in x.vals]
    if t == int or t == float or t == str or t == bool or x is None:
        return x
    if t == dict:
        return [v for v in x]
    if t == list or t == tuple or t == range or t == type({}.keys()) or t == type({}.values()):
        return [v for v in x]
    return x

class Fig:
    def suptitle(self, *a, **k):
        return None
    def tight_layout(self, *a, **k):
        return None
    def show(self, *a, **k):
        return None

CURRENT = []

class Grid:
    # a two dimensional array of axes
    def __init__(self, rows):
        self.rows = rows
    def __len__(self):
        return len(self.rows)
    def __iter__(self):
        return iter(self.rows)
    def __getitem__(self, i):
        if type(i) == tuple:
            return self.rows[i[0]][i[1]]
        return self.rows[i]
    def ravel(self):
        return [a for row in self.rows for a in row]
    def flatten(self):
        return [a for row in self.rows for a in row]
    @property
    def flat(self):
        return [a for row in self.rows for a in row]

def subplots(nrows=1, ncols=1, **k):
    fig = len(CURRENT)
    grid = [[Ax(fig) for j in range(ncols)] for i in range(nrows)]
    for row in grid:
        for a in row:
            CURRENT.append(a)
    if nrows == 1 and ncols == 1:
        return Fig(), grid[0][0]
    if nrows == 1:
        return Fig(), grid[0]
    if ncols == 1:
        return Fig(), [row[0] for row in grid]
    return Fig(), Grid(grid)

def current():
    return CURRENT[len(CURRENT) - 1]

def show(*a, **k):
    return None

def cur_plot(*a, **k):
    return current().plot(*a, **k)

def cur_scatter(*a, **k):
    return current().scatter(*a, **k)

def cur_bar(*a, **k):
    return current().bar(*a, **k)

def cur_barh(*a, **k):
    return current().barh(*a, **k)

def cur_yticks(*a, **k):
    c = current()
    c.set_yticks(a[0])
    if len(a) > 1:
        c.set_yticklabels(a[1])
    return None

def cur_text(*a, **k):
    return None

def regplot(data=None, x=None, y=None, ax=None, **k):
    a = current() if ax is None else ax
    return a.note("regplot", [x, y], {})

def qqplot(data, dist=None, ax=None, **k):
    a = current() if ax is None else ax
    a.note("qqplot", [data], {})
    return Fig()

class Column:
    def __init__(self, vals):
        self.vals = vals
    def __len__(self):
        return len(self.vals)
    def __iter__(self):
        return iter(self.vals)
    def tolist(self):
        return self.vals
    @property
    def values(self):
        return self.vals

class Stack:
    # the unstacked frame: one entry per column and row
    def __init__(self, rows):
        self.rows = rows

class Frame:
    # a frame of named columns
    def __init__(self, data):
        if type(data) == Stack:
            self.names = ["level_0", "level_1", 0]
            self.data = {"level_0": [r[0] for r in data.rows], "level_1": [r[1] for r in data.rows], 0: [r[2] for r in data.rows]}
        else:
            self.names = [k for k in data]
            self.data = {k: [v for v in data[k]] for k in data}
    def unstack(self):
        return Stack([(k, i, v) for k in self.names for i, v in enumerate(self.data[k])])
    def reset_index(self, **k):
        return self
    def drop(self, name=None, axis=1, columns=None):
        if columns is not None:
            name = columns[0] if type(columns) == list else columns
        return Frame({k: self.data[k] for k in self.names if k != name})
    def sort_values(self, by, ascending=True, **k):
        if type(by) == list:
            by = by[0]
        key = self.data[by]
        order = sorted(range(len(key)), key=lambda i: key[i], reverse=not ascending)
        return Frame({k: [self.data[k][i] for i in order] for k in self.names})
    @property
    def columns(self):
        return self.names
    @columns.setter
    def columns(self, names):
        self.data = {n: self.data[o] for n, o in zip(names, self.names)}
        self.names = names
    @property
    def name(self):
        return Column(self.data["name"])
    @property
    def counts(self):
        return Column(self.data["counts"])
    def __getitem__(self, k):
        return Column(self.data[k])

def boxplot(data=None, x=None, y=None, ax=None, **k):
    a = current() if ax is None else ax
    if type(x) == str:
        x = data[x]
    if type(y) == str:
        y = data[y]
    return a.note("boxplot", [x, y], {})

PLANS = {"grow": ["grow", "none"], "full": ["grow", "none", "grow", "prune"], "stump": ["none"], "deep": ["grow", "grow", "grow", "none", "prune"]}

def fitted(X, y, plan, cuts, nt, nc, ns, store=False):
    m = SklearnModel(tree_sampler=Scripted(PLANS[plan], cuts), n_trees=nt, n_chains=nc, n_samples=ns, n_burn=1, thin=1., n_jobs=1, initializer=None,
                     store_in_sample_predictions=store, store_acceptance_trace=True)
    m.fit(X, y)
    return m

def drawn(f, m, given):
    CURRENT.append(Ax("other"))
    if given:
        a = Ax("given")
        CURRENT.append(Ax("another"))
        got = f(m, a)
    else:
        got = f(m)
        a = current()
    return got is a, a.calls, sum([len(c.calls) for c in CURRENT if c is not a])

def series(m, X):
    depths = [[n.depth for t in s.trees for n in t.nodes] for s in m.model_samples]
    return [s.sigma.current_value() for s in m.model_samples], depths, [t["Tree"] for t in m.acceptance_trace], m.predict(X) + 0., [[n.depth for n in t.nodes if n.depth == 0] for s in m.model_samples for t in s.trees]

def plots(X, y, what, plan, cuts, nt, nc, ns, given, store):
    m = fitted(X, y, plan, cuts, nt, nc, ns, store)
    f = {"sigma": plot_sigma_convergence, "depth": plot_tree_depth, "acceptance": plot_tree_mutation_acceptance_rate, "qq": plot_qq, "fitted": plot_homoskedasity_diagnostics}[what]
    return drawn(f, m, given), series(m, X)

class Noise:
    def __init__(self, v):
        self.v = v
    def current_value(self):
        return self.v

def many(what, sig, counts, given, n, step):
    # a model holding n recorded samples
    m = Holder()
    m.model_samples, m.acceptance_trace = [], []
    for i in range(n):
        s = Holder()
        s.sigma, s.trees = Noise(sig[i % len(sig)] + i), []
        for j in range(2 if i % 4 else 3):
            t = Holder()
            t.nodes = []
            for k in range(counts[(i + j) % len(counts)]):
                d = Holder()
                d.depth = k * step + j * (i % 3)
                t.nodes.append(d)
            s.trees.append(t)
        m.model_samples.append(s)
        m.acceptance_trace.append({"Tree": sig[(i + 1) % len(sig)] * (i + 1)})
    f = {"sigma": plot_sigma_convergence, "depth": plot_tree_depth, "acceptance": plot_tree_mutation_acceptance_rate}[what]
    depths = [[q.depth for t in s.trees for q in t.nodes] for s in m.model_samples]
    return drawn(f, m, given), ([s.sigma.v for s in m.model_samples], depths, [t["Tree"] for t in m.acceptance_trace], 0., 0.)

def everything(X, y, plan, cuts, nt, nc, ns):
    m = fitted(X, y, plan, cuts, nt, nc, ns)
    CURRENT.append(Ax("other"))
    plot_diagnostics(m)
    return [c.calls for c in CURRENT], series(m, X), [c.name for c in CURRENT]

class Holder:
    pass

def shares(X, y, shapes, cuts, given):
    m = Holder()
    m.model_samples = []
    for sample in shapes:
        s = Holder()
        s.trees = [deep_copy_tree(build(stump(X, y), shape, cuts)) for shape in sample]
        m.model_samples.append(s)
    return drawn(plot_feature_split_proportions, m, given)

def against(p, t, order, given):
    a, b = {}, {}
    for i in order:
        a[i] = p[i]
    for i in range(len(t)):
        b[i] = t[i]
    def f(m, ax=None):
        return plot_feature_proportions_against_thresholds(a, b, ax)
    return drawn(f, None, given)

def null(vals, order, given):
    d = {}
    for i in order:
        d[i] = vals[i]
    def f(m, ax=None):
        return plot_null_feature_importance_distributions(d, ax)
    return drawn(f, None, given)
"""

SUB = {("matplotlib", "subplots"): "subplots", ("matplotlib", "show"): "show", ("matplotlib", "gca"): "current", ("matplotlib", "plot"): "cur_plot", ("matplotlib", "scatter"): "cur_scatter",
       ("matplotlib", "bar"): "cur_bar", ("matplotlib", "barh"): "cur_barh", ("matplotlib", "yticks"): "cur_yticks", ("matplotlib", "xlabel"): "cur_text", ("matplotlib", "ylabel"): "cur_text",
       ("matplotlib", "title"): "cur_text", ("matplotlib", "suptitle"): "cur_text", ("matplotlib", "legend"): "cur_text", ("matplotlib", "tight_layout"): "cur_text",
       ("seaborn", "regplot"): "regplot", ("seaborn", "boxplot"): "boxplot", ("statsmodels", "qqplot"): "qqplot", ("pandas", "DataFrame"): "Frame"}
FULL = {k: v for k, v in SUB.items() if k[0] != "pandas"}


def last(args, kw, key="y"):
    """the values drawn by a call to plot, scatter or bar"""
    a = [x for x in args if not isinstance(x, str)]
    if not a:
        return kw.get(key)
    return a[1] if len(a) > 1 else a[0]


def fails(o):
    if o.classes and o.classes[0] in ("KeyError", "IndexError", "ZeroDivisionError") and o.site and str(o.site[0]).startswith("bartpy"):
        return "drawing fails with %s" % o.exc, o.site
    raise Undecided("drawing fails with %s" % o.exc)


def vals(x):
    try:
        return np.asarray(list(x), dtype=float)
    except (TypeError, ValueError):
        raise Undecided("what is drawn is not a series of numbers")


def run(rep):
    X, y = mat("X"), vec("y")
    cuts = [sym("k0"), sym("k1")]
    D = "bartpy/diagnostics/"
    site = {"sigma": (D + "sigma.py", 0, "plot_sigma_convergence"), "depth": (D + "trees.py", 0, "plot_tree_depth"), "acceptance": (D + "sampling.py", 0, "plot_tree_mutation_acceptance_rate"),
            "qq": (D + "residuals.py", 0, "plot_qq"), "fitted": (D + "residuals.py", 0, "plot_homoskedasity_diagnostics"), "all": (D + "diagnostics.py", 0, "plot_diagnostics"),
            "share": (D + "features.py", 0, "plot_feature_split_proportions"), "against": (D + "features.py", 0, "plot_feature_proportions_against_thresholds"),
            "null": (D + "features.py", 0, "plot_null_feature_importance_distributions")}

    def lines(calls):
        return [(vals(last(a, k)), k.get("label")) for kind, a, k in calls if kind in ("plot", "scatter")]

    def show(what, calls, ser, Y):
        """None or what is wrong with what is drawn"""
        sg, depths, acc, p, _ = ser
        p = np.asarray(p, dtype=float)
        res = Y - p
        if not calls:
            return "nothing is drawn on the axes"
        if what in ("sigma", "acceptance"):
            ls = lines(calls)
            if not ls:
                raise Undecided("no line is drawn")
            want = vals(sg if what == "sigma" else acc)
            if not any(len(v) == len(want) and same(v, want) for v, _ in ls):
                return "the %s drawn are %s, the samples' are %s" % ("noise levels" if what == "sigma" else "acceptance rates", [list(v) for v, _ in ls], list(want))
        if what == "depth":
            ls = lines(calls)
            if not ls:
                raise Undecided("no line is drawn")
            for nm, f in (("min", min), ("mean", np.mean), ("max", max)):
                want = np.array([f(d) for d in depths], dtype=float)
                mine = [v for v, l in ls if l is None or nm in str(l).lower()]
                if not any(len(v) == len(want) and same(v, want) for v in mine):
                    return "the %s depths drawn are %s, the samples' trees have %s" % (nm, [list(v) for v in mine], list(want))
        if what == "qq":
            got = [vals(a[0]) for kind, a, k in calls if kind == "qqplot"]
            if not got:
                raise Undecided("no QQ plot is drawn")
            if not all(len(v) == len(res) and same(np.sort(v), np.sort(res)) for v in got):
                return "the residuals drawn are %s, observed minus predicted values are %s" % (list(got[0]), list(res))
        if what == "fitted":
            got = [[vals(q) for q in a] for kind, a, k in calls if kind == "regplot"] + [[vals(q) for q in a[:2]] for kind, a, k in calls if kind == "scatter" and len(a) > 1]
            if not got:
                raise Undecided("no residual plot is drawn")
            for u, v in got:
                if len(u) != len(p) or not same(u, p):
                    return "the fitted values drawn are %s, the model predicts %s" % (list(u), list(p))
                if len(v) != len(p) or not same(v, res):
                    return "the residuals drawn are %s, observed minus predicted values are %s" % (list(v), list(res))

    def placed(got, what, given):
        own, calls, elsewhere = got
        if given and elsewhere and not calls:
            return "the plot is drawn on other axes than the ones supplied", site[what]
        if given and elsewhere:
            return "part of the plot is drawn on other axes than the ones supplied", site[what]
        if not own:
            return "the axes drawn on are not returned", site[what]

    counts = [1, 3, 5, 1, 2, 7]
    sizes = sorted({1, 2, 15, 60} | {k + 2 for k in literals(modules=["bartpy.diagnostics"], lo=3, hi=600)})
    for n in sizes[:9]:
        for what in ("sigma", "depth", "acceptance"):
            for given in (True, False) if n == 15 else (True,):
                h = H()
                r = h.client(CLIENT, "many", args=[what, [sym("s%d" % i, "pos") for i in range(5)], counts, given, n, 1 + n % 2], subst=FULL, budget=60)

                def pred(env, o, r=r, what=what, given=given):
                    if o.kind != "ok":
                        return fails(o)
                    got, ser = [r.get(env, q) for q in r.value.args]
                    w = placed(got, what, given)
                    if w:
                        return w
                    w = show(what, got[1], ser, np.zeros(1))
                    if w:
                        return w, site[what]
                rep.holds("%s plot of %d samples%s" % (what, n, " on given axes" if given else ""), r, pred, rule="plot-" + what, n=5, site=site[what])

    configs = [("grow", 2, 2, 2), ("full", 1, 1, 4), ("deep", 2, 1, 3), ("stump", 2, 3, 1)]
    for plan, nt, nc, ns in configs:
        for what in ("sigma", "depth", "acceptance", "qq", "fitted"):
            for given in (True, False):
                h = H()
                store = (plan, given) in (("grow", True), ("deep", False))
                r = h.client(CLIENT, "plots", args=[X, y, what, plan, cuts, nt, nc, ns, given, store], subst=FULL)

                def pred(env, o, r=r, what=what, given=given):
                    Y = env.sym(y)
                    if len(set(Y.tolist())) < 2:
                        raise Vacuous()
                    if o.kind != "ok":
                        return fails(o)
                    got, ser = [r.get(env, q) for q in r.value.args]
                    w = placed(got, what, given)
                    if w:
                        return w
                    w = show(what, got[1], ser, Y)
                    if w:
                        return w, site[what]
                rep.holds("%s plot of %s, %d trees, %d chains, %d samples%s" % (what, plan, nt, nc, ns, " on given axes" if given else ""), r, pred, rule="plot-" + what, n=12, site=site[what])
        h = H()
        r = h.client(CLIENT, "everything", args=[X, y, plan, cuts, nt, nc, ns], subst=FULL)

        def pred(env, o, r=r):
            Y = env.sym(y)
            if len(set(Y.tolist())) < 2:
                raise Vacuous()
            if o.kind != "ok":
                return fails(o)
            axes, ser, figs = [r.get(env, q) for q in r.value.args]
            kinds = {"qq": [], "fitted": [], "line": []}
            for calls in axes:
                ks = {c[0] for c in calls}
                if "qqplot" in ks:
                    kinds["qq"].append(calls)
                elif "regplot" in ks or "scatter" in ks:
                    kinds["fitted"].append(calls)
                elif "plot" in ks:
                    kinds["line"].append(calls)
            for what in ("qq", "fitted", "sigma", "depth", "acceptance"):
                mine = kinds.get(what, kinds["line"])
                if not mine:
                    return "no %s plot is drawn" % what, site["all"]
                ws = [show(what, c, ser, Y) for c in mine]
                if all(ws):
                    return "%s: %s" % (what, ws[0]), site["all"]
            if len({repr(f) for f, c in zip(figs, axes) if c}) > 1:
                return "the overview is spread over several figures", site["all"]
        rep.holds("all diagnostics of %s, %d trees, %d chains, %d samples" % (plan, nt, nc, ns), r, pred, rule="plot-all", n=10, site=site["all"])

    c3 = [sym("c%d" % i) for i in range(3)]
    X3 = mat("X", cols=3)
    one2, one1 = [("", 2)], [("", 1)]
    for i, shapes in enumerate(([[SHAPES["one"]]], [[SHAPES["full"], SHAPES["stump"]], [SHAPES["one"], SHAPES["left"]]], [[one2, one2], [SHAPES["chain"], one1]], [[one2], [one1], [one2]])):
        for given in (True, False):
            h = H()
            r = h.client(CLIENT, "shares", args=[X3, y, shapes, c3, given], subst=SUB)
            cols = [c for s in shapes for t in s for _, c in t]

            def pred(env, o, r=r, cols=cols, given=given):
                if o.kind != "ok":
                    return fails(o)
                got = r.get(env, r.value)
                w = placed(got, "share", given)
                if w:
                    return w
                bars = [(vals(a[0]) if a else None, vals(a[1] if len(a) > 1 else k.get("width"))) for kind, a, k in got[1] if kind == "barh" and (len(a) > 1 or "width" in k)]
                labels = [list(a[0]) for kind, a, k in got[1] if kind == "yticklabels" and a] + [list(k["labels"]) for kind, a, k in got[1] if kind == "yticks" and "labels" in k]
                labels += [list(a[1]) for kind, a, k in got[1] if kind == "yticks" and len(a) > 1]
                if len(bars) != 1:
                    raise Undecided("%d bar charts" % len(bars))
                if len(labels) != 1:
                    raise Undecided("%d sets of labels" % len(labels))
                pos, w = bars[0]
                if len(w) != len(labels[0]) or (len(pos) > 1 and not same(np.diff(pos), np.ones(len(pos) - 1))):
                    raise Undecided("bars and labels do not match one to one")
                got = {int(l): v for l, v in zip(labels[0], w)}
                for c in set(cols) | set(got):
                    if not same(got.get(c, 0.), cols.count(c) / len(cols)):
                        return "the bar of column %s has length %s, its share of all splits is %s" % (c, got.get(c), cols.count(c) / len(cols)), site["share"]
            rep.holds("split shares %d%s" % (i, " on given axes" if given else ""), r, pred, rule="plot-shares", n=3, site=site["share"])

    for n, order in ((2, [1, 0]), (3, [0, 2, 1]), (4, [2, 0, 3, 1])):
        P, TH = [sym("a%d" % i) for i in range(n)], [sym("b%d" % i) for i in range(n)]
        for given in (True, False):
            h = H()
            r = h.client(CLIENT, "against", args=[P, TH, order, given], subst=SUB)

            def pred(env, o, r=r, n=n, P=P, TH=TH, given=given):
                if o.kind != "ok":
                    return fails(o)
                got = r.get(env, r.value)
                w = placed(got, "against", given)
                if w:
                    return w
                p, t = np.array([env.sym(q) for q in P]), np.array([env.sym(q) for q in TH])
                bars = [(vals(a[0]), vals(a[1])) for kind, a, k in got[1] if kind == "bar" and len(a) > 1]
                dots = [(vals(a[0]), vals(a[1]), repr(k.get("c", k.get("color")))) for kind, a, k in got[1] if kind == "scatter" and len(a) > 1]
                if len(bars) != 1 or not dots:
                    raise Undecided("%d bar charts and %d scatter plots" % (len(bars), len(dots)))
                x, v = bars[0]
                if sorted(x) != list(range(n)) or len(x) != len(v) or not same(v, 100 * t[x.astype(int)]):
                    return "the thresholds drawn are %s at %s, they are %s percent" % (list(v), list(x), list(100 * t)), site["against"]
                at = {}
                for x, v, c in dots:
                    if len(x) != len(v):
                        raise Undecided("scatter of %d and %d values" % (len(x), len(v)))
                    for i, q in zip(x, v):
                        if not same(q, 100 * p[int(i)]):
                            return "column %d is drawn at %s, its proportion is %s percent" % (i, q, 100 * p[int(i)]), site["against"]
                        at.setdefault(int(i), set()).add(c)
                if sorted(at) != list(range(n)):
                    return "the columns %s are drawn, there are %d" % (sorted(at), n), site["against"]
                if len({c for _, _, c in dots}) == len(dots) == 2:
                    up = {frozenset(at[i]) for i in range(n) if p[i] > t[i]}
                    down = {frozenset(at[i]) for i in range(n) if not p[i] > t[i]}
                    if len(up) > 1 or len(down) > 1 or up & down:
                        return "columns above and below their threshold are not told apart", site["against"]
                    g = {c for s in up for c in s} or set()
                    if g and up and "r" in next(iter(g)) and "g" not in next(iter(g)):
                        return "columns above their threshold are drawn in the colour of those below", site["against"]
            rep.holds("proportions against thresholds, %d columns%s" % (n, " on given axes" if given else ""), r, pred, rule="plot-thresholds", n=20, site=site["against"])
            V = [[sym("p%d_%d" % (c, i)) for i in range(3)] for c in range(n)]
            h = H()
            r = h.client(CLIENT, "null", args=[V, order, given], subst=SUB)

            def pred(env, o, r=r, n=n, V=V, given=given):
                if o.kind != "ok":
                    return fails(o)
                got = r.get(env, r.value)
                w = placed(got, "null", given)
                if w:
                    return w
                boxes = [(vals(a[0]), vals(a[1])) for kind, a, k in got[1] if kind == "boxplot"]
                if len(boxes) != 1 or len(boxes[0][0]) != len(boxes[0][1]):
                    raise Undecided("%d box plots" % len(boxes))
                for c in range(n):
                    have = np.sort([v for x, v in zip(*boxes[0]) if x == c])
                    want = np.sort([env.sym(q) for q in V[c]])
                    if len(have) != len(want) or not same(have, want):
                        return "the null proportions drawn for column %d are %s, they are %s" % (c, list(have), list(want)), site["null"]
            rep.holds("null distributions, %d columns%s" % (n, " on given axes" if given else ""), r, pred, rule="plot-null", n=6, site=site["null"])
