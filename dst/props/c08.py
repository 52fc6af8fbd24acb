"""C08 plots draw the settings in force, on the given axes, and change nothing."""
import contextlib
import inspect

import numpy as np

from .. import density, linear
from ..common import (
    Trap, close, draw_trap, error_of, gen_dist, kde_trap, linalg_trap, make_dist, pick,
    reset_globals, rnum, rows_equal, rs,
)
from ..core import HarnessError, Violation
from . import c05

RUNS = {"quick": 1400, "thorough": 20000}
CHUNK = 20
RULE = (
    "One run: 1-4 open figures (managed by pyplot or free-standing, one or two axes, with "
    "content of their own) and 1-4 problem objects of all kinds; 5-30 seeded calls mix changed "
    "settings, estimates, plots of any index and option subset on given axes or none, changed "
    "current figures and closed figures; a quarter of the plots fail midway in a drawing call, a "
    "density estimate or a factorisation. Non-trivial: a plot after a changed setting or a fault."
)
STEP = "one call or one change of the current figure"
MEASURE = "distinct event logs (calls, targets, options and outcomes)"
REAL = ["mud.base plot methods of all five problem classes", "mud.plot", "mud.util",
        "matplotlib (Agg)"]
STUB = ["Axes drawing methods, gaussian_kde and numpy.linalg wrapped so that the k-th call can "
        "raise; Axes contour methods recorded"]
ASSUMPTIONS = [
    "curves are compared with marginals summed over the same regular grid, up to scale; the "
    "density plots must be normalised to 1 within 2 %",
    "kernel density estimates of the reference model use scipy's gaussian_kde",
    "the current figure may become the one drawn on",
]
PROBES = ["plot failed midway", "plot after a changed setting", "free-standing figure",
          "no axes given", "marginal of a 2-D or 3-D problem", "weighted initial drawn",
          "curve suppressed", "colour bar drawn", "other figure current"]


# --------------------------------------------------------------- generation


def gen_obj(rng):
    kind = pick(rng, {"density": 5, "bayes": 3, "linear": 3, "iter": 2, "st": 2})
    if kind == "density":
        s = density.gen_problem(rng)
        s.update(n=min(s["n"], 30), p=min(s["p"], 3), d=min(s["d"], 3))
    elif kind == "bayes":
        s = {"seed": rng.randrange(2**31), "n": rng.choice([10, 20]), "p": rng.choice([1, 2, 3]),
             "d": rng.choice([1, 2, 3]), "domain": rng.choice([None, "tight", "wide"])}
    elif kind == "linear":
        s = {"seed": rng.randrange(2**31), "d": rng.choice([1, 2]), "p": 2,
             "wme": rng.random() < 0.3}
    elif kind == "iter":
        s = c05.gen_obj(rng)
        s["order"] = s["order"] or None  # no row, no line to draw
        s["p"] = 2
    else:
        s = {"seed": rng.randrange(2**31), "n": rng.choice([4, 9]), "sensors": rng.choice([4, 6]),
             "times": rng.choice([2, 5]), "p": rng.choice([1, 2])}
    s["kind"] = kind
    return s


SETTINGS = {
    "density": {"set_weights": 3, "set_initial": 2, "set_predicted": 2, "set_observed": 3,
                "mud": 1, "expected": 1},
    "bayes": {"like": 3, "prior": 2, "map": 1},
    "linear": {"assign": 3, "solve": 1},
    "iter": {"solve": 2, "errors": 1},
    "st": {"measurements": 2, "data": 1},
}
PLOTS = {
    "density": {"param": 4, "obs": 3, "qoi": 1, "p2d": 2},
    "bayes": {"param": 3, "obs": 3},
    "linear": {"sol": 3, "contours": 2, "fun": 2},
    "iter": {"chain": 2, "error": 1, "contours": 1},
    "st": {"scatter": 2, "contour": 2, "ts": 3},
}


def gen_setting(rng, objs, o):
    s = objs[o]
    kind = s["kind"]
    what = pick(rng, SETTINGS[kind])
    op = {"op": what, "o": o}
    if kind == "density":
        op = density.gen_op(rng, [s], {what: 1})
        op["o"] = o
        if what == "set_predicted" and op.get("dist") and (s["d"] > 1 or op.get("kwargs")):
            op["dist"], op["bw"] = None, None
            op.pop("kwargs", None)
    elif what == "like":
        op["dist"] = gen_dist(rng, s["d"], spread=(0.3, 1.5))
        op["log"] = rng.random() < 0.4
    elif what == "prior":
        op["dist"] = gen_dist(rng, s["p"]) if rng.random() < 0.7 else None
    elif what == "assign":
        op["field"] = rng.choice(["y", "b", "mean_i", "cov_i", "cov_o", "alpha", "A"])
        op["seed"] = rng.randrange(2**31)
    elif what == "solve":
        op["m"] = rng.choice(["mud", "map", "all", "ls"]) if kind == "linear" else "mud"
        op["k"] = rng.choice([1, 2])
    else:
        op["seed"] = rng.randrange(2**31)
    return op


def gen_plot(rng, objs, o, nfigs):
    s = objs[o]
    what = pick(rng, PLOTS[s["kind"]])
    op = {"op": "plot", "o": o, "what": what, "seed": rng.randrange(2**31),
          "ax": None if rng.random() < 0.3 else [rng.randrange(nfigs), rng.randrange(2)],
          "style": [pick(rng, {"default": 4, "custom": 3, "none": 2}) for _ in range(5)],
          "range": rng.choice([None, "array", "list"]), "aff": rng.choice([5, 8, 11]),
          "true": rng.random() < 0.5, "flag": rng.random() < 0.5,
          "i": rng.randrange(6), "j": rng.randrange(6)}
    if rng.random() < 0.25:
        op["fault"] = {"kind": pick(rng, {"draw": 5, "kde": 2, "linalg": 2}),
                       "at": rng.choice([0, 0, 1, 1, 2, 3, 5]),
                       "error": rng.choice(["injected", "memory", "value", "os"])}
    return op


def generate(rng, i, tier):
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    figs = [{"axes": rng.choice([1, 2]), "managed": rng.random() < 0.75,
             "content": rng.random() < 0.6} for _ in range(rng.choice([1, 2, 3, 4]))]
    ops, count = [], rng.choice([5, 9, 14] if tier == "quick" else [10, 18, 30])
    if rng.random() < 0.3:  # a few plots of one object drawn again and again between its settings
        o = rng.randrange(len(objs))
        pool = [gen_plot(rng, objs, o, len(figs)) for _ in range(rng.choice([1, 2, 3]))]
        for _ in range(count):
            ops.append(gen_setting(rng, objs, o) if rng.random() < 0.5 else dict(rng.choice(pool)))
        return {"objs": objs, "figs": figs, "ops": ops}
    for _ in range(count):
        o = rng.randrange(len(objs))
        kind = pick(rng, {"plot": 6, "set": 4, "current": 2, "close": 0.3, "helper": 1})
        if kind == "plot":
            ops.append(gen_plot(rng, objs, o, len(figs)))
        elif kind == "set":
            ops.append(gen_setting(rng, objs, o))
        elif kind == "helper":
            ops.append({"op": "helper", "what": rng.choice(["vert", "vecs", "dist", "contours", "chain"]),
                        "seed": rng.randrange(2**31), "ax": [rng.randrange(len(figs)), rng.randrange(2)]})
        else:
            ops.append({"op": kind, "f": rng.randrange(len(figs))})
    return {"objs": objs, "figs": figs, "ops": ops}


# ------------------------------------------------------------ looking at axes


def _b(x):
    x = np.ma.filled(np.ma.asarray(x, float), np.nan)
    return (x.shape, x.tobytes())


def ax_print(ax):
    """Everything a reader sees on these axes, as comparable data."""
    out = [("lines", [( _b(l.get_xydata()), str(l.get_color()), l.get_label()) for l in ax.lines])]
    cols = []
    for c in ax.collections:
        arr = c.get_array()
        cols.append((type(c).__name__, _b(c.get_offsets()), None if arr is None else _b(arr),
                     len(c.get_paths())))
    out.append(("collections", cols))
    out.append(("texts", [(t.get_text(), tuple(map(float, np.ravel(t.get_position())))) for t in ax.texts]))
    out.append(("patches", len(ax.patches)))
    out.append(("images", len(ax.images)))
    out.append(("labels", (ax.get_title(), ax.get_xlabel(), ax.get_ylabel())))
    out.append(("limits", (ax.get_xlim(), ax.get_ylim(), ax.get_xscale(), ax.get_yscale())))
    out.append(("legend", ax.get_legend() is None))
    return out


def fig_print(fig, skip=None):
    return [(n, ax_print(a)) for n, a in enumerate(fig.axes) if a is not skip]


class Recorder:
    """Arguments of the contour calls of one plot."""

    NAMES = ("contour", "contourf", "tricontour", "tricontourf")

    def __init__(self):
        self.calls = []

    @contextlib.contextmanager
    def on(self):
        from matplotlib.axes import Axes

        own = {n: Axes.__dict__.get(n) for n in self.NAMES}

        def wrap(name, f):
            def call(ax, *a, **k):
                self.calls.append((name, ax, [np.array(x, float) for x in a[:3]
                                              if not isinstance(x, (str, bytes))], dict(k)))
                return f(ax, *a, **k)

            return call

        for n in self.NAMES:
            setattr(Axes, n, wrap(n, getattr(Axes, n)))
        try:
            yield
        finally:
            for n, f in own.items():
                if f is None:
                    delattr(Axes, n)
                else:
                    setattr(Axes, n, f)


def style(fn, names, styles, always=()):
    """Option arguments for a plot call, and the label each drawn item carries
    (None where the option suppresses it)."""
    kw, labels = {}, {}
    sig = inspect.signature(fn).parameters
    for name, s in zip(names, styles):
        if s == "none" and name in always:
            s = "custom"
        if s == "default":
            d = sig[name].default if name in sig else None
            labels[name] = None if d is None else d.get("label", "?")
            if d is not None and "label" not in d:
                s = "custom"
        if s == "custom":
            kw[name] = {"color": "#12%02x56" % (16 + 7 * len(kw)), "label": f"the {name}"}
            labels[name] = f"the {name}"
        elif s == "none":
            kw[name] = None
            labels[name] = None
    return kw, labels


class Drawn:
    """What a plot added to its axes."""

    def __init__(self, ax, before):
        self.ax = ax
        self.lines = list(ax.lines)[before["lines"]:]
        self.collections = list(ax.collections)[before["collections"]:]
        self.texts = list(ax.texts)[before["texts"]:]
        self.calls = []

    def points(self):
        """Offsets of every scatter."""
        return [np.asarray(np.ma.filled(c.get_offsets(), np.nan), float) for c in self.collections
                if type(c).__name__ == "PathCollection"]


def counts(ax):
    if ax is None:
        return {"lines": 0, "collections": 0, "texts": 0}
    return {"lines": len(ax.lines), "collections": len(ax.collections), "texts": len(ax.texts)}


class Skip(Exception):
    """The reference model cannot say what should be drawn."""


def grid_for(ranges, idx, x, aff):
    axes = [np.linspace(lo, hi, aff)[:-1] for lo, hi in ranges]
    axes[idx] = x
    return np.meshgrid(*axes, indexing="ij")


def curve(f, ranges, idx, x, aff):
    """Marginal over coordinate idx at x, up to scale; f maps (n, dim) points
    to joint densities."""
    mesh = grid_for(np.asarray(ranges, float), idx, x, aff)
    pts = np.column_stack([m.ravel() for m in mesh])
    v = np.asarray(f(pts), float).reshape(mesh[0].shape)
    return v.sum(axis=tuple(k for k in range(v.ndim) if k != idx))


def joint(d):
    return lambda pts: np.prod(np.asarray(d.pdf(pts)).reshape(pts.shape), axis=1)


def kde_of(points, weights, bw=None):
    from scipy.stats import gaussian_kde

    try:
        k = gaussian_kde(points.T, bw_method=bw, weights=weights)
    except (np.linalg.LinAlgError, ValueError):
        raise Skip("no kernel estimate")
    return lambda pts: k(pts.T)


# ------------------------------------------------------------------- clients


class Base:
    def __init__(self, sim, spec):
        self.sim, self.spec = sim, spec
        self.changed = False

    def wrong(self, what, detail):
        raise Violation("wrong-drawing", f"step {self.sim.n}: {what} of a {self.spec['kind']} "
                        f"problem: {detail}")

    def same(self, what, got, want, rtol=1e-6, atol=1e-9):
        if not close(got, want, rtol, atol):
            self.wrong(what, f"drawn {np.round(np.ravel(got)[:6], 5).tolist()} "
                       f"(shape {np.shape(got)}), in force {np.round(np.ravel(want)[:6], 5).tolist()} "
                       f"(shape {np.shape(want)})")

    def by_label(self, what, drawn, labels):
        """The line of each label; every other new line is a violation."""
        want = {k: v for k, v in labels.items() if v is not None}
        out = {}
        left = list(drawn.lines)
        for k, lab in want.items():
            hits = [l for l in left if l.get_label() == lab]
            if len(hits) != 1:
                self.wrong(what, f"{len(hits)} lines labelled {lab!r}, one expected "
                           f"(drawn: {[l.get_label() for l in drawn.lines]})")
            out[k] = hits[0]
            left.remove(hits[0])
        if left:
            self.wrong(what, f"unexpected lines {[l.get_label() for l in left]}")
        for k, v in labels.items():
            self.sim.res.probes["curve suppressed"] += v is None
        return out

    def check_colour(self, what, line, kw, name):
        if kw.get(name) and str(line.get_color()) != kw[name]["color"]:
            self.wrong(what, f"{name} colour {line.get_color()} instead of {kw[name]['color']}")

    def check_curve(self, what, line, f, ranges, idx, aff, unit):
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        lo, hi = np.asarray(ranges, float)[idx]
        eps = 1e-9 * max(1.0, hi - lo)
        if len(x) < 2 or x[0] < lo - eps or x[-1] > hi + eps or np.any(np.diff(x) <= 0) or \
                x[0] > lo + (hi - lo) / (aff - 1) or x[-1] < hi - 2.1 * (hi - lo) / (aff - 1):
            self.wrong(what, f"abscissae {x[:3].tolist()}..{x[-1:].tolist()} do not cover {lo}..{hi}")
        want = curve(f, ranges, idx, x, aff)
        if not np.all(np.isfinite(want)) or want.sum() < 1e-150:
            return
        a, b = y / np.sum(y), want / np.sum(want)
        if not np.allclose(a, b, rtol=1e-5, atol=1e-6 * np.max(b)):
            self.wrong(what, f"curve {np.round(a, 5).tolist()} but the settings in force give "
                       f"{np.round(b, 5).tolist()} (scaled to sum 1)")
        if unit and abs(np.sum(y) * (x[1] - x[0]) - 1) > 0.02:
            self.wrong(what, f"curve not normalised: area {np.sum(y) * (x[1] - x[0]):.4g}")
        self.sim.res.probes["marginal of a 2-D or 3-D problem"] += len(ranges) > 1

    def check_vertical(self, what, line, values):
        x = np.asarray(line.get_xdata(), float)
        if x.size < 2 or np.ptp(x) > 1e-12 or min(abs(x[0] - v) for v in values) > 1e-9:
            self.wrong(what, f"vertical line at {x.tolist()}, in force {values}")


class Density(Base):
    def __init__(self, sim, spec):
        super().__init__(sim, spec)
        self.c = density.Client(sim.dsim, spec)
        sim.dsim.clients[sim.count] = self.c
        self.o = sim.count
        for k in ("set_initial", "set_observed"):
            self.set({"op": k, "dist": None})

    def set(self, op):
        self.sim.dsim.step(self.sim.n, {**op, "o": self.o}, self.c)

    def ok(self):
        m = self.c.model
        if not all(m.values(s)["ok"] for s in m.states):
            raise Skip("degenerate densities")
        return m, m.states[0]

    def dists(self):
        """The densities in force."""
        from scipy.stats import norm, uniform

        m, st = self.ok()
        v = m.values(st)
        init = m.table.get(st[1])
        if init is None:
            lo, hi = m.domain[:, 0], m.domain[:, 1]
            init = uniform(loc=lo, scale=hi - lo)
        pred = m.table.get(st[2])
        w = m.table[st[0]]
        if pred is None or pred[0] == "kde":
            pr = kde_of(m.y, w, None if pred is None else pred[1])
        else:
            pr = joint(pred[1])
        ob = m.table.get(st[3])
        return {"init": joint(init), "pred": pr, "obs": joint(norm() if ob is None else ob),
                "up": kde_of(m.X, v["r"] * w), "win": kde_of(m.X, w),
                "pf": kde_of(m.y, v["r"] * w), "v": v, "m": m}

    def plot(self, op, ax):
        D, p, d = self.c.obj, self.spec["p"], self.spec["d"]
        what, i, j = op["what"], op["i"], op["j"]
        kw = {} if ax is None else {"ax": ax}
        r = rs(op["seed"])
        if what == "param":
            o, self.labels = style(type(D).plot_param_space,
                                   ["in_opts", "up_opts", "win_opts", "mud_opts", "true_opts"],
                                   op["style"])
            self.kw = o
            self.true = r.uniform(-1, 1, p)
            if op["true"]:
                kw["true_val"] = self.true.tolist() if op["flag"] else self.true
            else:
                self.labels["true_opts"] = None
            self.ranges = self.given(op, kw, "x_range", self.c.model.domain, 0.05)
            self.ylim = kw["ylim"] = 3.25 if op["flag"] else None
            return D.plot_param_space(param_idx=i % p, aff=op["aff"], **kw, **o)
        if what == "obs":
            o, self.labels = style(type(D).plot_obs_space, ["ob_opts", "pr_opts", "pf_opts"],
                                   op["style"])
            self.kw = o
            y = self.c.model.y
            self.ranges = self.given(op, kw, "y_range", np.array([y.min(axis=0), y.max(axis=0)]).T, 0.1)
            return D.plot_obs_space(obs_idx=i % d, aff=op["aff"], **kw, **o)
        if what == "qoi":
            return D.plot_qoi(idx_x=i % d, idx_y=j % d, **kw)
        if p < 2:
            raise Skip("needs two parameters")
        return D.plot_params_2d(x_1=i % p, x_2=j % p, y=(i + j) % d,
                                contours=op["flag"] and i % p != j % p, colorbar=op["true"], **kw)

    def given(self, op, kw, name, box, pad):
        box = np.asarray(box, float)
        if op["range"] is None:
            w = pad * (box[:, 1] - box[:, 0])
            return np.array([box[:, 0] - w, box[:, 1] + w]).T
        r = np.array([box[:, 0] - 0.3, box[:, 1] + 0.4]).T
        kw[name] = r.tolist() if op["range"] == "list" else r.copy()
        return r

    def check(self, op, got):
        p, d, what = self.spec["p"], self.spec["d"], op["what"]
        i, j = op["i"], op["j"]
        if what == "param":
            f = self.dists()
            idx = i % p
            lines = self.by_label("plot_param_space", got, self.labels)
            for name, key in (("in_opts", "init"), ("up_opts", "up"), ("win_opts", "win")):
                if name in lines:
                    self.check_curve(f"{name} line", lines[name], f[key], self.ranges, idx,
                                     op["aff"], True)
                    self.check_colour("plot_param_space", lines[name], self.kw, name)
            self.sim.res.probes["weighted initial drawn"] += "win_opts" in lines
            if "mud_opts" in lines:
                top = f["v"]["up"].max()
                best = f["m"].X[f["v"]["up"] >= top - 1e-7 * abs(top), idx]
                self.check_vertical("MUD line", lines["mud_opts"], best.tolist())
            if "true_opts" in lines:
                self.check_vertical("true value line", lines["true_opts"], [self.true[idx]])
            for name in ("mud_opts", "true_opts"):
                if name in lines and self.ylim is not None:
                    self.same("height of the vertical line", max(lines[name].get_ydata()), self.ylim)
        elif what == "obs":
            f = self.dists()
            lines = self.by_label("plot_obs_space", got, self.labels)
            for name, key in (("ob_opts", "obs"), ("pr_opts", "pred"), ("pf_opts", "pf")):
                if name in lines:
                    self.check_curve(f"{name} line", lines[name], f[key], self.ranges, i % d,
                                     op["aff"], True)
                    self.check_colour("plot_obs_space", lines[name], self.kw, name)
        elif what == "qoi":
            y = self.c.model.y
            self.same("plot_qoi", got.points()[0], y[:, [i % d, j % d]])
        else:
            m = self.c.model
            self.same("plot_params_2d", got.points()[0], m.X[:, [i % p, j % p]])
            self.same("plot_params_2d colours",
                      np.asarray(got.collections[0].get_array(), float), m.y[:, (i + j) % d])
            if op["flag"] and i % p != j % p:
                if not got.calls:
                    self.wrong("plot_params_2d", "no contours drawn")
                for z, w in zip(got.calls[0][2], (m.X[:, i % p], m.X[:, j % p], m.y[:, (i + j) % d])):
                    self.same("plot_params_2d contours", z.ravel(), w)

    def after(self, n):
        D, m = self.c.obj, self.c.model
        self.same("X after plotting", D.X, m.X)
        self.same("y after plotting", D.y, m.y)
        self.same("domain after plotting", np.asarray(D.domain, float), m.domain)
        for q in ("expected", "mud"):
            self.sim.dsim.step(n, {"op": q, "o": self.o}, self.c)


class Bayes(Base):
    def __init__(self, sim, spec):
        from mud.base import BayesProblem

        super().__init__(sim, spec)
        r = rs(spec["seed"])
        n, p, d = spec["n"], spec["p"], spec["d"]
        self.X = r.uniform(-1, 1, (n, p))
        self.y = self.X @ r.uniform(-1, 1, (p, d)) + 0.2 * r.normal(size=(n, d))
        dom = {None: None, "tight": [[-1.0, 1.0]] * p,
               "wide": [[-1.5 - i, 2.0 + i] for i in range(p)]}[spec["domain"]]
        lo, hi = self.X.min(axis=0), self.X.max(axis=0)
        self.domain = np.array(dom) if dom else np.array([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)]).T
        self.obj = BayesProblem(self.X, self.y, dom) if dom else BayesProblem(self.X, self.y)
        self.set({"op": "prior", "dist": None})
        self.set({"op": "like", "dist": {"k": "norm", "loc": 0.1, "scale": 0.7}, "log": False})

    def set(self, op):
        if op["op"] == "prior":
            if op["dist"]:
                self.prior = make_dist(op["dist"])
                self.obj.set_prior(make_dist(op["dist"]))
            else:
                from scipy.stats import uniform

                lo, hi = self.domain[:, 0], self.domain[:, 1]
                self.prior = uniform(loc=lo, scale=hi - lo)
                self.obj.set_prior()
        elif op["op"] == "like":
            self.like, self.log = make_dist(op["dist"]), op["log"]
            self.obj.set_likelihood(make_dist(op["dist"]), log=op["log"])
        else:
            self.ask()

    def post(self):
        with np.errstate(all="ignore"):
            lp = np.asarray(self.prior.logpdf(self.X)).reshape(self.X.shape).sum(axis=1)
            ll = np.asarray(self.like.logpdf(self.y)).reshape(self.y.shape).sum(axis=1)
        t = lp + ll
        if not np.max(t) > -600:
            raise Skip("posterior vanishes")
        return t

    def ask(self):
        try:
            t = self.post()
        except Skip:
            return
        k = rows_equal(self.X, self.obj.map_point())
        if not len(k) or t[k].max() < t.max() - 1e-7:
            raise Violation("estimate-changed", f"step {self.sim.n}: MAP point is row {k.tolist()}, "
                            f"in force row {int(np.argmax(t))}")

    def plot(self, op, ax):
        B, p, d = self.obj, self.spec["p"], self.spec["d"]
        kw = {} if ax is None else {"ax": ax}
        r = rs(op["seed"])
        if op["what"] == "param":
            o, self.labels = style(type(B).plot_param_space,
                                   ["pr_opts", "ps_opts", "map_opts", "true_opts"], op["style"])
            self.true = r.uniform(-1, 1, p)
            if op["true"]:
                kw["true_val"] = self.true
            else:
                self.labels["true_opts"] = None
            self.ranges = self.domain
            if op["range"]:
                self.ranges = self.domain + np.array([-0.3, 0.4])
                kw["x_range"] = self.ranges.tolist() if op["range"] == "list" else self.ranges.copy()
            self.post()
            return B.plot_param_space(param_idx=op["i"] % p, aff=op["aff"], **kw, **o)
        o, self.labels = style(type(B).plot_obs_space, ["ll_opts", "pf_opts"], op["style"])
        self.ranges = np.array([[-1.0, 1.0]] * d)
        if op["range"]:
            self.ranges = np.array([[-2.0 - k, 1.5] for k in range(d)])
            kw["y_range"] = self.ranges.tolist() if op["range"] == "list" else self.ranges.copy()
        self.post()
        return B.plot_obs_space(obs_idx=op["i"] % d, aff=op["aff"], **kw, **o)

    def check(self, op, got):
        t = self.post()
        w = np.exp(t - t.max())
        if op["what"] == "param":
            idx = op["i"] % self.spec["p"]
            lines = self.by_label("plot_param_space", got, self.labels)
            if "pr_opts" in lines:
                self.check_curve("prior", lines["pr_opts"], joint(self.prior), self.ranges, idx,
                                 op["aff"], True)
            if "ps_opts" in lines:
                self.check_curve("posterior", lines["ps_opts"], kde_of(self.X, w), self.ranges, idx,
                                 op["aff"], True)
            if "map_opts" in lines:
                self.check_vertical("MAP line", lines["map_opts"],
                                    self.X[t >= t.max() - 1e-7, idx].tolist())
            if "true_opts" in lines:
                self.check_vertical("true value line", lines["true_opts"], [self.true[idx]])
        else:
            idx = op["i"] % self.spec["d"]
            lines = self.by_label("plot_obs_space", got, self.labels)
            if "ll_opts" in lines:
                self.check_curve("likelihood", lines["ll_opts"], joint(self.like), self.ranges, idx,
                                 op["aff"], False)
            if "pf_opts" in lines:
                self.check_curve("push-forward", lines["pf_opts"], kde_of(self.y, w), self.ranges,
                                 idx, op["aff"], False)

    def after(self, n):
        self.same("X after plotting", self.obj.X, self.X)
        self.same("y after plotting", self.obj.y, self.y)
        self.same("domain after plotting", np.asarray(self.obj.domain, float), self.domain)
        self.ask()


class Linear(Base):
    FIELDS = ("A", "b", "y", "mean_i", "cov_i", "cov_o")

    def __init__(self, sim, spec):
        from mud.base import LinearGaussianProblem, LinearWMEProblem

        super().__init__(sim, spec)
        self.st = linear.arrays(spec)
        if spec["wme"]:
            r = rs(spec["seed"] + 1)
            ops = [r.uniform(0.5, 2, (3, 2)) * np.array([1, (-1) ** k]) for k in range(spec["d"])]
            data = [r.uniform(-1, 1, 3) for _ in ops]
            kw = {k: self.st[k] for k in ("mean_i", "cov_i", "cov_o")}
            self.obj = LinearWMEProblem(ops, data, 0.5, **kw)
            rows = [linear.wme_row(o, x, 0.5) for o, x in zip(ops, data)]
            self.st["A"] = np.array([a for a, _ in rows])
            self.st["b"] = np.array([[b] for _, b in rows])
            self.st["y"] = np.zeros((spec["d"], 1))
            self.st["alpha"] = 1.0
        else:
            self.obj = LinearGaussianProblem(**self.st)

    def set(self, op):
        if op["op"] == "solve":
            self.obj.solve(op["m"])
            return
        f = op["field"]
        new = linear.arrays({**self.spec, "seed": op["seed"]})[f]
        self.st[f] = new
        setattr(self.obj, f, np.array(new) if f != "alpha" else new)

    def plot(self, op, ax):
        L, d = self.obj, self.spec["d"]
        kw = {} if ax is None else {"ax": ax}
        r = rs(op["seed"])
        if op["what"] == "sol":
            self.point = ["mud", "map", "ls", "mud_alt", "initial"][op["i"] % 5]
            if op["style"][0] == "custom":
                kw["pt_opts"] = {"color": "g", "s": 30}
            if op["style"][1] == "none":
                kw["ln_opts"] = None
            if op["flag"]:
                kw["label"] = "my label"
            if op["true"]:
                kw["note_loc"] = (0.25, 0.75)
            return L.plot_sol(point=self.point, **kw)
        if op["what"] == "contours":
            self.ref = None
            if op["true"]:
                self.ref = r.uniform(-1, 1, (2, 1))
                kw["ref"] = self.ref.ravel() if op["flag"] else self.ref
            self.subset = list(range(d))
            if op["style"][0] == "custom":
                self.subset = [op["i"] % d]
                kw["subset"] = self.subset
            self.w = kw["w"] = 1 if op["style"][1] == "default" else 2.5
            if op["style"][2] == "custom":
                kw["annotate"] = True
            return L.plot_contours(**kw)
        self.terms = ["dc", "bayes", "data", "reg"][op["i"] % 4]
        self.N, self.r = 5 + op["j"], 1 + op["i"]
        self.mesh = None
        if op["flag"]:
            g = np.linspace(-1, 1, self.N)
            self.mesh = np.array([[a, b] for b in g for a in g])
            kw["mesh"] = self.mesh
        return L.plot_fun_contours(terms=self.terms, N=self.N, r=self.r, **kw)

    def check(self, op, got):
        if op["what"] == "sol":
            m0 = self.st["mean_i"].ravel()
            want = m0 if self.point == "initial" else linear.closed(self.st, self.point)[0].ravel()
            pts = [p for p in got.points()]
            if len(pts) != 1:
                self.wrong("plot_sol", f"{len(pts)} points drawn")
            self.same(f"plot_sol {self.point} point", pts[0].ravel(), want, 1e-6, 1e-8)
            lines = [l.get_xydata() for l in got.lines]
            if self.point == "initial" or op["style"][1] == "none":
                if lines:
                    self.wrong("plot_sol", "a line was drawn that was not asked for")
            elif len(lines) != 1:
                self.wrong("plot_sol", f"{len(lines)} lines instead of one")
            else:
                ends = np.asarray(lines[0], float)
                if close(ends[0], want, 1e-6, 1e-8) and not close(ends[0], m0, 1e-6, 1e-8):
                    ends = ends[::-1]
                self.same("plot_sol line", ends, np.array([m0, want]), 1e-6, 1e-8)
            if op["flag"]:
                if [t.get_text() for t in got.texts] != ["my label"]:
                    self.wrong("plot_sol", f"labels {[t.get_text() for t in got.texts]}")
                if op["true"]:
                    self.same("plot_sol label place", got.texts[0].xy, (0.25, 0.75))
        elif op["what"] == "contours":
            ref = self.ref if self.ref is not None else linear._lstsq(
                self.st["A"], self.st["y"] - self.st["b"], rcond=None)[0]
            contour_lines(self, got, self.st["A"], np.ravel(ref), self.subset, self.w)
            if op["style"][2] == "custom":
                texts = [t.get_text() for t in got.texts]
                if texts != [str(i + 1) for i in self.subset]:
                    self.wrong("plot_contours", f"labels {texts}")
        else:
            self.fun(got)

    def fun(self, got):
        calls = [c for c in got.calls if c[0] in ("contour", "contourf", "tricontour")]
        if len(calls) != 1 or len(calls[0][2]) != 3:
            self.wrong("plot_fun_contours", f"{len(calls)} contour calls")
        x, y, z = calls[0][2]
        if x.shape != z.shape:
            x, y = np.meshgrid(x, y)
        pts = np.column_stack([x.ravel(), y.ravel()])
        if self.mesh is None:
            ends = np.array([pts.min(axis=0), pts.max(axis=0)])
            self.same("plot_fun_contours range", ends, np.array([[0, 0], [self.r, self.r]], float))
        else:
            self.same("plot_fun_contours mesh", pts[np.lexsort(pts.T)], self.mesh[np.lexsort(self.mesh.T)])
        want = self.obj.compute_functionals(pts, terms=self.terms)
        self.same(f"plot_fun_contours {self.terms}", z.ravel(), np.ravel(want))

    def after(self, n):
        for f in self.FIELDS:
            self.same(f"{f} after plotting", getattr(self.obj, f), self.st[f], 0, 0 if f not in (
                "A", "b") else 1e-9)
        self.same("alpha after plotting", self.obj.alpha, self.st["alpha"])
        m = ["mud", "map"][n % 2]
        self.same(f"{m} point after plotting", self.obj.solve(m), linear.closed(self.st, m)[0], 1e-6, 1e-8)


def contour_lines(self, got, A, ref, subset, w, extra=0):
    """One segment per row of the subset, centred at ref, along the null
    direction of the row, w to either side."""
    lines = [np.asarray(l.get_xydata(), float) for l in got.lines][extra:]
    if len(lines) != len(subset):
        self.wrong("contours", f"{len(lines)} contour lines for {len(subset)} rows")
    for seg, row in zip(lines, subset):
        a = A[row]
        nrm = np.array([-a[1], a[0]]) / np.linalg.norm(a)
        want = np.array([ref - w * nrm, ref + w * nrm])
        if not (close(seg, want, 1e-6, 1e-7) or close(seg, want[::-1], 1e-6, 1e-7)):
            self.wrong("contours", f"contour of row {row} drawn {np.round(seg, 4).tolist()}, "
                       f"in force {np.round(want, 4).tolist()}")


class Iter(Base):
    def __init__(self, sim, spec):
        super().__init__(sim, spec)
        self.c = c05.Client(spec)
        self.obj = self.c.obj
        self.starts = [0]
        self.set({"op": "solve", "k": 1})

    def set(self, op):
        if op["op"] == "solve":
            self.obj.solve(op["k"])
            self.c.chain += self.c.epochs(self.c.chain[-1], op["k"], "mud")
        else:
            self.obj.get_errors(rs(op["seed"]).uniform(-1, 1, (2, 1)))

    def plot(self, op, ax):
        kw = {} if ax is None else {"ax": ax}
        self.ref = rs(op["seed"]).uniform(-1, 1, (2, 1))
        ref = self.ref.ravel() if op["flag"] else self.ref
        if op["what"] == "chain":
            return self.obj.plot_chain(ref, **kw)
        if op["what"] == "error":
            return self.obj.plot_chain_error(ref, **kw)
        return self.obj.plot_contours(ref=ref, subset=list(self.c.order), **kw)

    def check(self, op, got):
        pts = [np.ravel(p) for p in self.c.chain]
        if op["what"] == "error":
            want = [float(np.linalg.norm(p - self.ref.ravel())) for p in pts[1:]]
            if len(got.lines) != 1:
                self.wrong("plot_chain_error", f"{len(got.lines)} lines")
            self.same("plot_chain_error", got.lines[0].get_ydata(), want)
            return
        if op["what"] == "contours":
            contour_lines(self, got, self.c.st["A"], self.ref.ravel(), self.c.order, 1)
            return
        lines = [np.asarray(l.get_xydata(), float) for l in got.lines]
        segs = {tuple(np.round(s.ravel(), 6)) for s in lines if len(s) == 2}
        for a, b in zip(pts, pts[1:]):
            k = np.round(np.concatenate([a, b]), 6)
            if not any(np.allclose(k, np.array(s), atol=2e-5) for s in segs):
                self.wrong("plot_chain", f"step {np.round(k, 4).tolist()} of the chain is not drawn")
        sc = np.concatenate(got.points()) if got.points() else np.zeros((0, 2))
        for p, name in ((pts[0], "start"), (pts[-1], "end"), (self.ref.ravel(), "reference")):
            if not np.any(np.all(np.isclose(sc, p, rtol=1e-6, atol=1e-7), axis=1)):
                self.wrong("plot_chain", f"{name} {np.round(p, 4).tolist()} is not drawn")
        k = len(self.c.order)
        contour_lines(self, got, self.c.st["A"], self.ref.ravel(), self.c.order, 1, extra=len(lines) - k)

    def after(self, n):
        pts = [s for chain in self.obj.solution_chains for s in chain[1:]]
        self.same("length of the chain after plotting", len(pts), len(self.c.chain) - 1)
        self.same("chain after plotting", np.ravel(pts), np.ravel(self.c.chain[1:]), 1e-6, 1e-7)


class Spatio(Base):
    def __init__(self, sim, spec):
        from mud.base import SpatioTemporalProblem

        super().__init__(sim, spec)
        r = rs(spec["seed"])
        n, s, t = spec["n"], spec["sensors"], spec["times"]
        self.a = {
            "sensors": r.uniform(0, 1, (s, 2)), "times": np.sort(r.uniform(0, 1, t)),
            "lam": r.uniform(-0.9, 0.9, (n, spec["p"])), "domain": np.array([[-1.0, 1.0]] * spec["p"]),
            "data": r.normal(size=(n, s * t)), "measurements": r.normal(size=s * t),
            "true_vals": r.normal(size=s * t), "std_dev": 0.1,
        }
        self.obj = T = SpatioTemporalProblem()
        for f in ("sensors", "times", "domain", "lam", "data", "true_vals", "measurements", "std_dev"):
            setattr(T, f, np.array(self.a[f]) if f != "std_dev" else 0.1)

    def set(self, op):
        f = op["op"]
        new = rs(op["seed"]).normal(size=self.a[f].shape)
        self.a[f] = new
        setattr(self.obj, f, new.copy())

    def plot(self, op, ax):
        T, s, r = self.obj, self.spec["sensors"], rs(op["seed"])
        kw = {} if ax is None else {"ax": ax}
        self.mask = None
        if op["style"][0] == "custom":
            self.mask = [int(k) for k in r.permutation(s)[:s - 1]]
            if op["what"] == "scatter":  # any selection will do, the first sensor alone included
                self.mask = [self.mask, [0], self.mask[:1], [0, 0], np.arange(s) < 1 + r.randint(s),
                             np.arange(s) == r.randint(s)][r.randint(6)]
            kw["mask"] = self.mask
        m = s if self.mask is None else len(np.arange(s)[self.mask])
        if op["what"] == "scatter":
            self.cv = None
            if op["flag"]:
                self.cv = r.normal(size=m)
                kw["c"] = self.cv
                kw["colorbar"] = op["true"]
            return T.sensor_scatter_plot(**kw)
        if op["what"] == "contour":
            nt = self.spec["times"]
            self.cv = None
            if op["flag"] or self.mask is not None or nt > 1:
                self.cv = kw["c_vals"] = r.normal(size=m)
            kw["fill"] = op["style"][1] != "none"
            kw["colorbar"] = op["true"]
            return T.sensor_contour_plot(idx=op["i"] % self.spec["n"], **kw)
        kw.pop("mask", None)
        self.sensor = op["i"] % s
        self.samples = self.times = None
        if op["style"][1] == "custom":
            self.samples = [int(k) for k in r.permutation(self.spec["n"])[:3]]
            if r.randint(3) == 0:
                self.samples = [[0], [0, 0], self.samples[:1]][r.randint(3)]
        if op["style"][2] == "custom":
            self.times = sorted(int(k) for k in r.permutation(self.spec["times"])[:2])
            if r.randint(3) == 0:
                self.times = [[0], self.times[-1:]][r.randint(2)]
        self.max = 2 if op["flag"] else 100
        return T.plot_ts(samples=self.samples, times=self.times, sensor_idx=self.sensor,
                         max_plot=self.max, **kw)

    def check(self, op, got):
        a = self.a
        xy = a["sensors"] if self.mask is None else a["sensors"][self.mask]
        if op["what"] == "scatter":
            self.same("sensor_scatter_plot", got.points()[0], xy)
            if self.cv is not None:
                self.same("sensor_scatter_plot colours", np.asarray(got.collections[0].get_array()), self.cv)
        elif op["what"] == "contour":
            c = [c for c in got.calls if c[0].startswith("tri")]
            if len(c) != 1:
                self.wrong("sensor_contour_plot", f"{len(c)} contour calls")
            if (c[0][0] == "tricontourf") != (op["style"][1] != "none"):
                self.wrong("sensor_contour_plot", "filling does not follow fill")
            z = self.cv if self.cv is not None else a["data"][op["i"] % self.spec["n"]]
            for g, w in zip(c[0][2], (xy[:, 0], xy[:, 1], z)):
                self.same("sensor_contour_plot", g.ravel(), w)
        else:
            n, s, t = self.spec["n"], self.spec["sensors"], self.spec["times"]
            d = a["data"].reshape(n, s, t)[:, self.sensor, :]
            m = a["measurements"].reshape(s, t)[self.sensor]
            tt = a["times"]
            if self.samples:
                d = d[self.samples]
            if self.times:
                d, m, tt = d[:, self.times], m[self.times], tt[self.times]
            self.same("plot_ts measurements", got.points()[0], np.column_stack([tt, m]))
            if len(got.lines) != min(self.max, len(d)):
                self.wrong("plot_ts", f"{len(got.lines)} series, {min(self.max, len(d))} expected")
            for l in got.lines:
                self.same("plot_ts times", np.ravel(l.get_xdata()), tt)
                y = np.ravel(np.asarray(l.get_ydata(), float))
                if not np.any(np.all(np.isclose(d, y), axis=1)):
                    self.wrong("plot_ts", f"series {np.round(y, 4).tolist()} is no sample of sensor "
                               f"{self.sensor}")

    def after(self, n):
        for f, v in self.a.items():
            self.same(f"{f} after plotting", np.ravel(getattr(self.obj, f)), np.ravel(v), 0, 0)


CLIENTS = {"density": Density, "bayes": Bayes, "linear": Linear, "iter": Iter, "st": Spatio}


# --------------------------------------------------------------------- run


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res, self.n = plan, res, 0
        self.count = 0
        self.dsim = density.Sim({"objs": [], "ops": [], "run": plan.get("run", 0)}, res)
        self.dsim.clients = {}

    def setup(self):
        import matplotlib.pyplot as plt
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        from matplotlib.figure import Figure

        self.figs = []
        for k, s in enumerate(self.plan["figs"]):
            if s["managed"]:
                fig = plt.figure()
            else:
                fig = Figure()
                FigureCanvasAgg(fig)
            for j in range(s["axes"]):
                ax = fig.add_subplot(1, s["axes"], j + 1)
                if s["content"]:
                    ax.plot([0, 1 + k], [j, 2.0], label="mine")
                    ax.set_title(f"figure {k} axes {j}")
            self.figs.append(fig)
        self.main = {k: list(f.axes) for k, f in enumerate(self.figs)}
        self.objs = []
        for s in self.plan["objs"]:
            self.objs.append(CLIENTS[s["kind"]](self, s))
            self.count += 1

    def everything(self):
        import matplotlib.pyplot as plt

        out = {id(f): f for f in self.figs}
        for num in plt.get_fignums():
            f = plt.figure(num) if False else plt._pylab_helpers.Gcf.figs[num].canvas.figure
            out[id(f)] = f
        return out

    def run(self):
        import matplotlib.pyplot as plt

        self.setup()
        for n, op in enumerate(self.plan["ops"]):
            self.n = n
            if op.get("o", 0) >= len(self.objs) or op.get("f", 0) >= len(self.figs):
                continue
            self.res.steps += 1
            if op["op"] == "current":
                f = self.figs[op["f"]]
                if self.plan["figs"][op["f"]]["managed"] and plt.fignum_exists(f.number):
                    plt.figure(f.number)
                    plt.sca(self.main[op["f"]][-1])
                self.res.event(n, "current", op["f"])
            elif op["op"] == "close":
                plt.close(self.figs[op["f"]])
                self.res.event(n, "close", op["f"])
            elif op["op"] == "helper":
                self.helper(n, op)
            elif op["op"] == "plot":
                self.res.ops[f"{self.objs[op['o']].spec['kind']} {op['what']}"] += 1
                self.plot(n, op)
            else:
                c = self.objs[op["o"]]
                c.set({k: v for k, v in op.items() if k != "fault"})
                c.changed = True
                self.res.ops["setting"] += 1
                self.res.event(n, op["op"], op["o"])
        self.res.nontrivial = bool(self.res.faults) or bool(
            self.res.probes["plot after a changed setting"])

    def target(self, op):
        if op["ax"] is None or op["ax"][0] >= len(self.figs):
            return None
        axes = self.main[op["ax"][0]]
        return axes[op["ax"][1] % len(axes)]

    def guarded(self, n, what, ax, call):
        """Make a drawing call; nothing but its own axes may change.  Returns
        (axes drawn on, the counts before, error)."""
        import matplotlib.pyplot as plt

        old = self.everything()
        before = {k: fig_print(f, ax) for k, f in old.items()}
        nums = set(plt.get_fignums())
        count = counts(ax)
        n_axes = len(ax.figure.axes) if ax is not None else 0
        labels = ax_print(ax) if ax is not None else None
        if ax is not None:
            self.res.probes["free-standing figure"] += getattr(ax.figure, "number", None) is None
            cur = plt._pylab_helpers.Gcf.get_active()
            self.res.probes["other figure current"] += cur is not None and cur.canvas.figure is not ax.figure
        else:
            self.res.probes["no axes given"] += 1
        err = None
        try:
            call()
        except Violation:
            raise
        except Exception as e:
            err = e
        now = self.everything()
        for k, f in old.items():
            if k not in now:
                raise Violation("figure-closed", f"step {n}: {what} closed a figure of the caller")
            after = fig_print(f, ax)
            grown = len(f.axes) - len(before[k]) - (1 if ax is not None and ax.figure is f else 0)
            if ax is not None and ax.figure is f:
                if grown > 1 or grown < 0:
                    raise Violation("other-axes", f"step {n}: {what} added {grown} axes to the figure")
                self.res.probes["colour bar drawn"] += grown == 1
                after = after[:len(before[k])] if grown else after
            if after != before[k]:
                raise Violation("other-axes", f"step {n}: {what} changed axes it was not given "
                                + diff(before[k], after))
        new = [f for k, f in now.items() if k not in old]
        if ax is not None:
            if new:
                raise Violation("new-figure", f"step {n}: {what} was given axes and made "
                                f"{len(new)} figure(s)")
            lost = ax_print(ax)
            for name in ("lines", "collections", "texts"):
                a, b = dict(labels)[name], dict(lost)[name]
                if b[:len(a)] != a:
                    raise Violation("content-lost", f"step {n}: {what} changed the {name} that were "
                                    "on the axes before")
            return ax, count, err
        if len(new) > 1 or (len(new) != 1 and err is None):
            raise Violation("new-figure", f"step {n}: {what} without axes made {len(new)} figures")
        if not new:
            return None, None, err
        if err is None and not new[0].axes:
            raise Violation("new-figure", f"step {n}: {what} made an empty figure")
        return (new[0].axes[0] if new[0].axes else None), counts(None), err

    def plot(self, n, op):
        import matplotlib.pyplot as plt

        c, fault = self.objs[op["o"]], op.get("fault")
        ax = self.target(op)
        rec, trap = Recorder(), Trap()
        what = f"{c.spec['kind']} {op['what']}"
        skipped = []

        def call():
            np.random.seed(op["seed"] % 2**32)
            with contextlib.ExitStack() as st:
                st.enter_context(rec.on())
                if fault:
                    st.enter_context({"draw": draw_trap, "kde": kde_trap,
                                      "linalg": linalg_trap}[fault["kind"]](trap))
                    trap.arm(fault["at"], error_of(fault["error"]))
                try:
                    c.plot(op, ax)
                except Skip:
                    skipped.append(1)
                finally:
                    trap.disarm()

        made = set(map(id, self.everything().values()))
        try:
            got_ax, before, err = self.guarded(n, what, ax, lambda: call())
        except Violation:
            if skipped:
                self.res.event(n, what, "skipped")
                return
            raise
        if skipped:
            self.res.event(n, what, "skipped")
            return
        if trap.fired:
            self.res.faults[f"{fault['kind']} failure in a plot"] += 1
            self.res.probes["plot failed midway"] += err is not None
        self.res.probes["plot after a changed setting"] += c.changed
        try:
            if err is not None and not trap.fired:
                try:  # is it a plot the model can do?
                    self.feasible(c)
                except Skip:
                    self.res.event(n, what, "not drawable", type(err).__name__)
                    return
                raise err
            if err is None:
                got = Drawn(got_ax, before)
                got.calls = [k for k in rec.calls if k[1] is got_ax]
                if len(got.calls) != len(rec.calls):
                    raise Violation("other-axes", f"step {n}: {what} drew contours elsewhere")
                try:
                    c.check(op, got)
                except Skip:
                    self.res.event(n, what, "unchecked")
            self.res.event(n, what, op["ax"], "failed" if err else "ok")
            c.after(n)
        finally:
            for f in list(self.everything().values()):
                if id(f) not in made:
                    plt.close(f)

    def feasible(self, c):
        """Raises Skip if the settings in force cannot be drawn."""
        if isinstance(c, Density):
            c.dists()
        elif isinstance(c, Bayes):
            t = c.post()
            w = np.exp(t - t.max())
            kde_of(c.X, w), kde_of(c.y, w)

    def helper(self, n, op):
        from mud import plot
        from matplotlib.markers import MarkerStyle
        from scipy.stats import norm
        import matplotlib.pyplot as plt

        r, ax = rs(op["seed"]), self.target(op)
        what = op["what"]
        base = Base(self, {"kind": "helper"})
        if what == "contours":  # draws on the current axes
            fig = plt.figure()
            cax = fig.add_subplot(1, 1, 1)
            A, ref = r.normal(size=(2, 2)), r.uniform(-1, 1, 2)
            kw = [{}, {"subset": [1, 0], "w": 1.5}, {"subset": [1]}][r.randint(3)]
            _, before, err = self.guarded(n, what, cax, lambda: plot.plot_contours(A, ref, **kw))
            if err:
                raise err
            contour_lines(base, Drawn(cax, before), A, ref, kw.get("subset", [0, 1]), kw.get("w", 1))
            plt.close(fig)
        elif what == "chain":
            fig = plt.figure()
            cax = fig.add_subplot(1, 1, 1)
            chain, ref = [r.uniform(0, 1, (2, 1)) for _ in range(1 + r.randint(4))], r.uniform(0, 1, (2, 1))
            _, before, err = self.guarded(n, what, cax, lambda: plot.plotChain(chain, ref))
            if err:
                raise err
            got = Drawn(cax, before)
            pts = [np.ravel(x) for x in got.points()]
            for name, x in (("first point", chain[0]), ("reference", ref)):
                if not any(close(q, np.ravel(x), 1e-6, 1e-6) for q in pts):
                    raise Violation("wrong-drawing", f"step {n}: plotChain does not mark the {name}")
            steps = [l.get_xydata() for l in got.lines if len(np.unique(np.round(l.get_xydata(), 9), axis=0)) > 1]
            if len(steps) != len(chain) - 1:
                raise Violation("wrong-drawing", f"step {n}: plotChain draws {len(steps)} steps, not {len(chain) - 1}")
            for l, a, b in zip(steps, chain, chain[1:]):
                base.same("plotChain", l, np.array([np.ravel(a), np.ravel(b)]))
            plt.close(fig)
        elif ax is None:
            return
        elif what == "vert":
            x = float(r.uniform(-1, 1))
            _, before, err = self.guarded(n, what, ax, lambda: plot.plot_vert_line(ax, x, color="r"))
            if err:
                raise err
            base.check_vertical("plot_vert_line", Drawn(ax, before).lines[0], [x])
        elif what == "vecs":
            vecs = [r.normal(size=4) for _ in range(2)]
            marks = [None, ["o", "s"], ["^", "x"]][op.get("seed", 0) % 3]
            _, before, err = self.guarded(n, what, ax, lambda: plot.plot_1D_vecs(vecs, markers=marks, ax=ax))
            if err:
                raise err
            for got, mark in zip(Drawn(ax, before).collections, marks or ()):
                want = MarkerStyle(mark)
                path = want.get_path().transformed(want.get_transform())
                if not np.allclose(got.get_paths()[0].vertices, path.vertices):
                    raise Violation("wrong-marker", f"step {n}: plot_1D_vecs does not draw with marker {mark!r}")
            for got, v in zip(Drawn(ax, before).points(), vecs):
                base.same("plot_1D_vecs", got, np.column_stack([np.arange(4), v]))
        else:
            d = norm(loc=r.uniform(-0.3, 0.3, 2), scale=r.uniform(0.5, 1, 2))
            idx = r.randint(2)
            box = [[-1.0, 1.0], [-2.0, 1.5]]
            _, before, err = self.guarded(n, what, ax, lambda: plot.plot_dist(
                d, box, ax=ax, idx=idx, source="pdf", aff=9))
            if err:
                raise err
            base.check_curve("plot_dist", Drawn(ax, before).lines[0], joint(d), box, idx, 9, True)
        self.res.event(n, "helper", what)


def diff(a, b):
    for (n, x), (_, y) in zip(a, b):
        for (name, u), (_, v) in zip(x, y):
            if u != v:
                return f"(axes {n}: {name} {str(u)[:120]} -> {str(v)[:120]})"
    return f"({len(a)} axes -> {len(b)})"


def execute(plan, res):
    reset_globals()
    try:
        Sim(plan, res).run()
    finally:
        import matplotlib.pyplot as plt

        plt.close("all")


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        rest = lambda new: {**plan, "ops": plan["ops"][:i] + [new] + plan["ops"][i + 1:]}
        if op.get("fault"):
            yield rest({a: b for a, b in op.items() if a != "fault"})
        if op.get("op") == "plot":
            for k, v in (("range", None), ("true", False), ("flag", False), ("i", 0), ("j", 0)):
                if op[k] != v:
                    yield rest({**op, k: v})
            if op["style"] != ["default"] * 5:
                yield rest({**op, "style": ["default"] * 5})
    if len(plan["objs"]) > 1 and all(op.get("o", 0) < len(plan["objs"]) - 1 for op in plan["ops"]):
        yield {**plan, "objs": plan["objs"][:-1]}
    if len(plan["figs"]) > 1 and all(op.get("f", 0) < len(plan["figs"]) - 1 and (
            op.get("ax") or [0])[0] < len(plan["figs"]) - 1 for op in plan["ops"]):
        yield {**plan, "figs": plan["figs"][:-1]}
