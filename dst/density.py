"""Simulation of density problems (C01, C02): clients drive several
DensityProblem objects through interleaved calls with faults; a reference
model of the settings in force predicts every estimate."""
import itertools

import numpy as np

from .common import (
    Interrupt, Trap, close, error_of, gen_dist, gen_unit, in_unit, interrupt_at, kde_trap, make_dist,
    pick, reset_globals, rnum, rows_equal, rs, seam_dist,
)
from .core import HarnessError, Injected, Violation

UNSET = "unset"  # never given
FITTED = "fitted"  # not given, but a fit has already settled on the default


# ------------------------------------------------------------ generation


def gen_problem(rng):
    p = pick(rng, {1: 10, 2: 8, 3: 2, 5: 1})
    d = pick(rng, {1: 12, 2: 6, 3: 2, 5: 1})
    n = rng.choice([8, 12, 20, 30, 45]) if rng.random() < 0.99 else rng.choice([300, 1100, 2300])
    spec = {
        "seed": rng.randrange(2**31), "n": n, "p": p, "d": d,
        "map": rng.choice(["linear", "square", "random"]),
        "xform": rng.choice(["array", "array", "list", "flat"]) if p == 1 else
        rng.choice(["array", "list"]),
        "yform": rng.choice(["array", "list", "flat"]) if d == 1 else "array",
        "domain": rng.choice([None, "tight", "wide", "list", None, "tight", "wide", "list", "narrow",
                              "flat" if p == 1 else "narrow"]),
        "weights": gen_weights(rng, n) if rng.random() < 0.35 else None,
        "normalize": rng.random() < 0.3, "ux": gen_unit(rng), "uy": gen_unit(rng),
    }
    return spec


def gen_weights(rng, n, like=None):
    """`like`: a weights spec of which to take a permutation or a multiple"""
    if like and rng.random() < 0.35 and like["rows"] != "n":
        return {**like, "perm": rng.choice([None, 1, 2, 3]), "times": rng.choice([1, 1, 2, 0.5, 1e-4])}
    w = {
        "seed": rng.randrange(2**31),
        "form": pick(rng, {"1d": 8, "list": 4, "2d": 4, "ones": 2, "zeros": 2, "int": 1}),
        "rows": rng.choice([1, 2, 3, 1, 2, 3, "n"]),
        "times": rng.choice([1] * 9 + [1e-4, 1e-7, 1e5]),
    }
    if w["rows"] == "n":  # a product of so many must neither vanish nor overflow
        w["times"] = 1
    return w


def make_weights(spec, n):
    if spec is None:
        return None
    r = rs(spec["seed"])
    form = spec["form"]
    if spec.get("perm") or spec.get("times", 1) != 1:
        w = np.array(make_weights({**spec, "perm": None, "times": 1}, n), float) * spec["times"]
        order = rs(spec["perm"]).permutation(n) if spec.get("perm") else np.arange(n)
        w = w[..., order]
        return w.tolist() if form == "list" else w
    if form == "bad":
        # right in number but not in form, or wrong in number
        return r.uniform(0.1, 2.0, n + spec["extra"] if spec["extra"] else (n, 1))
    if form == "ones":
        return np.ones(n)
    if form == "int":
        top = [9, 9, 700][spec["seed"] % 3]
        return r.randint(1, top, n).tolist() if spec["seed"] % 2 else r.randint(1, top, n)
    if form == "2d" and spec["rows"] == "n":  # as many sets of weights as samples
        return np.exp(r.normal(0, 0.4 / np.sqrt(n), (n, n)))
    if form == "2d":
        return r.uniform(0.3, 1.8, (spec["rows"], n))
    w = r.uniform(0.05, 2.5, n)
    if form == "zeros":
        w[r.permutation(n)[: n // 4]] = 0.0
    return w.tolist() if form == "list" else w


def make_arrays(spec):
    r = rs(spec["seed"])
    n, p, d = spec["n"], spec["p"], spec["d"]
    X = r.uniform(-1.0, 1.0, (n, p))
    M = r.uniform(-1.5, 1.5, (p, d))
    y = X @ M
    if spec["map"] == "square":
        y = y + 0.5 * (X**2) @ np.abs(M)
    y = y + r.normal(0, 0.3 if spec["map"] != "random" else 1.0, (n, d))
    if spec.get("constant_y"):
        y[:, 0] = 0.25
    dom = {
        None: None,
        "tight": np.array([[-1.0, 1.0]] * p),
        "wide": np.array([[-1.5 - 0.25 * i, 2.0 + 0.5 * i] for i in range(p)]),
        "list": [[-1.25, 1.25 + 0.5 * i] for i in range(p)],
        "narrow": np.array([[-0.8, 0.9]] * p),  # some samples lie outside
        "flat": [[-1.0, 1.5]],
    }[spec["domain"]]
    ux = spec.get("ux", 1.0)
    X, y = X * ux, y * spec.get("uy", 1.0)
    if dom is not None:
        dom = [[a * ux, b * ux] for a, b in dom] if isinstance(dom, list) else dom * ux
    return X, y, dom


OPS = {
    "set_weights": 4, "set_initial": 3, "set_predicted": 4, "set_observed": 4,
    "fit": 2, "mud": 4, "estimate": 1, "expected": 4, "plot_param": 1, "plot_obs": 1,
    "noise": 1,
}


def like(rng, objs):
    have = [s["weights"] for s in objs if s["weights"] and s["weights"]["form"] != "bad"]
    return rng.choice(have) if have else None


def gen_objs(rng, k):
    """Problem specs; some share their samples and data with another one."""
    objs = [gen_problem(rng)]
    while len(objs) < k:
        s = gen_problem(rng)
        if rng.random() < 0.4:
            t = rng.choice(objs)
            for key in ("seed", "n", "p", "d", "map", "ux", "uy"):
                s[key] = t[key]
            s["xform"], s["yform"] = t["xform"], t["yform"]
            if s["domain"] == "flat" and s["p"] > 1:
                s["domain"] = "narrow"
            if s["weights"] is not None:
                s["weights"] = gen_weights(rng, s["n"], like(rng, objs))
        objs.append(s)
    return objs


def gen_op(rng, objs, weights=None):
    kind = pick(rng, weights or OPS)
    o = rng.randrange(len(objs))
    spec = objs[o]
    op = {"op": kind, "o": o}
    if kind == "set_weights":
        op["w"] = gen_weights(rng, spec["n"], like(rng, objs)) if rng.random() < 0.85 else None
        op["normalize"] = rng.random() < 0.3
    elif kind == "set_initial":
        op["dist"] = gen_dist(rng, spec["p"], full=rng.random() < 0.6) if rng.random() < 0.7 else None
        op["dist"] = in_unit(op["dist"], spec["ux"])
    elif kind == "set_observed":
        op["dist"] = gen_dist(rng, spec["d"], full=rng.random() < 0.85) if rng.random() < 0.75 else None
        if op["dist"] and op["dist"]["k"] == "norm" and rng.random() < 0.15:  # far from all samples
            op["dist"].update(loc=rnum(rng, 4, 7), scale=rnum(rng, 0.4, 0.7))
        op["dist"] = in_unit(op["dist"], spec["uy"])
        op["explicit"] = rng.random() < 0.5
    elif kind == "set_predicted":
        gen_predicted(rng, spec, op, objs)
    elif kind == "fit":
        if rng.random() < 0.35:
            gen_predicted(rng, spec, op, objs)
    elif kind == "plot_param":
        op["i"] = rng.randrange(spec["p"])
        op["win"] = rng.random() < 0.4
    elif kind == "plot_obs":
        op["i"] = rng.randrange(spec["d"])
    elif kind == "noise":
        op["seed"] = rng.randrange(2**31)
    return op


def gen_predicted(rng, spec, op, objs):
    r = rng.random()
    if r < 0.4:
        op["dist"] = (
            gen_dist(rng, 1, spread=(0.8, 2.5))
            if spec["d"] == 1
            else {"k": "mvn", "loc": [rnum(rng, -0.5, 0.5) for _ in range(spec["d"])],
                  "scale": [rnum(rng, 0.8, 3.0) for _ in range(spec["d"])]}
        )
        if spec["d"] == 1 and op["dist"]["k"] == "norm" and rng.random() < 0.3:
            op["kwargs"] = True  # un-frozen distribution, loc/scale as keywords
        op["dist"] = in_unit(op["dist"], spec["uy"])
    else:
        op["dist"] = None
        op["bw"] = rng.choice([None, None, "scott", "silverman", 0.3, 0.7])
    if rng.random() < 0.35:
        op["w"] = gen_weights(rng, spec["n"], like(rng, objs))


# ------------------------------------------------------------------ model


class Model:
    """Settings in force: one candidate state per possible outcome."""

    def __init__(self, X, y, domain):
        self.X, self.y = np.asarray(X, float), np.asarray(y, float)
        n = len(self.X)
        self.X = self.X.reshape(n, -1)
        self.y = self.y.reshape(n, -1)
        if domain is None:
            lo, hi = self.X.min(axis=0), self.X.max(axis=0)
            pad = 0.1 * (hi - lo)
            self.domain = np.array([lo - pad, hi + pad]).T
        else:
            self.domain = np.asarray(domain, float).reshape(-1, 2)
        self.states = []
        self.cache = {}

    def weights(self, value, normalize):
        n = len(self.X)
        if value is None:
            return np.ones(n)
        w = np.asarray(value, float)
        w = w.reshape(1, -1) if w.ndim == 1 else w
        if w.shape[1] != n:
            raise HarnessError("model given bad weights")
        w = np.prod(w, axis=0)
        return w / np.sqrt(np.sum(w * w)) if normalize else w

    # a state is (w key, initial key, predicted key, observed key); keys index
    # tables of values so that states can be compared
    def values(self, st):
        if st not in self.cache:
            self.cache[st] = self._values(st)
        return self.cache[st]

    def _values(self, st):
        from scipy.stats import gaussian_kde

        w = self.table[st[0]]
        init = self.table.get(st[1])
        if init is None:
            lo, hi = self.domain[:, 0], self.domain[:, 1]
            inside = (self.X >= lo) & (self.X <= hi)
            pin = np.prod(inside / (hi - lo), axis=1)
        else:
            pin = np.prod(np.asarray(init.pdf(self.X)).reshape(self.X.shape), axis=1)
        pred = self.table.get(st[2])
        if pred is None or pred[0] == "kde":
            bw = None if pred is None else pred[1]
            k = gaussian_kde(self.y.T, bw_method=bw, weights=w)
            ppr = k(self.y.T)
        else:
            v = np.asarray(pred[1].pdf(self.y))
            ppr = v.reshape(len(self.y))
        ob = self.table.get(st[3])
        if ob is None:
            from scipy.stats import norm

            ob = norm()
        pob = np.prod(np.asarray(ob.pdf(self.y)).reshape(self.y.shape), axis=1)
        with np.errstate(all="ignore"):
            r = pob / ppr
            up = pin * w * r
        ok = bool(np.all(np.isfinite(r)) and np.all(np.isfinite(up)) and np.sum(w) > 0
                  and np.min(ppr) > 1e-250)
        return {"ok": ok, "up": up, "r": r, "w": w,
                "er": float(np.sum(w * r) / np.sum(w)) if ok else np.nan}

    def mud_ok(self, st, point):
        v = self.values(st)
        idx = rows_equal(self.X, point)
        if len(idx) == 0:
            return False
        top = v["up"].max()
        return bool(np.max(v["up"][idx]) >= top - 1e-7 * abs(top))

    def er_ok(self, st, value):
        v = self.values(st)
        return np.ndim(value) == 0 and abs(float(value) - v["er"]) <= 1e-7 * max(1e-9, abs(v["er"]))


def _k(prefix, counter):
    return f"{prefix}{next(counter)}"


class Client:
    """One simulated user's problem object with its model."""

    def __init__(self, sim, spec):
        from mud.base import DensityProblem

        self.sim, self.spec = sim, spec
        X, y, dom = make_arrays(spec)
        self.X, self.y = X, y
        self.model = Model(X, y, dom)
        self.model.table = {}
        Xa = {"array": X, "list": X.tolist(), "flat": X.ravel()}[spec["xform"]]
        ya = {"array": y, "list": y.tolist(), "flat": y.ravel()}[spec["yform"]]
        w = make_weights(spec["weights"], spec["n"])
        kw = {}
        if dom is not None or sim.rng.random() < 0.5:
            kw["domain"] = dom[0] if spec["domain"] == "flat" else dom
        if w is not None:
            kw["weights"] = w
        if spec["normalize"]:
            kw["normalize"] = True
        self.obj = DensityProblem(Xa, ya, **kw)
        wk = self.put("w", self.model.weights(w, spec["normalize"] and w is not None))
        self.model.states = [(wk, UNSET, UNSET, UNSET)]

    def put(self, prefix, value):
        k = _k(prefix, self.sim.counter)
        self.model.table[k] = value
        return k


class Sim:
    def __init__(self, plan, res):
        import random

        self.plan, self.res = plan, res
        self.counter = itertools.count()
        self.rng = random.Random(plan.get("run", 0))
        self.trap = Trap()
        self.pool = {}

    # distributions are shared between clients: same spec, same object
    def dist(self, spec, seamed=True):
        if spec is None:
            return None
        key = repr(sorted(spec.items())) + str(seamed)
        if key not in self.pool:
            d = make_dist(spec)
            if seamed:
                if spec["k"] == "mvn":
                    pdf = d.pdf

                    def trapped(x, pdf=pdf):
                        self.trap.hit()
                        return pdf(x)

                    d.pdf = trapped
                else:
                    d = seam_dist(d, self.trap)
            self.pool[key] = d
        return self.pool[key]

    def run(self):
        with kde_trap(self.trap):
            self.clients = [Client(self, s) for s in self.plan["objs"]]
            for n, op in enumerate(self.plan["ops"]):
                if op["o"] >= len(self.clients):
                    continue
                self.res.steps += 1
                self.res.ops[op["op"]] += 1
                c = self.clients[op["o"]]
                self.step(n, op, c)
            # every object answers for its own settings at the end
            for o, c in enumerate(self.clients):
                for q in ("expected", "mud"):
                    self.step(-1, {"op": q, "o": o}, c)

    # ---------------------------------------------------------- one step

    def outcomes(self, op, c):
        """[(new states if it succeeds)], [(states allowed if it fails)]."""
        m = c.model
        kind = op["op"]
        succ, fail = set(), set()
        if kind == "set_weights":
            w = make_weights(op["w"], c.spec["n"])
            k = c.put("w", m.weights(w, op["normalize"] and w is not None))
            for s in m.states:
                new = (k, s[1], UNSET, s[3])
                succ.add(new)
                fail |= {s, new, (s[0], s[1], UNSET, s[3])}
        elif kind == "set_initial":
            k = c.put("i", self.plain(op["dist"])) if op["dist"] else UNSET
            if k == UNSET:
                k = c.put("i", None)
            for s in m.states:
                new = (s[0], k, UNSET, s[3])
                succ.add(new)
                fail |= {s, new, (s[0], s[1], UNSET, s[3])}
        elif kind == "set_observed":
            k = c.put("o", self.plain(op["dist"]) if op["dist"] else None)
            for s in m.states:
                new = s[:3] + (k,)
                succ.add(new)
                fail |= {s, new}
        elif kind in ("set_predicted", "fit", "mud", "estimate", "expected",
                      "plot_param", "plot_obs"):
            wk = None
            if op.get("w"):
                wk = c.put("w", m.weights(make_weights(op["w"], c.spec["n"]), False))
            if op.get("dist"):
                pk = c.put("p", ("dist", self.plain(op["dist"])))
            else:
                pk = c.put("p", ("kde", op.get("bw")))
            for s in m.states:
                if kind == "set_predicted":
                    new = (wk or s[0], s[1], pk, s[3])
                    succ.add(new)
                    fail |= {s, new, (s[0], s[1], UNSET, s[3])}
                    fail.add((wk or s[0], s[1], UNSET, s[3]))
                    continue
                # fitting: a never-given initial becomes the default, which
                # may return the predicted distribution to its default
                bases = [s]
                if s[1] == UNSET:
                    ik = c.put("i", None)
                    bases = [(s[0], ik, s[2], s[3]), (s[0], ik, UNSET, s[3])]
                for b in bases:
                    if b[2] == UNSET and kind == "fit" and ("dist" in op):
                        new = (wk or b[0], b[1], pk, b[3])
                        succ.add(new)
                        fail |= {new, b, (wk or b[0], b[1], UNSET, b[3])}
                    else:
                        done = b[:2] + (FITTED if b[2] == UNSET else b[2],) + b[3:]
                        succ.add(done)
                        fail |= {b, done}
                    fail.add((b[0], b[1], UNSET, b[3]))
                fail |= {s, (s[0], s[1], UNSET, s[3])}
        else:
            succ = fail = set(m.states)
        return sorted(succ), sorted(fail)

    def plain(self, spec):
        return make_dist(spec) if spec else None

    def perform(self, op, c):
        """The real call.  Returns its answer."""
        D, kind = c.obj, op["op"]
        if kind == "set_weights":
            w = make_weights(op["w"], c.spec["n"])
            if w is None and not op["normalize"]:
                return D.set_weights()
            return D.set_weights(w, normalize=op["normalize"])
        if kind == "set_initial":
            return D.set_initial(self.dist(op["dist"])) if op["dist"] else D.set_initial()
        if kind == "set_observed":
            if op["dist"]:
                return D.set_observed(self.dist(op["dist"]))
            return D.set_observed()
        if kind in ("set_predicted", "fit"):
            kw = {}
            if "dist" in op:
                if op["dist"]:
                    if op.get("kwargs"):
                        from scipy.stats import norm

                        kw["distribution"] = norm
                        kw["loc"], kw["scale"] = op["dist"]["loc"], op["dist"]["scale"]
                    else:
                        kw["distribution"] = self.dist(op["dist"])
                elif op.get("bw") is not None:
                    kw["bw_method"] = op["bw"]
                if op.get("w"):
                    kw["weights"] = make_weights(op["w"], c.spec["n"])
            return getattr(D, kind)(**kw)
        if kind == "mud":
            return np.array(D.mud_point())
        if kind == "estimate":
            return np.array(D.estimate())
        if kind == "expected":
            return D.expected_ratio()
        if kind in ("plot_param", "plot_obs"):
            import matplotlib.pyplot as plt

            try:
                if kind == "plot_param":
                    kw = {"win_opts": {}} if op["win"] else {}
                    ax = D.plot_param_space(op["i"], aff=6, in_opts={"label": "IN"}, **kw)
                else:
                    ax = D.plot_obs_space(op["i"], aff=6, ob_opts={"label": "OB"},
                                          pr_opts={"label": "PR"})
                return {ln.get_label(): np.array(ln.get_data()) for ln in
                        (ax or plt.gca()).get_lines()}
            except (AssertionError, AttributeError, TypeError):
                # a default distribution cut off halfway may not be drawable; the
                # property is about estimates, so only the thorough tier insists
                if self.plan.get("strict") or not getattr(c, "cut", False):
                    raise
                self.res.probes["plot not drawable"] += 1
            except (np.linalg.LinAlgError, ValueError) as e:
                # weights concentrated on one sample have no kernel estimate
                if type(e) is Injected or "injected" in str(e):
                    raise
                self.res.probes["plot not drawable"] += 1
            finally:
                plt.close("all")
            return None
        if kind == "noise":
            self.noise(op["seed"])
            return None
        raise HarnessError(kind)

    def noise(self, seed):
        """Another, unrelated user of the library in the same process."""
        from mud.base import BayesProblem, DensityProblem
        from scipy.stats import norm

        r = rs(seed)
        X = r.uniform(size=(10, 2))
        np.random.seed(seed % 1000)
        D = DensityProblem(X, X[:, :1], weights=r.uniform(0.1, 1, 10))
        D.set_observed(norm(0.5, 0.2))
        D.expected_ratio()
        B = BayesProblem(X, X)
        B.set_likelihood(norm([0.2, 0.7], 0.3))
        B.map_point()

    def plottable(self, op, c):
        """Plots need an initial (observed) distribution to have been set, and
        a predicted distribution that can be drawn on a grid."""
        for s in c.model.states:
            if s[1] == UNSET or (op["op"] == "plot_obs" and s[3] == UNSET):
                return False
        if op["op"] == "plot_obs":
            for s in c.model.states:
                p = c.model.table.get(s[2])
                if p is not None and p[0] == "dist":
                    return False
        return True

    def check_answer(self, op, c, ans, n):
        m, kind = c.model, op["op"]
        if any(not m.values(s)["ok"] for s in m.states):
            self.res.probes["degenerate densities skipped"] += 1
            return
        if kind in ("mud", "estimate"):
            good = [s for s in m.states if m.mud_ok(s, ans)]
        else:
            good = [s for s in m.states if m.er_ok(s, ans)]
        if not good:
            want = m.values(m.states[0])
            expect = (
                f"row {int(np.argmax(want['up']))} of X"
                if kind != "expected" else f"{want['er']:.10g}"
            )
            got = (
                f"row(s) {rows_equal(m.X, ans).tolist()}" if kind != "expected" else f"{ans!r}"
            )
            raise Violation(
                "stale-or-mixed-estimate",
                f"{kind} of object {op['o']} after {n if n >= 0 else 'all'} ops: got {got}, "
                f"settings in force give {expect}"
                + (f" ({len(m.states)} allowed combinations)" if len(m.states) > 1 else ""),
            )
        if len(m.states) > 1:
            self.res.probes["ambiguity resolved by an estimate"] += len(good) < len(m.states)
        m.states = good
        self.res.event(n, kind, op["o"], "ok")

    CURVES = {"IN": 1, "PR": 2, "OB": 3}

    def check_curves(self, op, c, lines, n):
        """Curves of one-dimensional problems are those of one combination of
        settings that the estimates allow as well."""
        m = c.model
        dim = c.spec["p"] if op["op"] == "plot_param" else c.spec["d"]
        if not lines or dim != 1:
            return
        good = []
        for s in m.states:
            bad = None
            for label, slot in self.CURVES.items():
                if label in lines:
                    want = self.curve(m, s, slot, lines[label][0])
                    if want is not None and not close(lines[label][1], want, 1e-6, 1e-9):
                        bad = label
            if bad is None:
                good.append(s)
        if not good:
            raise Violation("stale-or-mixed-curve", f"{op['op']} of object {op['o']} after {n} ops: "
                            f"the {bad} curve is not that of the settings in force")
        self.res.probes["curves compared"] += 1
        m.states = good

    def curve(self, m, s, slot, x):
        from scipy.stats import gaussian_kde, norm, uniform

        v = m.table.get(s[slot])
        if slot == 2:
            if v is not None and v[0] == "dist":
                return None
            d = gaussian_kde(m.y.T, bw_method=None if v is None else v[1], weights=m.table[s[0]])
        elif slot == 1:
            lo, hi = m.domain[0]
            d = v or uniform(lo, hi - lo)
        else:
            d = v or norm()
        y = np.ravel(d.pdf(x))
        total = y.sum() * abs(x[1] - x[0])
        return y / total if total > 1e-9 else None

    def step(self, n, op, c):
        kind, fault = op["op"], op.get("fault")
        if kind in ("plot_param", "plot_obs") and not self.plottable(op, c):
            self.res.event(n, kind, "not plottable")
            return
        if fault is None:
            succ, _ = self.outcomes(op, c)
            if self.doomed(op, c, succ):
                self.expect_failure(n, op, c)
                return
            ans = self.perform(op, c)
            c.model.states = succ
            if kind in ("mud", "estimate", "expected"):
                self.check_answer(op, c, ans, n)
            else:
                if kind.startswith("plot"):
                    self.check_curves(op, c, ans, n)
                self.res.event(n, kind, op["o"], "done")
            return
        self.faulty_step(n, op, c, fault)

    def doomed(self, op, c, succ):
        """Kernel estimates of constant data fail naturally."""
        if not c.spec.get("constant_y"):
            return False
        fits = op["op"] in ("fit", "mud", "estimate", "expected", "plot_param", "plot_obs",
                            "set_predicted")
        return fits and any(
            (c.model.table.get(s[2]) or ("kde",))[0] == "kde" for s in succ
        )

    def expect_failure(self, n, op, c):
        _, fail = self.outcomes(op, c)
        try:
            self.perform(op, c)
        except Exception as e:
            self.res.event(n, op["op"], op["o"], "fails", type(e).__name__)
            self.res.faults["natural kernel-estimate failure"] += 1
            c.model.states = fail
            return
        # some builds may manage; nothing to compare against then
        self.res.event(n, op["op"], op["o"], "unexpectedly succeeded")
        c.model.states = fail

    def faulty_step(self, n, op, c, fault):
        kind = op["op"]
        if self.doomed(op, c, self.outcomes(op, c)[0]):
            return self.expect_failure(n, op, c)
        if fault["kind"] == "interrupt":
            hit = interrupt_at(fault["at"])
            try:
                with hit:
                    self.perform(op, c)
            except Interrupt:
                pass
            self.res.event(n, kind, op["o"], "interrupted", hit.fired)
            if hit.fired:
                c.cut = True
                self.res.faults["interrupt at a line"] += 1
                self.res.probes["interrupted in " + kind] += 1
            # repeat it: must be as if undisturbed.  A fit that was interrupted
            # after it gave the initial its default has already happened once.
            succ, _ = self.outcomes(op, c)
            ans = self.perform(op, c)
            c.model.states = succ
            if kind in ("mud", "estimate", "expected"):
                self.check_answer(op, c, ans, n)
            for q in ("expected", "mud"):
                self.step(-1, {"op": q, "o": op["o"]}, c)
            return
        bad = fault["kind"] == "weights"
        if bad:
            w = {"seed": fault["seed"], "form": "bad", "extra": fault["extra"]}
            op = {**op, "w": w}
            clean = {k: v for k, v in op.items() if k != "w"}
            if kind == "set_weights":
                states = sorted({t for s in c.model.states
                                 for t in (s, (s[0], s[1], UNSET, s[3]))})
            elif kind == "set_predicted" or "dist" in op:
                _, states = self.outcomes({**clean, "op": kind}, c)
            else:
                return
            took = kind != "fit" or all(s[2] == UNSET for s in c.model.states)
            try:
                self.perform(op, c)
            except Exception as e:
                self.res.event(n, kind, op["o"], "rejected", type(e).__name__)
                self.res.faults["invalid weights"] += 1
                c.model.states = states
            else:
                if took and (kind != "fit" or any(s[1] != UNSET for s in c.model.states)):
                    raise Violation("invalid-weights-accepted",
                                    f"{kind} accepted weights of the wrong length")
                c.model.states = states
            return
        succ, fail = self.outcomes(op, c)
        before = self.trap.fired
        self.trap.arm(fault["at"], error_of(fault["error"]))
        err = None
        try:
            ans = self.perform(op, c)
        except Exception as e:
            err = e
        finally:
            self.trap.disarm()
        fired = self.trap.fired > before
        if fired:
            self.res.faults[f"{fault['error']} error in a density evaluation"] += 1
            self.res.probes["failed " + kind] += err is not None
        if err is not None:
            if not fired:
                raise err
            self.res.event(n, kind, op["o"], "failed", type(err).__name__)
            c.model.states = fail
            for q in fault.get("look") or ():
                self.step(-1, {"op": q, "o": op["o"], "i": 0, "win": False}, c)
            if fault.get("retry"):
                succ, _ = self.outcomes(op, c)
                ans = self.perform(op, c)
                c.model.states = succ
                if kind in ("mud", "estimate", "expected"):
                    self.check_answer(op, c, ans, n)
            return
        # success: whether or not a fault was absorbed, the call took effect
        c.model.states = succ
        if kind in ("mud", "estimate", "expected"):
            self.check_answer(op, c, ans, n)
        else:
            if kind.startswith("plot"):
                self.check_curves(op, c, ans, n)
            self.res.event(n, kind, op["o"], "done")


def execute(plan, res):
    reset_globals()
    Sim(plan, res).run()


def simplify(plan):
    """Smaller variants of a plan."""
    used = {op["o"] for op in plan["ops"]}
    if len(plan["objs"]) > 1:
        for o in range(len(plan["objs"])):
            if o not in used and o == len(plan["objs"]) - 1:
                yield {**plan, "objs": plan["objs"][:-1]}
    for i, op in enumerate(plan["ops"]):
        for key, val in (("fault", None), ("w", None), ("bw", None), ("normalize", False)):
            if op.get(key):
                new = {k: v for k, v in op.items() if k != key}
                if key in ("w", "normalize") and op["op"] == "set_weights":
                    new = {**op, key: val}
                yield {**plan, "ops": plan["ops"][:i] + [new] + plan["ops"][i + 1:]}
    for i, s in enumerate(plan["objs"]):
        for key, val in (("weights", None), ("normalize", False), ("domain", "tight"), ("n", 8)):
            if s.get(key) != val and s.get(key) is not None:
                yield {**plan, "objs": plan["objs"][:i] + [{**s, key: val}] + plan["objs"][i + 1:]}
