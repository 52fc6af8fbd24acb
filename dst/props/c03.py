"""C03 Bayesian estimates reflect the settings in force, faults included."""
import itertools

import numpy as np

from ..common import (
    again, Interrupt, Trap, error_of, gen_dist, gen_unit, in_unit, interrupt_at, kde_trap, make_dist, pick,
    reset_globals, rnum, rows_equal, rs, seam_dist,
)
from ..core import HarnessError, Violation

RUNS = {"quick": 5000, "thorough": 60000}
CHUNK = 50
RULE = (
    "One run: 1-3 Bayesian problems driven through 4-30 seeded calls (likelihood in plain and "
    "log form, priors, fits, estimates, plots, other users), a third of the calls hit by a "
    "fault: an exception out of the k-th density evaluation, a distribution of the wrong "
    "dimension, a posterior that vanishes, or an interruption at the n-th line of mud code. "
    "Non-trivial: a setting changed after an estimate or a fault fired."
)
STEP = "one call on a problem object"
MEASURE = "distinct event logs (call sequence over objects with faults and outcomes)"
REAL = ["mud.base.BayesProblem", "mud.util", "mud.plot", "scipy.stats", "matplotlib (Agg)"]
STUB = ["distributions and gaussian_kde wrapped so that the k-th evaluation can raise"]
ASSUMPTIONS = [
    "scipy's densities are trusted",
    "posteriors within e^-780..e^-650 of zero (rounding decides underflow) are not compared",
    "ties within 1e-7 relative are all accepted as maximisers",
]
PROBES = ["log likelihood replaced by plain", "plain likelihood replaced by log",
          "vanishing posterior reported", "setting changed after an estimate"]

UNSET = "unset"


def gen_problem(rng):
    return {"seed": rng.randrange(2**31), "n": rng.choice([6, 12, 25, 40]) if rng.random() < 0.985 else 1500,
            "p": rng.choice([1, 1, 1, 2, 2, 3, 5]), "d": rng.choice([1, 1, 2, 4, 8]),
            "domain": rng.choice([None, "tight", "wide", None, "tight", "wide", "narrow"]), "ux": gen_unit(rng), "uy": gen_unit(rng),
            "lists": rng.random() < 0.3}


def gen_like(rng, spec):
    if rng.random() < 0.12:  # far away: vanishes unless logs are used
        return {"k": "norm", "loc": rng.choice([-30.0, 60.0]), "scale": 0.2}
    if rng.random() < 0.15:
        return {"k": "uniform", "loc": rng.choice([-0.5, 0.0, 40.0]), "scale": 1.5}
    return gen_dist(rng, spec["d"], spread=(0.15, 1.5))


def generate(rng, i, tier):
    objs = [gen_problem(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = rng.choice([4, 8, 14, 22] if tier == "quick" else [8, 16, 30, 50])
    ops = []
    for j in range(n):
        o = rng.randrange(len(objs))
        kind = pick(rng, {"like": 5, "prior": 3, "fit": 2, "map": 5, "estimate": 2,
                          "plot_param": 1, "plot_obs": 1, "noise": 1})
        op = {"op": kind, "o": o}
        if kind == "like":
            op["dist"], op["log"] = in_unit(gen_like(rng, objs[o]), objs[o]["uy"]), rng.random() < 0.45
        elif kind == "prior":
            op["dist"] = gen_dist(rng, objs[o]["p"], full=rng.random() < 0.6) if rng.random() < 0.75 else None
            if op["dist"] and rng.random() < 0.06:  # prior without the samples in its support
                op["dist"] = {"k": "uniform", "loc": 5.0, "scale": 1.0}
            op["dist"] = in_unit(op["dist"], objs[o]["ux"])
        elif kind.startswith("plot"):
            op["i"] = rng.randrange(objs[o]["p" if kind == "plot_param" else "d"])
        elif kind == "noise":
            op["seed"] = rng.randrange(2**31)
        if kind != "noise" and rng.random() < 0.3:
            r = rng.random()
            if r < 0.45:
                op["fault"] = {"kind": "error", "at": rng.choice([0, 0, 0, 1, 2, 3]),
                               "error": rng.choice(["injected", "memory", "linalg", "value"]),
                               "retry": rng.random() < 0.4}
            elif r < 0.6 and kind in ("like", "prior"):
                op["fault"] = {"kind": "shape"}
            else:
                op["fault"] = {"kind": "interrupt", "at": rng.randrange(0, 25)}
        ops.append(op)
    return {"objs": objs, "ops": again(rng, ops, ("like", "prior"))}


class Client:
    def __init__(self, sim, spec):
        from mud.base import BayesProblem

        r = rs(spec["seed"])
        n, p, d = spec["n"], spec["p"], spec["d"]
        self.spec = spec
        self.X = r.uniform(-1, 1, (n, p))
        self.y = self.X @ r.uniform(-1, 1, (p, d)) + 0.2 * r.normal(size=(n, d))
        dom = {None: None, "tight": [[-1.0, 1.0]] * p,
               "wide": [[-1.5 - i, 2.0 + i] for i in range(p)], "narrow": [[-0.8, 0.9]] * p}[spec["domain"]]
        ux, uy = spec.get("ux", 1.0), spec.get("uy", 1.0)
        self.X, self.y = self.X * ux, self.y * uy
        if dom is not None:
            dom = [[a * ux, b * ux] for a, b in dom]
        if dom is None:
            lo, hi = self.X.min(axis=0), self.X.max(axis=0)
            pad = 0.1 * (hi - lo)
            self.domain = np.array([lo - pad, hi + pad]).T
        else:
            self.domain = np.array(dom)
        X, y = (self.X.tolist(), self.y.tolist()) if spec["lists"] else (self.X, self.y)
        self.obj = BayesProblem(X, y, dom) if dom is not None else BayesProblem(X, y)
        self.table = {}
        self.states = [(UNSET, UNSET)]  # (prior, likelihood)
        self.cache = {}

    def log_post(self, st):
        if st in self.cache:
            return self.cache[st]
        with np.errstate(all="ignore"):
            prior = self.table.get(st[0])
            if prior is None:
                lo, hi = self.domain[:, 0], self.domain[:, 1]
                inside = (self.X >= lo) & (self.X <= hi)
                lp = np.where(inside, -np.log(hi - lo), -np.inf).sum(axis=1)
            else:
                lp = np.asarray(prior.logpdf(self.X)).reshape(self.X.shape).sum(axis=1)
            like, log = self.table[st[1]]
            ll = np.asarray(like.logpdf(self.y)).reshape(self.y.shape).sum(axis=1)
            self.cache[st] = (lp + ll, lp, ll, log)
        return self.cache[st]

    def verdict(self, st):
        """'none' (no likelihood), 'zero', 'ok' or 'unclear' and the values."""
        if st[1] == UNSET:
            return "none", None
        post, lp, ll, log = self.log_post(st)
        top = np.max(post)
        if top == -np.inf:
            return "zero", post
        if not log:
            # plain products underflow
            if np.max(np.maximum(post, ll)) < -780:
                return "zero", post
            if top < -650:
                return "unclear", post
        return "ok", post


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res
        self.counter = itertools.count()
        self.trap = Trap()
        self.pool = {}

    def dist(self, spec):
        if spec is None:
            return None
        key = repr(sorted(spec.items()))
        if key not in self.pool:
            self.pool[key] = seam_dist(make_dist(spec), self.trap)
        return self.pool[key]

    def run(self):
        with kde_trap(self.trap):
            cs = self.clients = [Client(self, s) for s in self.plan["objs"]]
            for n, op in enumerate(self.plan["ops"]):
                if op["o"] < len(cs):
                    self.res.steps += 1
                    self.res.ops[op["op"]] += 1
                    self.step(n, op, cs[op["o"]])
            for o, c in enumerate(cs):
                self.step(-1, {"op": "map", "o": o}, c)

    def outcomes(self, op, c):
        kind = op["op"]
        succ, fail = set(), set()
        for s in c.states:
            if kind == "like":
                k = f"l{next(self.counter)}"
                c.table[k] = (make_dist(op["dist"]), op["log"])
                succ.add((s[0], k))
                fail |= {s, (s[0], k)}
            elif kind == "prior":
                k = f"p{next(self.counter)}"
                c.table[k] = make_dist(op["dist"]) if op["dist"] else None
                succ.add((k, s[1]))
                fail |= {s, (k, s[1])}
            else:
                succ.add(s)
                fail.add(s)
        return sorted(succ), sorted(fail)

    def perform(self, op, c):
        B, kind = c.obj, op["op"]
        if kind == "like":
            return B.set_likelihood(self.dist(op["dist"]), log=op["log"])
        if kind == "prior":
            return B.set_prior(self.dist(op["dist"])) if op["dist"] else B.set_prior()
        if kind == "fit":
            return B.fit()
        if kind == "map":
            return np.array(B.map_point())
        if kind == "estimate":
            return np.array(B.estimate())
        if kind.startswith("plot"):
            import matplotlib.pyplot as plt

            try:
                if kind == "plot_param":
                    B.plot_param_space(op["i"], aff=5)
                elif c.spec["d"] <= 2:
                    B.plot_obs_space(op["i"], aff=5)
            finally:
                plt.close("all")
            return None
        if kind == "noise":
            from mud.base import BayesProblem
            from scipy.stats import norm

            X = rs(op["seed"]).uniform(size=(9, 2))
            B2 = BayesProblem(X, X, [[0, 1], [0, 1]])
            B2.set_likelihood(norm([0.5, 0.1], 0.2), log=bool(op["seed"] % 2))
            B2.map_point()
            return None
        raise HarnessError(kind)

    def judge(self, n, op, c, ans, err):
        """A fit, estimate or plot ended with this answer or error."""
        kind = op["op"]
        vs = {s: c.verdict(s)[0] for s in c.states}
        if "unclear" in vs.values():
            self.res.probes["near-underflow skipped"] += 1
            return
        if err is not None:
            if kind.startswith("plot"):
                return  # C08 decides what plots draw
            good = [s for s in c.states if vs[s] in ("none", "zero")]
            if not good:
                raise Violation("estimate-refused",
                                f"{kind} of object {op['o']} raised {type(err).__name__}: {err} "
                                "although the posterior does not vanish")
            self.res.probes["vanishing posterior reported"] += "zero" in vs.values()
            c.states = good
            self.res.event(n, kind, op["o"], "refused")
            return
        if kind.startswith("plot"):
            return
        good = []
        for s in c.states:
            if vs[s] != "ok":
                continue
            if kind == "fit":
                good.append(s)
                continue
            post = c.verdict(s)[1]
            idx = rows_equal(c.X, ans)
            if len(idx) and np.max(post[idx]) >= np.max(post) - 1e-7 * max(1.0, abs(np.max(post))):
                good.append(s)
        if not good:
            if all(v == "zero" for v in vs.values()):
                raise Violation("vanished-posterior-unreported",
                                f"{kind} of object {op['o']} answered although the posterior "
                                "vanishes at every sample")
            want = [int(np.argmax(c.verdict(s)[1])) for s in c.states if vs[s] == "ok"]
            raise Violation("stale-or-mixed-estimate",
                            f"{kind} of object {op['o']} at step {n}: got "
                            f"row(s) {rows_equal(c.X, ans).tolist() if ans is not None else None}, "
                            f"settings in force give row {want[:3]}")
        c.states = good
        self.res.event(n, kind, op["o"], "ok")

    def attempt(self, n, op, c):
        """Call without a fault and judge it."""
        succ, _ = self.outcomes(op, c)
        kind = op["op"]
        if kind == "like":
            for s in c.states:
                if s[1] != UNSET and c.table[s[1]][1] != op["log"]:
                    self.res.probes["log likelihood replaced by plain" if not op["log"]
                                    else "plain likelihood replaced by log"] += 1
        if kind in ("like", "prior", "noise"):
            self.perform(op, c)
            c.states = succ
            self.res.event(n, kind, op["o"], "done")
            return
        try:
            ans, err = self.perform(op, c), None
        except Exception as e:
            ans, err = None, e
        c.states = succ
        self.judge(n, op, c, ans, err)

    def step(self, n, op, c):
        fault = op.get("fault")
        if fault is None:
            return self.attempt(n, op, c)
        if fault["kind"] == "interrupt":
            hit = interrupt_at(fault["at"])
            try:
                with hit:
                    self.perform(op, c)
            except Interrupt:
                pass
            except Exception as e:
                if op["op"] in ("like", "prior"):
                    raise
            if hit.fired:
                self.res.faults["interrupt at a line"] += 1
            self.res.event(n, op["op"], op["o"], "interrupted", hit.fired)
            self.attempt(n, op, c)
            return self.attempt(-1, {"op": "map", "o": op["o"]}, c)
        if fault["kind"] == "shape":
            dim = c.spec["p" if op["op"] == "prior" else "d"]
            bad = {"k": "norm", "loc": [0.0] * (dim + 1), "scale": 1.0}
            if dim == 1:
                bad = {"k": "norm", "loc": [[0.0] * 2] * 5, "scale": 1.0}
            try:
                self.perform({**op, "dist": bad}, c)
            except Exception:
                self.res.faults["distribution of the wrong dimension"] += 1
                self.res.event(n, op["op"], op["o"], "rejected")
                return
            self.res.event(n, op["op"], op["o"], "took wrong dimension")
            return self.attempt(n, op, c)
        before = self.trap.fired
        self.trap.arm(fault["at"], error_of(fault["error"]))
        ans = err = None
        succ, fail = self.outcomes(op, c)
        try:
            ans = self.perform(op, c)
        except Exception as e:
            err = e
        finally:
            self.trap.disarm()
        if self.trap.fired > before:
            self.res.faults[f"{fault['error']} error in a density evaluation"] += 1
            if err is None:  # absorbed: the call must have taken effect
                c.states = succ
                if op["op"] not in ("like", "prior"):
                    self.judge(n, op, c, ans, None)
                return
            c.states = fail
            self.res.event(n, op["op"], op["o"], "failed", type(err).__name__)
            if fault["retry"]:
                self.attempt(n, op, c)
            return
        if op["op"] in ("like", "prior"):
            if err is not None:
                raise err
            c.states = succ
            return
        c.states = succ
        self.judge(n, op, c, ans, err)


def execute(plan, res):
    reset_globals()
    seen, changed = set(), False
    for op in plan["ops"]:
        if op["op"] in ("map", "estimate"):
            seen.add(op["o"])
        elif op["op"] in ("like", "prior") and op["o"] in seen:
            changed = True
    res.probes["setting changed after an estimate"] += changed
    Sim(plan, res).run()
    res.nontrivial = changed or bool(res.faults)


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if op.get("fault"):
            yield {**plan, "ops": plan["ops"][:i]
                   + [{k: v for k, v in op.items() if k != "fault"}] + plan["ops"][i + 1:]}
    if len(plan["objs"]) > 1 and all(op["o"] < len(plan["objs"]) - 1 for op in plan["ops"]):
        yield {**plan, "objs": plan["objs"][:-1]}
