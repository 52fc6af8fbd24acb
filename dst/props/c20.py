"""C20 estimates converge to the truth as samples and measurements come in."""
import contextlib
import math

import numpy as np

from ..common import (Interrupt, error_of, interrupt_at, kde_trap, linalg_trap, pick, reset_globals, rs, Trap)
from ..core import Injected, Violation
from ..draws import Draws

RUNS = {"quick": 3000, "thorough": 40000}
CHUNK = 15
SHRINK_LISTS = ["events"]
RULE = (
    "One run: a campaign towards a known parameter (one or two parameters, linear or monotone maps, "
    "drawn noise level and domain) in which batches of noisy measurements and of samples arrive, "
    "estimates are made by drawn routes (density problem, MUD and MAP wrappers with and without "
    "splits, Bayesian problem, spatio-temporal problem with WME, PCA and SVD maps, data_prob, linear, "
    "weighted-mean-error and iterative linear problems, example problems) on new and on living "
    "objects, draws, density estimates and factorisations fail, solves are interrupted, and other "
    "problems are solved in between. Once the faults stop, enough samples and measurements arrive and "
    "every route must be near the truth. Each estimate must lie within the bound that its definition, "
    "the distance of the nearest sample and the noise level guarantee for every campaign but a share "
    "of 1e-10. Non-trivial: at least one estimate was compared."
)
STEP = "one event of a campaign"
MEASURE = "distinct event logs (kinds of map, events, routes, faults and sizes)"
REAL = ["mud.base, mud.funs, mud.util, mud.preprocessing, mud.examples.simple/linear/exp_decay"]
STUB = ["the measured system (a known map)", "normal draws, delivered by the simulator from a seeded stream"]
ASSUMPTIONS = [
    "uniform initial, equal weights: initial/predicted differ by at most the factor n between samples (Gaussian kernel estimate)",
    "noise means beyond 6.5 standard errors (8e-11) do not occur",
    "problems whose samples are all too far from the data for floating point are counted, not judged",
]
PROBES = ["final", "final error below 2 % of the domain", "interrupted solve", "failed solve", "failed draw",
          "living object", "too coarse", "expected ratio", "two parameters", "nonlinear map", "iterative"]

Z = 6.5
OWN = ("mud_problem", "split", "map_problem", "map_log", "reference")  # routes that draw the noise themselves
SCALAR = {"density": 3, "mud_problem": 3, "map_problem": 2, "map_log": 1.5, "bayes": 1.5, "spatial": 3, "reference": 2,
          "data_prob": 1.5, "pca": 1.5, "svd": 1, "linear": 2, "wme": 2, "ratio": 1.5, "spread": 1.5}
PLANE = {"split": 3, "bayes": 1, "map_problem": 1, "map_log": 1, "linear": 2, "wme": 3, "iterative": 2, "vector": 2}
EXAMPLES = ["identity density", "identity bayes", "noisy linear", "exp_decay", "random_wme"]


def generate(rng, i, tier):
    p = 1 if rng.random() < 0.65 else 2
    routes = SCALAR if p == 1 else PLANE
    events = []
    for _ in range(rng.choice([3, 5, 8] if tier == "quick" else [5, 9, 14])):
        k = pick(rng, {"collect": 4, "samples": 2, "solve": 6, "other": 1, "example": 0.5})
        e = {"k": k, "seed": rng.randrange(2**31)}
        if k == "collect":
            e.update(n=rng.choice([1, 1, 2, 5, 20, 60]), fail=rng.random() < 0.15)
        elif k == "samples":
            e["n"] = rng.choice([5, 20, 80])
        elif k == "solve":
            e["route"] = pick(rng, routes)
            if rng.random() < 0.3:
                e["fault"] = rng.choice(["interrupt", "kde", "linalg"])
                e["at"] = rng.choice([0, 1, 2, 5, 12, 25] if e["fault"] == "interrupt" else [0, 0, 1, 2])
                e["error"] = rng.choice(["memory", "linalg", "injected"])
        elif k == "example":
            e["f"] = rng.choice(EXAMPLES)
        events.append(e)
    lo = rng.choice([0.0, 0.0, -1.0, 3.0])
    kind = rng.choice(["linear", "linear", "cubic", "saturating", "square"]) if p == 1 else "linear"
    big = rng.random() < 0.03  # rarely, very many measurements
    return {"p": p, "map": kind,
            "width": rng.choice([1.0, 1.0, 0.2, 8.0]), "lo": lo, "unit": rng.choice([1.0] * 7 + [1e-4, 1e-3, 1e3]), "sd": rng.choice([0.02, 0.05, 0.1, 0.3]),
            "truth": [round(rng.uniform(0.5 if kind == "square" else 0.15, 0.85), 4) for _ in range(p)], "seed": rng.randrange(2**31),
            "jitter": rng.choice([0.4, 0.4, 0.05, 0.002]), "n0": rng.choice([12, 40, 120]), "events": events,
            "final": {"n": 300 if big else rng.choice([400, 800] if tier == "quick" else [400, 900, 1800]),
                      "N": rng.choice([900, 1600, 2500]) if big else rng.choice([100, 300]),
                      "routes": 3 if tier == "quick" else 6,
                      "seed": rng.randrange(2**31), "at": rng.randrange(2**31)}}


def simplify(plan):
    for i, e in enumerate(plan["events"]):
        if "fault" in e:
            yield {**plan, "events": plan["events"][:i] + [{k: e[k] for k in ("k", "seed", "route")}]
                   + plan["events"][i + 1:]}
    for k in ("n", "N"):
        if plan["final"][k] > 50:
            yield {**plan, "final": {**plan["final"], k: plan["final"][k] // 2}}


MAX = 400


class System:
    """The measured system: sensor j answers Q_j(parameter)."""

    def __init__(self, plan):
        r = rs(plan["seed"])
        self.unit = plan.get("unit", 1.0)  # of the measurements and of their deviation
        self.p, self.sd, self.kind = plan["p"], plan["sd"] * self.unit, plan["map"]
        self.lo, self.width = plan["lo"], plan["width"]
        self.domain = np.array([[self.lo, self.lo + self.width]] * self.p)
        self.truth = self.lo + self.width * np.array([plan["truth"]])
        self.max = max(MAX, plan["final"]["N"])
        if self.p == 1:
            self.a = 1 + plan.get("jitter", 0.4) * r.uniform(-1, 1, (self.max, 1))
        else:
            base = np.array([[1.0, 0.2], [-0.3, 1.0]])
            self.a = base[np.arange(self.max) % 2] + min(plan.get("jitter", 0.4), 0.1) * r.uniform(-1, 1, (self.max, 2))

    def q(self, lam, N):
        u = (np.reshape(lam, (-1, self.p)) - self.lo) / self.width
        lin = u @ self.a[:N].T
        if self.kind == "cubic":
            lin = lin + 0.5 * u ** 3
        if self.kind == "square":  # predictions crowd at one end
            lin = u ** 2 @ self.a[:N].T
        if self.kind == "saturating":
            lin = 2 * (1 - np.exp(-lin))
        return self.unit * lin

    def rows(self, N):
        """The linear map as matrix and offset: q = A lam + c."""
        A = self.unit * self.a[:N] / self.width
        return A, -(A @ np.full((self.p, 1), self.lo))


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res
        self.s = System(plan)
        self.m = np.zeros(0)
        self.lam = np.zeros((0, self.s.p))
        self.T = self.L = None
        self.judged = 0

    def bad(self, cls, msg):
        raise Violation(cls, msg)

    def run(self):
        plan = self.plan
        self.res.probes["two parameters"] += plan["p"] == 2
        self.res.probes["nonlinear map"] += plan["map"] != "linear"
        self.samples(plan["n0"], plan["seed"] + 1)
        for n, e in enumerate(plan["events"]):
            self.res.steps += 1
            self.res.ops[e["k"]] += 1
            self.n = n
            getattr(self, "do_" + e["k"])(e)
        f = plan["final"]
        self.n = "final"
        if f["N"] > len(self.m):
            self.collect(f["N"] - len(self.m), f["seed"])
        if f["n"] > len(self.lam):
            self.samples(f["n"] - len(self.lam), f["seed"] + 1)
        r = rs(f["at"])
        routes = sorted(SCALAR if plan["p"] == 1 else PLANE)
        for route in [routes[j] for j in r.permutation(len(routes))[:f["routes"]]]:
            self.res.steps += 1
            e = {"k": "solve", "route": route, "seed": int(r.randint(2**31))}
            err = self.judge(route, e, "final ")
            if err is not None:
                self.res.probes["final"] += 1
                self.res.probes["final error below 2 % of the domain"] += err < 0.02 * self.s.width
        self.res.nontrivial = self.judged > 0

    # --------------------------------------------------------------- events

    def samples(self, n, seed):
        new = rs(seed).uniform(self.s.lo, self.s.lo + self.s.width, (n, self.s.p))
        self.lam = np.vstack([self.lam, new])

    def collect(self, n, seed, fail=False):
        from mud.util import add_noise

        n = min(n, self.s.max - len(self.m))
        if n < 1:
            return
        true = self.s.q(self.s.truth, len(self.m) + n)[0, len(self.m):]
        d = Draws("normal", seed)
        if fail:
            d.fail_at = 0
        try:
            with d.mounted():
                new = add_noise(true.copy(), self.s.sd)
        except MemoryError:
            if not d.failed:
                raise
            self.res.faults["failed draw"] += 1
            self.res.probes["failed draw"] += 1
            self.res.event(self.n, "collect failed")
            return
        z = (np.ravel(new) - true) / self.s.sd
        self.noise(z)
        self.m = np.concatenate([self.m, np.ravel(new)])
        self.res.event(self.n, "collected", n)

    def noise(self, z):
        """The noise is standard normal as far as its mean and size tell."""
        n, x = len(z), 25.0
        if abs(z.sum()) > Z * math.sqrt(n):
            self.bad("noise", f"{n} measurements carry a mean noise of {z.mean()} standard deviations")
        if not n - 2 * math.sqrt(n * x) <= z @ z <= n + 2 * math.sqrt(n * x) + 2 * x:
            self.bad("noise", f"{n} measurements carry noise of standard deviation {np.sqrt(z @ z / n)}")

    def do_collect(self, e):
        self.collect(e["n"], e["seed"], e["fail"])

    def do_samples(self, e):
        if len(self.lam) < 2000:
            self.samples(e["n"], e["seed"])
        self.res.event(self.n, "samples")

    def do_other(self, e):
        from mud.base import BayesProblem, DensityProblem, LinearGaussianProblem
        from scipy.stats import norm

        r = rs(e["seed"])
        X = r.uniform(size=(len(self.lam), 1))
        D = DensityProblem(X, 3 * X, domain=[[0, 1]], weights=r.uniform(size=len(X)))
        D.set_initial(norm(0.2, 0.3))
        D.set_observed(norm(1.0, 0.5))
        D.estimate()
        B = BayesProblem(X, X, domain=[[0, 1]])
        B.set_likelihood(norm(0.9, 0.3))
        B.estimate()
        LinearGaussianProblem(r.normal(size=(1, 2)), r.normal(size=(1, 1)), r.normal(size=(1, 1))).solve()
        self.res.event(self.n, "other")

    def do_solve(self, e):
        if "fault" in e and self.usable(e["route"]):
            self.disturb(e)
        self.judge(e["route"], e)

    def disturb(self, e):
        """The same estimate first, failing or interrupted."""
        trap, what = Trap(), e["fault"]
        try:
            if what == "interrupt":
                at = interrupt_at(e["at"])
                try:
                    with at:
                        self.solve(e["route"], e)
                except Interrupt:
                    pass
                self.res.probes["interrupted solve"] += at.fired
                self.res.faults["interrupted solve"] += at.fired
                return
            else:
                trap.arm(e["at"], error_of(e["error"]))
                with (kde_trap if what == "kde" else linalg_trap)(trap):
                    self.solve(e["route"], e)
        except (MemoryError, Injected, np.linalg.LinAlgError, ValueError) as err:
            if not trap.fired and not isinstance(err, ValueError):
                raise
        self.res.faults["failing " + what] += trap.fired
        self.res.probes["failed solve"] += trap.fired

    # --------------------------------------------------------------- bounds

    def misfit(self, route, lam):
        """Noise-free misfit of parameters as the route weighs it, one norm per row."""
        N = len(self.m)
        E = (self.s.q(lam, N) - self.s.q(self.s.truth, N)) / self.s.sd
        if route in ("bayes", "map_problem", "map_log", "linear"):
            return np.linalg.norm(E, axis=1)
        return np.linalg.norm([E[:, g].sum(axis=1) / math.sqrt(len(g)) for g in self.groups()], axis=0)

    def groups(self):
        N = len(self.m)
        return [np.arange(N)] if self.s.p == 1 else [np.arange(0, N, 2), np.arange(1, N, 2)]

    def noise_norm(self, route, drawn=None):
        """Norm of the noise as the route weighs it: that of the measurements, or what fresh noise may reach."""
        N, p = len(self.m), self.s.p
        z = (self.m - self.s.q(self.s.truth, N).ravel()) / self.s.sd
        if route in OWN:
            if drawn is None:
                return Z * math.sqrt(p)
            z = drawn
        if route in ("bayes", "linear", "map_problem", "map_log"):
            if self.s.kind != "linear":
                return Z * math.sqrt(p)
            return float(np.linalg.norm(np.linalg.qr(self.s.rows(N)[0])[0].T @ z))
        return float(np.linalg.norm([z[g].sum() / math.sqrt(len(g)) for g in self.groups()]))

    def usable(self, route):
        N, n, p = len(self.m), len(self.lam), self.s.p
        if N < 2 * p or n < 8:
            return False
        if route in ("linear", "wme", "iterative") and self.s.kind != "linear":
            return False
        if route in ("pca", "svd") and (self.s.kind != "linear" or N < 3):
            return False
        if N > 600 and route in ("linear", "pca", "svd"):  # cubic in the number of measurements
            return False
        return True

    def judge(self, route, e, what=""):
        """Distance from the truth of one estimate, or None; checked against its bound."""
        if not self.usable(route):
            return None
        n, p = len(self.lam), self.s.p
        near = float(self.misfit(route, self.lam).min())
        z = self.noise_norm(route)
        if route == "ratio":
            return self.ratio()
        if route == "spread":
            return self.spread(e)
        if route in ("bayes", "map_problem", "map_log"):
            zz = z + (math.sqrt(2 * math.log(n)) if self.s.kind != "linear" else 0)
            bound = near + 2 * zz
            # log of the largest likelihood, between these two
            N = len(self.m)
            top = -N * math.log(self.s.sd * math.sqrt(2 * math.pi))
            if route != "map_log" and (abs(top) > 600 or top - (near + 3 * math.sqrt(N) + zz) ** 2 / 2 < -600):
                route, zz = "map_log", Z * math.sqrt(p) + (math.sqrt(2 * math.log(n)) if self.s.kind != "linear" else 0)
                bound = near + 2 * zz
        elif route in ("linear", "wme", "iterative"):
            bound = None
        else:
            if near + z > 30:
                self.res.probes["too coarse"] += 1
                self.res.event(self.n, route, "too coarse")
                return None
            bound = math.sqrt((near + z) ** 2 + 2 * math.log(n)) + z
        self.drawn = None
        point, slack = self.solve(route, e)
        if bound is None:
            bound = slack
        elif route in OWN and self.drawn:
            z = self.noise_norm(route, np.array(self.drawn))  # the noise the code really drew
            if route.startswith("map"):
                if self.s.kind == "linear":
                    bound = near + 2 * z
            else:
                bound = math.sqrt((near + z) ** 2 + 2 * math.log(n)) + z
        point = np.asarray(point, float).reshape(1, -1)
        if point.shape[1] != p or not np.all(np.isfinite(point)):
            self.bad("no-estimate", f"{what}{route} answers {point.tolist()}")
        got = float(self.misfit(route, point)[0])
        self.judged += 1
        err = float(np.linalg.norm(point - self.s.truth))
        self.res.event(self.n, route, n, len(self.m))
        self.res.ops["estimate " + route] += 1
        if got > bound * (1 + 1e-4) + 1e-4:
            self.bad("far-from-truth", f"{what}{route}: {point.ravel().tolist()} for the parameter "
                     f"{self.s.truth.ravel().tolist()} is {got:.3g} noise units away, at most {bound:.3g} possible "
                     f"with {n} samples and {len(self.m)} measurements")
        return err

    def ratio(self):
        """The expected ratio of the density route, on so many measurements that the samples resolve them."""
        n, square = len(self.lam), self.s.kind == "square"
        u = float((self.s.truth[0, 0] - self.s.lo) / self.s.width)
        for N in range(len(self.m), 0, -1):
            edges = self.s.q(self.s.domain[0], N).sum(axis=1) - self.m[:N].sum()
            edges /= self.s.sd * math.sqrt(N)
            V = abs(edges[1] - edges[0]) / (2 * math.sqrt(math.pi)) * (2 * u if square else 1)
            if n / V >= 80:
                break
        if n / V < 80 or min(-edges[0], edges[1]) < 5:
            return None
        D, _ = self.density(N)
        e = float(D.expected_ratio())
        self.judged += 1
        self.res.probes["expected ratio"] += 1
        self.res.event(self.n, "ratio", n, N)
        if abs(e - 1) > RATIO * math.sqrt(V / n) + (0.08 if square else 0.02):
            self.bad("expected-ratio", f"expected ratio {e} with {n} samples and {N} measurements")
        return None

    def spread(self, e):
        """The expected ratio over samples spread evenly: no sampling error, only that of the density estimate."""
        n, square = [600, 900, 1500][e["seed"] % 3], self.s.kind == "square"
        if square and self.s.truth[0, 0] < self.s.lo + 0.5 * self.s.width:
            return None
        for N in range(len(self.m), 0, -1):
            edges = self.s.q(self.s.domain[0], N).sum(axis=1) - self.m[:N].sum()
            edges /= self.s.sd * math.sqrt(N)
            if edges[1] - edges[0] <= 40:
                break
        if edges[1] - edges[0] > 40 or min(-edges[0], edges[1]) < 5:
            return None
        lam = self.s.lo + self.s.width * (np.arange(n) + 0.5).reshape(-1, 1) / n
        ratio = float(self.density(N, lam)[0].expected_ratio())
        self.judged += 1
        self.res.probes["expected ratio"] += 1
        self.res.event(self.n, "spread", n, N)
        if abs(ratio - 1) > 0.15:
            self.bad("expected-ratio", f"expected ratio {ratio} with {n} evenly spread samples and {N} measurements")
        return None

    # --------------------------------------------------------------- routes

    def solve(self, route, e):
        return getattr(self, "by_" + route)(e)

    def preds(self):
        return self.s.q(self.lam, len(self.m))

    def density(self, N=None, lam=None):
        from mud.base import DensityProblem
        from mud.funs import wme
        from scipy.stats import norm

        lam = self.lam if lam is None else lam
        Q = self.s.q(lam, len(self.m))
        D = DensityProblem(lam.copy(), wme(Q[:, :N], self.m[:N].copy(), self.s.sd).reshape(-1, 1),
                           domain=self.s.domain)
        D.set_observed(norm(0, 1))
        return D, None

    def by_density(self, e):
        D, _ = self.density()
        return D.estimate(), None

    by_spread = None

    def by_ratio(self, e):
        D, _ = self.density()
        D.expected_ratio()
        return D.estimate(), None

    by_spread = by_ratio

    def by_vector(self, e):
        """Two weighted mean errors at once."""
        from mud.base import DensityProblem
        from mud.funs import wme

        Q = self.preds()
        q = np.column_stack([wme(Q[:, g::2], self.m[g::2], self.s.sd) for g in (0, 1)])
        return DensityProblem(self.lam, q, domain=self.s.domain).mud_point(), None

    @contextlib.contextmanager
    def own_draws(self, e):
        d = Draws("normal", e["seed"])
        with d.mounted():
            yield d
        # one draw per measurement; fewer cannot come as near as all of them do
        self.drawn = d.got + d._normal(len(self.m) - len(d.got)).tolist() if 0 < len(d.got) <= len(self.m) else []

    def by_mud_problem(self, e):
        """The wrapper, which draws the noise itself."""
        from mud.funs import mud_problem

        N = len(self.m)
        with self.own_draws(e):
            D = mud_problem(self.lam, self.preds(), self.s.q(self.s.truth, N).ravel(), self.s.domain, sd=self.s.sd)
        return D.estimate(), None

    def by_split(self, e):
        from mud.funs import mud_problem

        N = len(self.m)
        with self.own_draws(e):
            D = mud_problem(self.lam, self.preds(), self.s.q(self.s.truth, N).ravel(), self.s.domain,
                            sd=self.s.sd, split=[np.arange(0, N, 2), np.arange(1, N, 2)])
        return D.estimate(), None

    def by_map_problem(self, e, log=False):
        from mud.funs import map_problem

        with self.own_draws(e):
            B = map_problem(self.lam, self.preds(), self.s.q(self.s.truth, len(self.m)).ravel(), self.s.domain,
                            sd=self.s.sd, log=log)
        return B.estimate(), None

    def by_map_log(self, e):
        return self.by_map_problem(e, True)

    def by_bayes(self, e):
        from mud.base import BayesProblem
        from scipy.stats import norm

        B = BayesProblem(self.lam, self.preds(), domain=self.s.domain)
        B.set_likelihood(norm(self.m, self.s.sd))
        return B.estimate(), None

    def living(self):
        """The spatio-temporal problem that lives through the campaign, brought up to date."""
        from mud.base import SpatioTemporalProblem

        if self.T is None:
            self.T = SpatioTemporalProblem()
            self.T.domain = self.s.domain.copy()
        else:
            self.res.probes["living object"] += 1
        T, N = self.T, len(self.m)
        T.sensors, T.times = np.array([[0.5, 0.5]]), np.arange(float(N))
        T.lam = self.lam
        T.data = self.preds()
        T.true_vals = self.s.q(self.s.truth, N).ravel()
        T.measurements = self.m
        T.std_dev = self.s.sd
        return T

    def by_spatial(self, e):
        return self.living().mud_problem(method="wme").estimate(), None

    def by_reference(self, e):
        T = self.living()
        with self.own_draws(e):
            T.measurements_from_reference()
        return T.mud_problem(method="wme").estimate(), None

    def by_pca(self, e):
        return self.living().mud_problem(method="pca", num_components=1).estimate(), None

    def by_svd(self, e):
        return self.living().mud_problem(method="svd", num_components=1).estimate(), None

    def by_data_prob(self, e):
        from mud.funs import data_prob
        from scipy.stats import uniform

        D = data_prob(self.lam, self.preds(), measurements=self.m, std_dev=self.s.sd, domain=self.s.domain,
                      init_dist=uniform(self.s.lo, self.s.width))
        return D.estimate(), None

    def prior(self, e):
        r = rs(e["seed"])
        mean = self.s.lo + self.s.width * r.uniform(-1, 2, (self.s.p, 1))
        var = (self.s.width * r.uniform(0.3, 2)) ** 2
        return mean, var * np.eye(self.s.p), float(((self.s.truth.T - mean) ** 2).sum() / var)

    def by_linear(self, e):
        """Maximum a posteriori and least-squares points of all rows together."""
        from mud.base import LinearGaussianProblem

        N, z = len(self.m), self.noise_norm("linear")
        A, c = self.s.rows(N)
        mean, cov, reg = self.prior(e)
        args = dict(b=c, y=self.m.reshape(-1, 1), mean_i=mean, cov_i=cov, cov_o=self.s.sd ** 2 * np.eye(N))
        if e["seed"] % 3 == 0:
            return LinearGaussianProblem(A, **args).solve(method="ls"), 2 * z
        if e["seed"] % 3 == 1:
            from mud.funs import map_sol

            x = map_sol(A, c, args["y"], mean, cov, args["cov_o"])
        else:
            x = LinearGaussianProblem(A, **args).solve(method="map")
        return x, z + math.sqrt(z * z + reg)

    def wme_problem(self, mean=None, cov=None):
        from mud.base import LinearWMEProblem

        N = len(self.m)
        A, c = self.s.rows(N)
        m = (self.m.reshape(-1, 1) - c).ravel()
        return LinearWMEProblem([A[g] for g in self.groups()], [m[g] for g in self.groups()], self.s.sd, mean_i=mean, cov_i=cov)

    def by_wme(self, e):
        z = self.noise_norm("wme")
        mean, cov, reg = self.prior(e)
        new = self.wme_problem(mean, cov)
        if self.L is None or e["seed"] % 2:
            self.L = new
        else:
            self.res.probes["living object"] += 1
            L = self.L
            L.A, L.b, L.mean_i, L.cov_i = new.A, new.b, new.mean_i, new.cov_i
        how = ["mud", "mud_alt", "map", "ls"][e["seed"] // 2 % 4]
        return self.L.solve(method=how), z + math.sqrt(z * z + reg) if how == "map" else z

    def by_iterative(self, e):
        """Row after row until the chain has settled."""
        from mud.base import IterativeLinearProblem

        W = self.wme_problem()
        mean, _, _ = self.prior(e)
        I = IterativeLinearProblem(W.A, W.b, W.y, mu_i=mean, idx_order=[0, 1] if e["seed"] % 2 else [1, 0])
        cos = abs(W.A[0] @ W.A[1]) / np.linalg.norm(W.A[0]) / np.linalg.norm(W.A[1])
        x = mean
        for k in (1, 3, 8):
            x = I.solve(num_epochs=k)
        self.res.probes["iterative"] += 1
        # each row projects onto its solutions: the rest shrinks by the cosine of their angle
        sol = np.linalg.solve(W.A, W.y - W.b)
        rest = np.linalg.norm(W.A, 2) * np.linalg.norm(mean - sol) * cos ** 23
        return x, self.noise_norm("iterative") + float(rest)

    # ------------------------------------------------------------- examples

    def do_example(self, e):
        r = rs(e["seed"])
        with self.own_draws(e):
            getattr(self, "example_" + e["f"].replace(" ", "_"))(r)
        self.judged += 1
        self.res.ops["example " + e["f"]] += 1
        self.res.event(self.n, e["f"])

    def near(self, what, got, want, bound):
        if not abs(got - want) <= bound:
            self.bad("far-from-truth", f"{what}: {got} for {want}, at most {bound} away is possible")

    def example_identity_density(self, r):
        from mud.examples.simple import identity_1D_density_prob

        n, k, mu, sd = 200 + r.randint(1500), 2 + r.randint(60), r.uniform(0.4, 0.6), r.choice([0.02, 0.05])
        D = identity_1D_density_prob(n, k, mu, sd)
        gap = float(np.abs(D.X - mu).min())
        self.near("identity_1D_density_prob", float(np.ravel(D.estimate())[0]), mu, 2 * Z * sd / math.sqrt(k) + gap)
        tol = bernstein(n, 1 / (2 * sd * math.sqrt(math.pi)), 1 / (sd * math.sqrt(2 * math.pi)))
        if tol < 0.8:
            self.res.probes["expected ratio"] += 1
            self.near("its expected ratio", float(D.expected_ratio()), 1, tol + 1e-6)

    def example_identity_bayes(self, r):
        from mud.examples.simple import identity_1D_bayes_prob

        n, k, mu, sd = 200 + r.randint(1500), 2 + r.randint(60), r.uniform(0.3, 0.7), r.choice([0.05, 0.1])
        B = identity_1D_bayes_prob(n, k, mu, sd)
        gap = float(np.abs(B.X - mu).min())
        self.near("identity_1D_bayes_prob", float(np.ravel(B.estimate())[0]), mu, 2 * Z * sd / math.sqrt(k) + gap)

    def example_exp_decay(self, r):
        from mud.examples.exp_decay import exp_decay_1D

        T = exp_decay_1D(num_samples=300 + r.randint(500), sampling_freq=float(r.choice([5.0, 20.0])),
                         lambda_true=float(r.uniform(0.2, 0.8)), std_dev=0.05)
        true = np.ravel(T.true_vals)
        T.measurements_from_reference()
        N, n = len(true), len(T.lam)
        mis = np.abs((np.asarray(T.data) - true).sum(axis=1)) / (0.05 * math.sqrt(N))
        D = T.mud_problem(method="wme")
        x = np.ravel(D.estimate())[0]
        at = int(np.argmin(np.abs(np.ravel(T.lam) - x)))
        self.near("exp_decay_1D", float(mis[at]), 0.0, math.sqrt((mis.min() + Z) ** 2 + 2 * math.log(n)) + Z)

    def example_noisy_linear(self, r):
        from mud.base import LinearWMEProblem
        from mud.examples.linear import noisy_linear_data

        x, N, sd = r.uniform(-1, 1, 2), 5 + r.randint(300), float(r.choice([0.05, 0.5]))
        Ms = [np.array([[1.0, 0.3]]), np.array([[-0.2, 1.0]])]
        data = [noisy_linear_data(M, x, sd, N) for M in Ms]
        got = LinearWMEProblem(Ms, data, sd).solve()
        off = np.linalg.norm(np.vstack(Ms) @ (np.ravel(got) - x)) * math.sqrt(N) / sd
        self.near("noisy_linear_data", float(off), 0.0, Z * math.sqrt(2))

    def example_random_wme(self, r):
        from mud.base import LinearWMEProblem
        from mud.examples.linear import random_linear_wme_problem

        x, N, sd = r.uniform(-1, 1, 2), 5 + r.randint(300), float(r.choice([0.05, 0.5]))
        ops, data, std = random_linear_wme_problem(x, [sd, sd], num_qoi=2, num_observations=[N, N], repeated=True)
        P = LinearWMEProblem(ops, data, [float(v) for v in std])
        A = np.vstack(ops)
        got = P.solve()
        if np.linalg.cond(A) > 50:
            return
        off = np.linalg.norm(A @ (np.ravel(got) - x)) * math.sqrt(N) / sd
        self.near("random_linear_wme_problem", float(off), 0.0, Z * math.sqrt(2) * 1.001)


RATIO = 5.0  # standard errors; the largest seen in calibration was below half of it


def bernstein(n, variance, top, log=23.0):
    """t with P(|mean of n independent values - 1| > t) <= 2 exp(-log)."""
    b = 2 * log * top / 3 / n
    return b / 2 + math.sqrt(b * b / 4 + 2 * log * variance / n)


def execute(plan, res):
    reset_globals()
    Sim(plan, res).run()
