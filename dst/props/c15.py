"""C15 a generated PDE dataset is saved whole or the run fails loudly."""
import contextlib
import copy
import io
import os
import pickle
import shutil

import numpy as np

from ..common import Interrupt, error_of, interrupt_at, patched, pick, reset_globals
from ..core import HarnessError, Violation
from ..targets import StubSurface
from ..vfs import Disk

RUNS = {"quick": 2400, "thorough": 40000}
CHUNK = 24
RULE = (
    "One run: 2-6 seeded generations into one folder holding files of the user's, through the "
    "function and the command, with random sizes, ranges, sensor areas and seeds, over a forward "
    "solver that fails in any solve or at any evaluation, a disk that fails or fills up at any "
    "open, write or close, interruptions at any line, and unrelated draws in between; faulty "
    "generations are repeated, saved files are loaded back. Non-trivial: at least one succeeded."
)
STEP = "one generation or load"
MEASURE = "distinct event logs (generations, faults and outcomes)"
REAL = ["mud.examples.fenics.run_fenics", "mud.cli poisson-generate", "mud.examples.poisson.load_poisson_prob",
        "mud.base.SpatioTemporalProblem", "pickle", "files in a scratch directory"]
STUB = ["the FEniCS forward solver (not installed here): an analytic response surface behind the same call",
        "open() served by a simulated disk"]
ASSUMPTIONS = [
    "a failed save may leave a partial file of the dataset's name, which must not load (or load whole)",
    "without a solver the command prints that it is missing and saves nothing",
]
PROBES = ["solve fault", "evaluation fault", "disk fault", "interrupted", "repeated after fault", "solver missing",
          "command", "loaded", "not saved", "same seed again", "unseeded", "damaged file loaded", "bad ranges"]
SHRINK_LISTS = ("ops",)


def warm_up():
    import click.testing  # noqa: F401
    import mud.cli  # noqa: F401
    import tqdm

    tqdm.tqdm.monitor_interval = 0


def gen_op(rng):
    d = rng.choice([1, 2, 2, 2, 3])
    g = {"n": rng.choice([1, 2, 5, 9]), "s": rng.choice([1, 2, 4, 7]), "seed": rng.choice([0, 1, 5, 99, 99, None]),
         "mins": [round(rng.uniform(-6, -3), 1) for _ in range(d)], "maxs": [round(rng.uniform(-2, 1), 1) for _ in range(d)],
         "gamma": rng.choice([-3, -3, -1, 2]), "defaults": rng.random() < 0.25,
         "low": [round(rng.uniform(0, 0.3), 2) for _ in range(2)], "high": [round(rng.uniform(0.6, 1), 2) for _ in range(2)],
         "save": rng.random() < 0.85, "via": rng.choice(["call", "call", "command"]),
         "drawn": rng.choice([0, 0, 1, 17])}
    if rng.random() < 0.04:
        g["maxs"] = g["maxs"][:-1] or g["maxs"] + [0.0]
    return g


def gen_fault(rng, g):
    k = pick(rng, {"disk": 6, "solve": 3, "eval": 3, "interrupt": 3, "missing": 1, "short": 1})
    if k == "disk":
        op = pick(rng, {"open": 2, "write": 5, "close": 2})
        return {"k": k, "op": op, "at": rng.choice([0, 0, 0, 1, 2]), "partial": rng.choice([0, 0, 1, 50, 300]),
                "error": rng.choice(["ENOSPC", "EIO", "EDQUOT", "memory"] if op != "open" else ["EACCES", "EROFS", "EMFILE"]),
                "sticky": rng.random() < 0.4}
    if k == "solve":
        return {"k": k, "at": rng.randrange(g["n"] + 1), "error": rng.choice(["memory", "value", "injected"])}
    if k == "eval":
        return {"k": k, "at": rng.randrange((g["n"] + 1) * g["s"] + 5), "error": rng.choice(["memory", "value", "injected"])}
    if k == "interrupt":
        return {"k": k, "at": rng.choice([0, 1, 3, 8, 20, 45, 90])}
    if k == "short":
        return {"k": k, "n": rng.choice([1, 7, 200])}
    return {"k": k}


def generate(rng, i, tier):
    ops, n = [], rng.choice([2, 3, 4] if tier == "quick" else [3, 5, 7])
    while len(ops) < n:
        g = gen_op(rng)
        if rng.random() < 0.55:
            ops.append({"gen": g, "fault": gen_fault(rng, g), "load": rng.random() < 0.5})
            g = copy.deepcopy(g)
            g["drawn"] = rng.choice([0, 3])
            if rng.random() < 0.85:
                ops.append({"gen": g, "fault": None, "load": rng.random() < 0.5})
        else:
            ops.append({"gen": g, "fault": None, "load": rng.random() < 0.6})
            if rng.random() < 0.3:
                ops.append({"gen": dict(g, drawn=5, save=True, via="call"), "fault": None, "load": False})
    return {"ops": ops, "folder": rng.choice(["data", "./data/", "a b", "ABS", "."]), "seed": 0}


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res

    def bad(self, cls, msg):
        raise Violation(cls, f"step {self.n}: {self.what}: {msg}")

    def run(self):
        top = os.path.realpath("c15")
        shutil.rmtree(top, ignore_errors=True)
        self.work = os.path.join(top, "work")
        os.makedirs(self.work)
        base = os.getcwd()
        os.chdir(self.work)
        try:
            f = self.plan["folder"]
            self.given = os.path.join(self.work, "x", "abs") if f == "ABS" else f
            os.makedirs(self.given, exist_ok=True)
            for name in ("s1_n1_d9_res", "notes", "res"):
                with open(os.path.join(self.given, name), "w") as fp:
                    fp.write("the user's " + name)
            self.results, self.ok = {}, 0
            last = None
            for self.n, op in enumerate(self.plan["ops"]):
                self.res.steps += 1
                self.step(op, last)
                last = op
            self.res.nontrivial = self.ok > 0
        finally:
            os.chdir(base)
            shutil.rmtree(top, ignore_errors=True)

    def files(self):
        out = {}
        for b, _, names in os.walk(self.work):
            for n in names:
                with open(os.path.join(b, n), "rb") as fp:
                    out[os.path.relpath(os.path.join(b, n), self.work)] = fp.read()
        return out

    # ------------------------------------------------------------- one step

    def step(self, op, last):
        from mud.examples import examples, fenics

        g, f, res = op["gen"], op["fault"], self.res
        self.what = f"generation {g} fault {f}"
        res.ops[g["via"]] += 1
        res.probes["repeated after fault"] += bool(last and last["fault"]) and \
            {k: v for k, v in last["gen"].items() if k != "drawn"} == {k: v for k, v in g.items() if k != "drawn"}
        np.random.seed(self.n + 3)
        np.random.random(g["drawn"])
        args = self.arguments(g)
        kept = copy.deepcopy(args)
        before = self.files()
        disk = Disk(self.work)
        self.solver = Solver(f)
        out, err, at = io.StringIO(), None, None
        own = examples.run_fenics
        result = None
        captured = []

        def recorded(*a, **k):
            r = fenics.run_fenics(*a, **k)
            captured.append(r)
            return r

        with contextlib.ExitStack() as st:
            st.enter_context(contextlib.redirect_stderr(io.StringIO()))
            st.enter_context(patched(fenics, "fin_flag", not (f and f["k"] == "missing")))
            st.enter_context(patched(fenics, "fenics_poisson_solve", self.solver))
            if own is fenics.run_fenics:
                st.enter_context(patched(examples, "run_fenics", recorded))
            if f and f["k"] == "disk":
                disk.arm(f)
            elif f and f["k"] == "short":
                disk.arm(None, f["n"])
            st.enter_context(disk.mounted())
            if f and f["k"] == "interrupt":
                at = st.enter_context(interrupt_at(f["at"]))
            try:
                if g["via"] == "call":
                    result = fenics.run_fenics(*args["pos"], **args["kw"])
                else:
                    result = self.command(g, out, captured)
            except (Violation, HarnessError):
                raise
            except (Exception, Interrupt) as e:
                err = e
        after = self.files()
        fired = {"disk": disk.fired, "solve": self.solver.fired, "eval": self.solver.fired,
                 "interrupt": int(bool(at and at.fired)), "missing": 1, "short": 0}[f["k"]] if f else 0
        if fired:
            res.faults[f["k"] + " " + f.get("error", "")] += 1
            res.probes[{"disk": "disk fault", "solve": "solve fault", "eval": "evaluation fault",
                        "interrupt": "interrupted", "missing": "solver missing"}[f["k"]]] += 1
        if repr(args) != repr(kept):
            self.bad("arguments-changed", f"{kept} became {args}")
        saving = g["save"] or g["via"] == "command"
        d = 2 if g["defaults"] else len(g["mins"])
        name = os.path.relpath(os.path.realpath(os.path.join(self.given, f"s{g['n']}_n{g['s']}_d{d}_res")), self.work)
        for path in set(before) | set(after):
            if before.get(path) != after.get(path) and not (saving and path == name):
                self.bad("file-changed", f"{path} was changed or written")
        if disk.escapes:
            self.bad("outside", f"writes to {disk.escapes[:3]}")
        mismatch = not g["defaults"] and len(g["mins"]) != len(g["maxs"])
        res.probes["bad ranges"] += mismatch
        if err is not None:
            if not fired and not mismatch:
                self.bad("generation-failed", f"{type(err).__name__}: {err}")
            res.event(self.n, g["via"], f and f["k"], "failed", fired)
            if op["load"] and saving and after.get(name) is not None:
                self.damaged(name, before, after)
            return
        if f and f["k"] == "missing":
            if after != before:
                self.bad("file-changed", "no solver, but a file was written")
            if g["via"] == "call":
                self.bad("silent-failure", "no solver, but the generation returned")
            if "nable" not in out.getvalue():
                self.bad("silent-failure", f"no solver, printed {out.getvalue()!r}")
            res.event(self.n, g["via"], "missing", "said so")
            return
        if mismatch:
            self.bad("silent-failure", "ranges of different lengths were accepted")
        if f and f["k"] in ("solve", "eval") and fired:
            self.bad("silent-failure", "the solver failed, but the generation returned")
        self.ok += 1
        self.check(g, result, after, name, saving)
        if op["load"] and saving:
            self.load(name)
        res.event(self.n, g["via"], f and f["k"], "ok", fired)

    def arguments(self, g):
        kw = {"seed": g["seed"]} if g["seed"] is not None else {}
        if not g["defaults"]:
            kw |= {"mins": list(g["mins"]), "maxs": list(g["maxs"]), "sensor_low": list(g["low"]),
                   "sensor_high": list(g["high"]), "gamma": g["gamma"]}
        if g["save"]:
            kw["save_path"] = self.given
        return {"pos": [g["n"], g["s"]], "kw": kw}

    def command(self, g, out, captured):
        from click.testing import CliRunner
        from mud.cli import cli

        self.res.probes["command"] += 1
        a = ["examples"] + (["--seed", str(g["seed"])] if g["seed"] is not None else []) + \
            ["--save-path", self.given, "poisson-generate"]
        if not g["defaults"]:
            for o, vals in (("--mins", g["mins"]), ("--maxs", g["maxs"]), ("--sensor_low", g["low"]),
                            ("--sensor_high", g["high"]), ("--gamma", [g["gamma"]])):
                a += [x for v in vals for x in (o, str(v))]
        r = CliRunner().invoke(cli, a + [str(g["n"]), str(g["s"])])
        if r.exception is not None:
            raise r.exception
        out.write(r.output)
        return captured[-1] if captured else None

    # ------------------------------------------------------------- success

    def check(self, g, result, after, name, saving):
        res = self.res
        if saving and name not in after:
            self.bad("not-saved", f"no file {name}")
        stored = None
        if saving:
            try:
                stored = pickle.loads(after[name])
            except Exception as e:
                self.bad("not-whole", f"the saved file does not load: {type(e).__name__}: {e}")
        if result is not None:
            full, p = result
            if not saving:
                res.probes["not saved"] += 1
                if p is not None:
                    self.bad("path", f"nothing saved, but path {p!r}")
            elif os.path.realpath(p) != os.path.join(self.work, name):
                self.bad("path", f"returned path {p!r}, saved {name}")
        else:
            full = stored
        if stored is not None:
            self.same(stored, full, "saved and returned dataset")
        lam, xy = np.asarray(full["lam"]), np.asarray(full["sensors"])
        lo, hi = ([-4, -4], [0, 0]) if g["defaults"] else (g["mins"], g["maxs"])
        a, b = ([0, 0], [1, 1]) if g["defaults"] else (g["low"], g["high"])
        gamma = -3 if g["defaults"] else g["gamma"]
        if lam.shape != (g["n"], len(lo)) or (lam < lo).any() or (lam > hi).any():
            self.bad("parameters", f"{lam.tolist()} for {lo}..{hi}")
        if xy.shape != (g["s"], 2) or (xy < a).any() or (xy > b).any():
            self.bad("sensors", f"{xy.tolist()} for {a}..{b}")
        if np.asarray(full["domain"], float).tolist() != [[float(x), float(y)] for x, y in zip(lo, hi)]:
            self.bad("domain", f"{full['domain']}")
        want = np.array([[StubSurface(v, None)(s) for s in xy] for v in lam])
        if np.shape(full["data"]) != want.shape or not np.allclose(full["data"], want, rtol=1e-12, atol=1e-14):
            self.bad("data", "the data are not the forward solutions at the samples and sensors")
        true = StubSurface(None, gamma)
        want = np.array([true(s) for s in xy])
        if np.size(full["true_vals"]) != len(want) or not np.allclose(np.ravel(full["true_vals"]), want, rtol=1e-12):
            self.bad("true-values", "the true values are not the true solution at the sensors")
        c, v = full["u"]
        if not np.array_equal(c, true.mesh_points) or not np.allclose(v, [true(q) for q in true.mesh_points]):
            self.bad("surface", "the response surface is not the true solution on its mesh")
        key = (g["n"], g["s"], str((lo, hi, a, b, gamma)), g["seed"])
        res.probes["unseeded"] += g["seed"] is None
        if g["seed"] is not None:
            if key in self.results:
                res.probes["same seed again"] += 1
                self.same(self.results[key], full, "two runs with one seed")
            self.results[key] = copy.deepcopy(full)

    def same(self, a, b, what):
        for k in ("lam", "data", "true_vals", "sensors", "domain"):
            if not np.array_equal(np.asarray(a[k], float), np.asarray(b[k], float)):
                self.bad("differs", f"{what}: {k}")
        for x, y in zip(a["u"], b["u"]):
            if not np.array_equal(x, y):
                self.bad("differs", f"{what}: u")

    def load(self, name):
        from mud.examples.poisson import load_poisson_prob

        self.res.probes["loaded"] += 1
        with open(os.path.join(self.work, name), "rb") as fp:
            d = pickle.load(fp)
        raw, p = load_poisson_prob(os.path.join(self.work, name), seed=4)
        for what, a, b in (("lam", p.lam, d["lam"]), ("data", p.data, d["data"]), ("sensors", p.sensors, d["sensors"]),
                           ("true_vals", np.ravel(p.true_vals), np.ravel(d["true_vals"])),
                           ("domain", p.domain, np.array(d["domain"], float)), ("raw data", raw["data"], d["data"])):
            if np.shape(a) != np.shape(b) or not np.array_equal(a, b):
                self.bad("load", f"{what} of the loaded problem is not that of the dataset")
        if np.size(p.measurements) != np.size(d["true_vals"]):
            self.bad("load", f"{np.size(p.measurements)} measurements for {np.size(d['true_vals'])} sensors")

    def damaged(self, name, before, after):
        from mud.examples.poisson import load_poisson_prob

        if before.get(name) == after[name]:
            return
        try:
            pickle.loads(after[name])
        except Exception:
            self.res.probes["damaged file loaded"] += 1
            try:
                load_poisson_prob(os.path.join(self.work, name))
            except Exception:
                return
            self.bad("load", "a damaged dataset was loaded")


class Solver:
    """The forward solver: analytic surfaces, with scheduled failures."""

    def __init__(self, fault):
        self.fault = fault if fault and fault["k"] in ("solve", "eval") else None
        self.left = self.fault["at"] if self.fault else -1
        self.fired = 0

    def hit(self, k):
        if self.fault and self.fault["k"] == k and not self.fired:
            self.left -= 1
            if self.left < 0:
                self.fired = 1
                raise error_of(self.fault["error"])

    def __call__(self, gamma=-3, lam=None):
        self.hit("solve")
        return Surface(self, lam, gamma)


class Surface(StubSurface):
    def __init__(self, solver, lam, gamma):
        super().__init__(lam, gamma)
        self.solver = solver

    def __call__(self, *x):
        self.solver.hit("eval")
        return super().__call__(*x)


def execute(plan, res):
    reset_globals()
    Sim(copy.deepcopy(plan), res).run()
