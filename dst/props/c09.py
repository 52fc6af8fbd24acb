"""C09 a seed reproduces results exactly, whatever ran before."""
import contextlib
import copy
import json
import os
import pickle
import random
import subprocess
import time

import numpy as np

from .. import core, targets
from ..common import Interrupt, interrupt_at, patched, pick, reset_globals, rs
from ..core import HarnessError, Violation
from ..draws import Draws

RUNS = {"quick": 1400, "thorough": 16000}
CHUNK = 14
MINIMISE = (100.0, 150)
SHRINK_LISTS = ["rounds"]
RULE = (
    "One run: one seeded entry point (noise, measurement generation with and without an inverse "
    "problem, random linear problems, those that take no seed under numpy's, covariance and dimension studies, dataset loaders, Poisson "
    "trials and solution, rotation maps, dataset generation, CLI commands) with its arguments and "
    "a seed, executed again after 2-5 simulated process histories (draws and reseeds of both "
    "global generators, other problems solved, open figures, other targets, the same target under "
    "other seeds or none, interrupted or failing in mid-run, clock jumps), on new and on reused "
    "objects, in some runs also in a fresh interpreter under another hash seed. Values, output, "
    "drawn data and saved images must agree; another seed must draw differently. Non-trivial: at "
    "least two executions were compared."
)
STEP = "one execution or history item"
MEASURE = "distinct event logs (target, arguments, histories and faults)"
REAL = ["mud.util, mud.base, mud.examples, mud.cli", "numpy and stdlib generators", "matplotlib"]
STUB = ["time.time (jumps)", "FEniCS forward solver", "datasets are small synthetic ones"]
ASSUMPTIONS = [
    "arrays are compared to 1e-7 and images to 0.05 % of their pixels (rounding)",
    "poisson-solve draws none of its figures (known finding C12), so only its output is compared",
]
PROBES = ["seed 0", "same object", "fresh interpreter", "interrupted", "failed draw", "clock jump",
          "other seed differs", "generator seeded", "unseeded in between", "images compared"]

SEEDS = [0, 0, 1, 21, 24, 42, 1234, 2**31, 2**32 - 1]


def warm_up():
    import matplotlib.pyplot  # noqa: F401
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    import click.testing  # noqa: F401
    import mud.cli  # noqa: F401
    import mud.examples.examples  # noqa: F401
    import sklearn.decomposition  # noqa: F401


# --------------------------------------------------------------- generation


def gen_target(rng, cheap=False):
    weights = {"add_noise": 8, "measurements": 10, "random_linear": 3, "load_poisson": 2, "load_adcirc": 2,
               "rotation_map": 1.5, "fenics": 1, "unseeded": 6}
    if not cheap:
        weights.update({"wme_covariance": 1.6, "high_dim": 0.8, "poisson_trials": 0.5,
                        "poisson_sol": 0.7, "rotation_trials": 0.4, "command": 1.3})
    k = pick(rng, weights)
    t = {"t": k, "sd": rng.choice([0.05, 0.1, 0.5, 1.0])}
    if k == "add_noise":
        t.update(n=rng.choice([1, 2, 3, 7, 20, 200]), seed=rng.randrange(2**31), list=rng.random() < 0.3,
                 vector=rng.random() < 0.2, keyword=rng.random() < 0.5, default=rng.random() < 0.2)
    elif k == "measurements":
        t.update(seed=rng.randrange(2**31), samples=rng.choice([8, 15, 30]), params=rng.choice([1, 1, 2]),
                 sensors=rng.choice([1, 2, 5]), times=rng.choice([1, 2, 4]), ref=rng.random() < 0.3,
                 std=rng.choice([None, None, 0.2, 1.0]),
                 solve=rng.choice([None, None, "wme", "pca", "svd"]))
        if t["solve"] in ("pca", "svd") and t["sensors"] * t["times"] < 2:
            t["sensors"] = 3
        if rng.random() < 0.04 and t["solve"] == "pca":
            t.update(samples=600, sensors=130, times=5)  # where PCA may pick a random algorithm
    elif k == "random_linear":
        t.update(i=rng.choice([1, 2, 4, 8]), o=rng.choice([1, 2, 4]), solve=rng.random() < 0.5)
        t["o"] = min(t["o"], t["i"])
    elif k == "wme_covariance":
        t.update(i=rng.choice([2, 4, 6]), o=rng.choice([1, 2]), Ns=rng.choice([[5], [3, 9], [2, 4, 8]]))
    elif k == "high_dim":
        t.update(i=rng.choice([3, 4, 6]))
        t["o"] = t["i"]
    elif k in ("load_poisson", "load_adcirc"):
        t["solve"] = rng.random() < 0.3
    elif k == "poisson_trials":
        t.update(Ns=rng.choice([[3], [3, 5]]), order=rng.choice(["random", "random", "sorted", "file"]))
    elif k == "poisson_sol":
        t.update(order=rng.choice(["random", "sorted", "file"]),
                 figs=rng.choice([["none"], ["none"], ["densities"], ["qoi"], ["response"]]))
    elif k == "rotation_map":
        t["n"] = rng.choice([1, 3, 10])
    elif k == "rotation_trials":
        t.update(n=rng.choice([3, 4]), method=rng.choice(["ordered", "shuffle", "batch", "random"]), trials=2)
    elif k == "fenics":
        t.update(n=rng.choice([1, 3, 6]), sensors=rng.choice([1, 4]))
    elif k == "unseeded":
        t.update(n=rng.choice([1, 2, 3, 5, 12]), seed=rng.randrange(2**31), row=rng.random() < 0.5, f=rng.choice(
            ["add_noise", "mud_problem", "map_problem", "measurements", "random_linear", "noisy", "reference",
             "polynomial", "identity density", "identity bayes", "exp_decay"]))
        t["pre"] = rng.choice([None, None, "noise", "measurements", "random_linear"])
        t["solve"] = t["f"] in ("mud_problem", "map_problem", "identity density", "identity bayes")
    elif k == "command":
        w1, w2 = "2018-01-01 01:00:00", "2018-01-01 09:00:00"
        t["cmd"] = rng.choice([
            ["comparison", "-n", "40", "--n-vals", "1"], ["comparison", "-n", "40", "--n-vals", "3"],
            ["wme-covariance", "-i", "3", "-o", "2", "-n", "4", "-n", "7"],
            ["high-dim-linear", "-i", "3", "-o", "3"], ["poisson-solve", "p.pkl"],
            ["poisson-trials", "p.pkl", "-n", "4"],
            ["adcirc-solve", "a.pkl", "-t1", w1, "-t2", w2, "-p", rng.choice(["updated_dist", "none"])],
            ["contours", "-p", "comparison"]])
    return t


def gen_item(rng, heavy):
    k = pick(rng, {"np_draws": 4, "np_seed": 3, "np_state": 1, "py_draws": 2, "py_seed": 2, "density": 1,
                   "linear": 1, "figures": 1, "target": 2, "same": 4, "interrupted": 2, "failed draw": 2,
                   "clock": 1, "entropy": 0.5})
    it = {"k": k, "seed": rng.randrange(2**31)}
    if k == "np_draws":
        it.update(n=rng.choice([1, 1, 2, 3, 7, 50]), f=rng.choice(["randn", "rand", "choice", "shuffle", "randint"]))
    elif k == "target":
        it.update(target=gen_target(rng, cheap=True), with_seed=rng.choice(SEEDS + [None, "same", "same"]))
    elif k == "same":
        it["with_seed"] = rng.choice(SEEDS + [None, None, "next"])
    elif k == "interrupted":
        it.update(at=rng.choice([0, 2, 5, 9, 14, 20, 40, 90]), with_seed=rng.choice(["same", "same", None, 3]))
    elif k == "failed draw":
        it.update(at=rng.choice([0, 0, 1, 2]), with_seed=rng.choice(["same", "same", 3]))
    elif k == "figures":
        it["n"] = rng.choice([1, 2, 3])
    elif k == "clock":
        it["by"] = rng.choice([-86400.0, -1.0, 0.5, 3600.0, 1e8])
    return it


def generate(rng, i, tier):
    t = gen_target(rng)
    heavy = t["t"] in ("command", "poisson_trials", "high_dim", "poisson_sol", "wme_covariance")
    seed = rng.choice(SEEDS) if rng.random() < 0.6 else rng.randrange(2**32)
    near = [seed + 1, seed + 1000, seed ^ (1 << rng.randrange(32)), seed ^ (1 << rng.randrange(32))]
    other = rng.choice([s for s in SEEDS + near if s != seed and s < 2**32])
    rounds = [[gen_item(rng, heavy) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
              for _ in range(rng.choice([1, 2, 3] if heavy else [2, 3, 5]))]
    if heavy:
        for r in rounds:
            del r[2:]
    return {"target": t, "key": seed, "other": other, "numpy_seed": rng.random() < 0.15 and t["t"] not in ("command", "poisson_trials"),
            "reuse": t["t"] == "measurements" and rng.random() < 0.5, "rounds": rounds,
            "fresh": rng.randrange(2**32) if rng.random() < (0.03 if tier == "quick" else 0.05) else None}


def simplify(plan):
    for k, v in (("fresh", None), ("reuse", False), ("numpy_seed", False)):
        if plan[k]:
            yield {**plan, k: v}
    for i, r in enumerate(plan["rounds"]):
        for j in range(len(r)):
            yield {**plan, "rounds": plan["rounds"][:i] + [r[:j] + r[j + 1:]] + plan["rounds"][i + 1:]}


# ---------------------------------------------------------------- execution


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res
        self.t, self.clock = plan["target"], 0.0
        self.objects = []

    def seed_of(self, s):
        return np.int64(s) if self.plan["numpy_seed"] and s is not None else s

    def once(self, seed, obj=None):
        self.res.steps += 1
        self.res.ops[self.t["t"]] += 1
        with jumped(self.clock):
            return targets.run(self.t, self.seed_of(seed), obj)

    def bad(self, cls, msg, key=None):
        t = json.dumps(self.t, sort_keys=True)
        raise Violation(cls, f"{t} with seed {self.plan["key"]}: {msg}", key)

    def run(self):
        plan, t = self.plan, self.t
        seed = plan["key"]
        if seed == 0:
            self.res.probes["seed 0"] += 1
        first = self.once(seed)
        if "raised" in first["out"]:
            if t["t"] == "rotation_trials" and "initial_mean" in first["out"]["message"]:
                self.res.known.append("rotation_map_trials_seed")
                self.res.nontrivial = False
                self.res.event("rotation_map_trials cannot run")
                return
            # a seed may lead to a problem that has no answer; plain draws always work
            if not t.get("solve") and t["t"] not in ("command", "poisson_trials", "poisson_sol"):
                self.bad("unexpected-error", f"{first['out']['raised']}: {first['out']['message']}")
            self.res.probes["impossible problem"] += 1
            self.res.event("raised", first["out"]["raised"])
        if t["t"] == "command" and first["out"].get("files"):
            self.res.probes["images compared"] += 1
        obj = targets.spatial(t) if plan["reuse"] else None
        if obj is not None:
            self.res.probes["same object"] += 1
        for n, items in enumerate(plan["rounds"]):
            for it in items:
                self.res.steps += 1
                self.item(it, obj)
            again = self.once(seed, obj)
            self.same(first, again, f"execution {n + 2} differs")
            self.res.event("round", n, [it["k"] for it in items])
        self.differs(first)
        if plan["fresh"] is not None:
            self.fresh(first)

    # ------------------------------------------------------------ comparing

    def stdlib_only(self):
        """Do differences vanish when the stdlib generator is equalised?"""
        out = []
        for _ in range(2):
            random.seed(4321)
            out.append(self.once(self.plan["key"]))
            np.random.rand(3)
        return targets.difference(*out) is None

    def same(self, first, again, what):
        d = targets.difference(first, again)
        if d is None or "raised" in first["out"] and first["out"]["raised"] == again["out"].get("raised"):
            return
        t = self.t
        sol = t["t"] == "poisson_sol" and t["order"] == "random" or \
            t["t"] == "command" and t["cmd"][0] == "poisson-solve"
        if sol and self.stdlib_only():
            self.res.known.append("poisson_sol_stdlib")
            return
        self.bad("not-reproducible", f"{what}: {d}")

    def differs(self, first):
        t = self.t
        if "raised" in first["out"]:
            return
        if t["t"] == "command" and t["cmd"][0] in ("contours", "poisson-solve"):
            return
        second = self.once(self.plan["other"])
        if t["t"] == "unseeded":
            first, second = first["out"]["out"], second["out"]["out"]
            if t["f"] == "map_problem" or t.get("pre"):
                return  # answers one of its samples, often the same one; a seed of its own went before
            self.res.probes["generator seeded"] += 1
        if targets.difference(first, second, 1e-6, 1e-6) is not None:
            self.res.probes["other seed differs"] += 1
            return
        if t["t"] == "rotation_map":
            self.res.known.append("rotation_map_seed")
            return
        if t["t"] == "command" and t["cmd"][0] == "adcirc-solve":
            return  # a low-resolution picture may hide the difference
        self.bad("same-draws", f"seed {self.plan['other']} gives the same result")

    def fresh(self, first):
        """The same target in a new interpreter under another hash seed."""
        plan = {"target": self.t, "key": self.plan["key"], "numpy_seed": self.plan["numpy_seed"],
                "data": {k: v for k, v in targets.DATA.items()}}
        with open("fresh.json", "w") as fp:
            json.dump(plan, fp)
        env = dict(os.environ, PYTHONHASHSEED=str(self.plan["fresh"]), PYTHONPATH=core.HERE)
        p = subprocess.run([core.PYTHON, "-m", "dst.fresh", os.path.realpath("fresh.json"),
                            os.path.realpath("fresh.pkl")], env=env, cwd=os.getcwd(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode:
            raise HarnessError("fresh interpreter: " + p.stderr.decode()[-500:])
        with open("fresh.pkl", "rb") as fp:
            again = pickle.load(fp)
        self.res.probes["fresh interpreter"] += 1
        self.res.faults["fresh interpreter"] += 1
        self.same(first, again, "a fresh interpreter under another hash seed differs")

    # ------------------------------------------------------------ histories

    def item(self, it, obj):
        import matplotlib.pyplot as plt

        k, r = it["k"], rs(it["seed"])
        self.res.faults["history " + k] += 1
        if k == "np_draws":
            n = it["n"]
            {"randn": np.random.randn, "rand": np.random.rand, "randint": lambda n: np.random.randint(0, 9, n),
             "choice": lambda n: np.random.choice(n + 3, n), "shuffle": lambda n: np.random.shuffle(np.arange(n + 1)),
             }[it["f"]](n)
        elif k == "np_seed":
            np.random.seed(it["seed"] % 2**32)
        elif k == "np_state":
            np.random.set_state(np.random.RandomState(it["seed"] % 2**32).get_state())
        elif k == "py_draws":
            for _ in range(1 + it["seed"] % 9):
                random.random()
        elif k == "py_seed":
            random.seed(it["seed"])
        elif k == "density":
            from mud.base import DensityProblem
            from scipy.stats import norm

            X = r.uniform(size=(20, 1))
            D = DensityProblem(X, X ** 2, domain=[[0, 1]])
            D.set_observed(norm(loc=0.3, scale=0.2))
            D.estimate()
            D.plot_param_space()
            plt.close()
        elif k == "linear":
            from mud.base import LinearGaussianProblem

            LinearGaussianProblem(r.normal(size=(2, 3)), r.normal(size=(2, 1)), r.normal(size=(2, 1))).solve()
        elif k == "figures":
            for _ in range(it["n"]):
                plt.figure().add_subplot().plot(r.normal(size=4))
        elif k == "clock":
            self.clock += it["by"]
            self.res.probes["clock jump"] += 1
        elif k == "entropy":
            np.random.seed(None)
            random.seed()
        elif k == "target":
            s = self.plan["key"] if it["with_seed"] == "same" else it["with_seed"]
            targets.run(it["target"], s)
        else:
            self.self_item(k, it, obj)

    def self_item(self, k, it, obj):
        s = it["with_seed"]
        s = self.plan["key"] if s == "same" else (self.plan["key"] + 1) % 2**32 if s == "next" else s
        if s is None:
            if self.t["t"] == "command":
                return
            self.res.probes["unseeded in between"] += 1
        if k == "same":
            self.once(s, obj)
        elif k == "interrupted":
            at = interrupt_at(it["at"] * (20 if self.t["t"] in ("command", "high_dim", "poisson_trials") else 1))
            try:
                with at:
                    targets.run(self.t, s, obj)
            except Interrupt:
                pass
            self.res.probes["interrupted"] += at.fired
        else:
            d = Draws("normal", it["seed"])
            d.fail_at = it["at"]
            try:
                with d.mounted():
                    targets.run(self.t, s, obj)
            except MemoryError:
                if not d.failed:
                    raise
            self.res.probes["failed draw"] += d.failed


@contextlib.contextmanager
def jumped(by):
    """The clocks a program may read, moved by so many seconds."""
    if not by:
        yield
        return
    with contextlib.ExitStack() as st:
        for name, unit in (("time", 1), ("perf_counter", 1), ("time_ns", 10**9), ("perf_counter_ns", 10**9)):
            old = getattr(time, name)
            st.enter_context(patched(time, name, lambda old=old, unit=unit: old() + type(old())(by * unit)))
        yield


def execute(plan, res):
    reset_globals()
    targets.prepare("c09-data")
    cwd = os.getcwd()
    try:
        Sim(copy.deepcopy(plan), res).run()
    finally:
        import matplotlib.pyplot as plt

        plt.close("all")
        os.chdir(cwd)
    res.shape = None
