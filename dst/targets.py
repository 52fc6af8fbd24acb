"""Seeded entry points of the library, each run to a plain, comparable result.

A target is {"t": name, args...}; `run(target, seed)` calls the real code and
returns a nested structure of arrays, strings and numbers that holds everything
it returned, printed, drew and saved.
"""
import contextlib
import io
import os
import pickle
import random
import shutil
import warnings

import numpy as np

from . import datasets
from .common import patched, rs

DATA = {}


def prepare(folder):
    """Dataset files the loaders and commands read (written once per process)."""
    folder = os.path.realpath(folder)
    if DATA.get("folder") == folder:
        return
    os.makedirs(folder, exist_ok=True)
    for name, d in (("p.pkl", datasets.poisson()), ("a.pkl", datasets.adcirc())):
        DATA[name] = os.path.join(folder, name)
        with open(DATA[name], "wb") as fp:
            pickle.dump(d, fp)
    DATA["folder"] = folder


# ------------------------------------------------------------ what was drawn


def drawn(numbers):
    """Contents of the given figures, as arrays and strings."""
    import matplotlib.pyplot as plt

    out = []
    for num in numbers:
        for ax in plt.figure(num).axes:
            a = {"lines": [np.asarray(ln.get_xydata(), float) for ln in ax.lines],
                 "text": [t.get_text() for t in ax.texts],
                 "labels": [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()],
                 "lims": [np.array(ax.get_xlim()), np.array(ax.get_ylim())],
                 "marks": []}
            for c in ax.collections:
                a["marks"].append(np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan))
                v = c.get_array()
                a["marks"].append(np.zeros(0) if v is None else np.ma.filled(np.ma.asarray(v, float), np.nan))
            out.append(a)
    return out


def images(folder):
    """Every file below a folder: images decoded, others as bytes."""
    import matplotlib.image

    out = {}
    for base, _, names in os.walk(folder):
        for n in names:
            path = os.path.join(base, n)
            rel = os.path.relpath(path, folder)
            with open(path, "rb") as fp:
                head = fp.read(8)
            if head[:4] == b"\x89PNG":
                out[rel] = ("image", matplotlib.image.imread(path))
            else:
                with open(path, "rb") as fp:
                    out[rel] = ("bytes", fp.read())
    return out


def density(D):
    """Everything a density problem answers."""
    return {"X": D.X, "y": D.y, "domain": D.domain, "est": D.estimate(), "mud": D.mud_point(),
            "r": D.expected_ratio()}


def linear(L):
    return {k: np.asarray(getattr(L, k), float) for k in ("A", "b", "y", "mean_i", "cov_i")}


# --------------------------------------------------------------- the targets


def add_noise(t, seed):
    from mud.util import add_noise

    sig = rs(t["seed"]).normal(size=t["n"])
    if t.get("list"):
        sig = sig.tolist()
    if t.get("default"):
        return {"out": add_noise(sig, seed=seed)}
    sd = rs(t["seed"] + 1).uniform(0.1, 1, t["n"]) if t.get("vector") else t["sd"]
    return {"out": add_noise(sig, sd, seed=seed) if t.get("keyword") else add_noise(sig, sd, seed)}


def spatial(t):
    from mud.base import SpatioTemporalProblem

    r = rs(t["seed"])
    n, p, s, k = t["samples"], t["params"], t["sensors"], t["times"]
    T = SpatioTemporalProblem()
    T.sensors, T.times = r.uniform(size=(s, 2)), np.arange(float(k))
    T.domain = np.array([[-1.0, 1.0]] * p)
    T.lam = r.uniform(-1, 1, (n, p))
    B = r.normal(size=(p, s * k))
    T.data = T.lam @ B + 0.1 * (T.lam ** 2) @ B
    T.true_vals = (r.uniform(-0.5, 0.5, (1, p)) @ B).ravel()
    T.std_dev = t["sd"]
    return T


def measurements(t, seed, T=None):
    T = spatial(t) if T is None else T
    kw = {}
    if t.get("std"):
        kw["std_dev"] = t["std"]
    if t.get("ref"):
        kw["ref"] = rs(t["seed"] + 2).normal(size=t["sensors"] * t["times"])
    T.measurements_from_reference(seed=seed, **kw)
    out = {"m": np.ravel(T.measurements), "true": np.ravel(T.true_vals), "std": T.std_dev}
    if t.get("solve"):
        kw = {} if t["solve"] == "wme" else {"num_components": 1}
        D = T.mud_problem(method=t["solve"], **kw)
        out["solution"] = density(D)
    return out


def random_linear(t, seed):
    from mud.examples.linear import random_linear_problem

    ref, L = random_linear_problem(t["i"], t["o"], seed=seed)
    out = {"ref": ref, "prob": linear(L)}
    if t.get("solve"):
        out["sol"] = [np.asarray(x) for x in L.solve(method="all")]
    return out


def wme_covariance(t, seed):
    from mud.examples.linear import run_wme_covariance

    prob, ax = run_wme_covariance(t["i"], t["o"], t["sd"], t["Ns"], seed=seed)
    return {"prob": linear(prob), "cov": prob.updated_cov()}


def high_dim(t, seed):
    from mud.examples.linear import run_high_dim_linear

    dim, rank = run_high_dim_linear(t["i"], t["o"], seed=seed)
    return {"dim": [np.asarray(a) for a in dim], "rank": [np.asarray(a) for a in rank]}


def load_poisson(t, seed):
    from mud.examples.poisson import load_poisson_prob

    _, P = load_poisson_prob(DATA["p.pkl"], std_dev=t["sd"], seed=seed)
    out = {"m": np.ravel(P.measurements)}
    if t.get("solve"):
        out["solution"] = density(P.mud_problem(method="pca", num_components=2))
    return out


def load_adcirc(t, seed):
    from mud.examples.adcirc import load_adcirc_prob

    _, P = load_adcirc_prob(DATA["a.pkl"], std_dev=t["sd"], seed=seed)
    out = {"m": np.ravel(P.measurements)}
    if t.get("solve"):
        out["solution"] = density(P.mud_problem(method="pca", num_components=2))
    return out


def poisson_trials(t, seed):
    from mud.examples.poisson import run_2d_poisson_trials

    P, probs, _ = run_2d_poisson_trials(DATA["p.pkl"], N_vals=t["Ns"], order=t["order"],
                                        sigma=t["sd"], seed=seed)
    return {"m": np.ravel(P.measurements), "sol": [density(D) for D in probs]}


def poisson_sol(t, seed):
    from mud.examples.poisson import run_2d_poisson_sol

    P, D, _ = run_2d_poisson_sol(DATA["p.pkl"], sigma=t["sd"], seed=seed, order=t["order"],
                                 plot_fig=t["figs"], group_idxs=[[0, 2], [2, 4], [4, -1]])
    return {"m": np.ravel(P.measurements), "sol": density(D)}


def rotation_map(t, seed):
    from mud.examples.linear import rotation_map

    return {"out": [np.asarray(a, float) for a in rotation_map(qnum=t["n"], tol=t["sd"], seed=seed)]}


def rotation_trials(t, seed):
    from mud.examples.linear import rotation_map_trials

    rotation_map_trials(numQoI=t["n"], method=t["method"], num_trials=t["trials"],
                        model_eval_budget=2 * t["n"], seed=seed)
    return {}


class StubSurface:
    """Solution of the simulated forward solver: callable, with a mesh."""

    def __init__(self, lam, gamma):
        self.lam, self.gamma = None if lam is None else np.array(lam, float), gamma
        g = np.linspace(0, 1, 5)
        self.mesh_points = np.array([(x, y) for y in g for x in g])

    def __call__(self, *x):
        x = np.ravel(x)
        if self.lam is None:
            return float(self.gamma * x[1] ** 2 * (1 - x[1]) ** 5 * (1 - x[0]) * 66)
        k = np.arange(1, len(self.lam) + 1)
        return float((self.lam * np.sin(np.pi * k * x[1])).sum() * (1 - x[0]))

    def function_space(self):
        return self

    def mesh(self):
        return self

    def coordinates(self):
        return self.mesh_points.copy()


def solve_stub(gamma=-3, lam=None):
    return StubSurface(lam, gamma)


def fenics(t, seed):
    from mud.examples import fenics

    with patched(fenics, "fin_flag", True), patched(fenics, "fenics_poisson_solve", solve_stub), \
            contextlib.redirect_stderr(io.StringIO()):
        full, p = fenics.run_fenics(t["n"], t["sensors"], save_path=None, seed=seed)
    return {k: full[k] for k in ("lam", "data", "true_vals", "sensors")} | {"u": list(full["u"])}


def command(t, seed):
    """One CLI command, in process: output, exit status and the files it saved."""
    from click.testing import CliRunner
    from mud.cli import cli

    folder = os.path.realpath("c09-figs")
    shutil.rmtree(folder, ignore_errors=True)
    args = ["examples", "--seed", str(int(seed)), "--save-path", folder, "--dpi", "24"]
    args += [DATA.get(a, a) for a in t["cmd"]]
    res = CliRunner().invoke(cli, args)
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        raise res.exception
    out = {"exit": res.exit_code, "printed": res.output, "files": images(folder)}
    shutil.rmtree(folder, ignore_errors=True)
    return out


def unseeded(t, seed):
    """Entry points that take no seed: numpy's global generator is theirs."""
    from mud.examples import exp_decay, linear as lin, simple
    from mud.funs import map_problem, mud_problem
    from mud.util import add_noise

    r, n, k = rs(t["seed"]), t["n"], t["f"]
    if k in ("mud_problem", "map_problem"):
        lam = r.uniform(size=(12, 1))
        args = (lam, lam @ r.normal(size=(1, 3)), r.normal(size=3), [[0, 1]], t["sd"], min(n, 3))
    elif k == "measurements":
        T = spatial({**t, "samples": 8, "params": 1, "sensors": 2, "times": n})
    elif k in ("noisy", "reference"):
        ref, M, std = r.normal(size=2), r.normal(size=(1 if t["row"] else n, 2)), r.uniform(0.1, 1, n)
    P = spatial({**t, "samples": 8, "params": 1, "sensors": 2, "times": n}) if t.get("pre") == "measurements" else None
    np.random.seed(seed)
    if t.get("pre") == "noise":  # a seeded call first; where it leaves the generator counts
        add_noise(np.zeros(n), t["sd"], seed=7)
    elif t.get("pre") == "measurements":
        P.measurements_from_reference(std_dev=t["sd"], seed=7)
    elif t.get("pre") == "random_linear":
        lin.random_linear_problem(3, 2, seed=7)
    if k == "add_noise":
        out = add_noise(r.normal(size=n), t["sd"], seed=None)
    elif k == "mud_problem":
        out = density(mud_problem(*args))
    elif k == "map_problem":
        B = map_problem(*args)
        out = {"map": B.map_point()}
    elif k == "measurements":
        T.measurements_from_reference(seed=None)
        out = np.ravel(T.measurements)
    elif k == "random_linear":
        ref, L = lin.random_linear_problem(2 + n % 4, 2, seed=None)
        out = {"ref": ref, "prob": linear(L)}
    elif k == "noisy":
        out = lin.noisy_linear_data(M, ref, std, n if t["row"] else None)
    elif k == "reference":
        q = min(n, 4)
        out = list(lin.random_linear_wme_problem(ref, [t["sd"]] * q, q, q, "uniform" if t["row"] else "normal",
                                                repeated=t["row"]))
    elif k == "polynomial":
        out = list(simple.polynomial_1D_data(3, 5 + n, N=n, sigma=0.7))
    elif k == "identity density":
        out = density(simple.identity_1D_density_prob(10 + n, 2 + n))
    elif k == "identity bayes":
        B = simple.identity_1D_bayes_prob(10 + n, 2 + n)
        out = {"X": B.X, "y": B.y, "map": B.map_point()}
    else:
        T = exp_decay.exp_decay_1D(num_samples=10 + n, sampling_freq=2.0)
        T.measurements_from_reference(std_dev=t["sd"])
        out = {"lam": T.lam, "data": T.data, "m": np.ravel(T.measurements)}
    # where the generator stands afterwards decides what an analysis draws next
    return {"out": out, "next": np.random.random_sample(2)}


TARGETS = {f.__name__: f for f in (
    add_noise, measurements, random_linear, wme_covariance, high_dim, load_poisson, load_adcirc,
    poisson_trials, poisson_sol, rotation_map, rotation_trials, fenics, command, unseeded)}


def run(t, seed, obj=None):
    """Result of one target under a seed, including everything it drew."""
    import matplotlib.pyplot as plt

    before = set(plt.get_fignums())
    current = plt.gcf().number if before else None
    buf = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
        warnings.simplefilter("ignore")
        try:
            out = TARGETS[t["t"]](t, seed, **({"T": obj} if obj is not None else {}))
        except (MemoryError, OSError):
            raise
        except Exception as e:  # what a seed makes impossible is a result as well
            out = {"raised": type(e).__name__, "message": str(e)}
    new = [n for n in plt.get_fignums() if n not in before]
    out = {"out": out, "printed": buf.getvalue(), "drawn": drawn(new)}
    for n in new:
        plt.close(n)
    if current is not None and plt.fignum_exists(current):
        plt.figure(current)
    return plain(out)


def plain(v):
    """A copy that later changes by the code under test cannot reach."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (str, bytes, bool)) or v is None:
        return v
    return np.array(v)


def difference(a, b, rtol=1e-7, atol=1e-9, path=""):
    """First place where two results differ, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return f"{path}: {sorted(a)} against {sorted(b)}"
        pairs = [(k, a[k], b[k]) for k in sorted(a)]
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} against {len(b)} items"
        if len(a) == 2 and isinstance(a[0], str) and a[0] == "image" == b[0]:
            return image_difference(a[1], b[1], path)
        pairs = [(i, x, y) for i, (x, y) in enumerate(zip(a, b))]
    elif isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} against {b.shape}"
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            scale = float(np.nanmax(np.abs(a))) if a.size and np.any(np.isfinite(a)) else 0.0
            if not np.allclose(a, b, rtol=rtol, atol=atol + rtol * (scale if np.isfinite(scale) else 0),
                               equal_nan=True):
                return f"{path}: {np.ravel(a)[:4].tolist()} against {np.ravel(b)[:4].tolist()}"
            return None
        return None if str(a) == str(b) else f"{path}: {a} against {b}"
    else:
        return None if type(a) is type(b) and a == b else f"{path}: {str(a)[:200]!r} against {str(b)[:200]!r}"
    for k, x, y in pairs:
        d = difference(x, y, rtol, atol, f"{path}/{k}")
        if d:
            return d
    return None


def image_difference(a, b, path):
    if a.shape != b.shape:
        return f"{path}: image of {a.shape} against {b.shape}"
    off = np.abs(np.asarray(a, float) - np.asarray(b, float)).max(axis=-1) > 0.02
    if off.sum() > 0.0005 * off.size:
        return f"{path}: {int(off.sum())} of {off.size} pixels differ"
    return None
