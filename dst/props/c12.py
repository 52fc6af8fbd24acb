"""C12 an example command that succeeds has saved every requested figure."""
import contextlib
import copy
import io
import os
import random
import shutil
import warnings

import numpy as np

from .. import targets
from ..common import Interrupt, Trap, draw_trap, error_of, interrupt_at, pick, reset_globals, rs
from ..core import HarnessError, Violation
from ..vfs import Disk

RUNS = {"quick": 640, "thorough": 8000}
CHUNK = 8
MINIMISE = (120.0, 120)
RULE = (
    "One run: 2-6 seeded steps over one output folder (relative, absolute, nested, oddly named, "
    "holding files of the user's, requested names already taken by old or damaged files or by "
    "folders): example commands with random figure selections, and figures saved through the "
    "shared helper, with disks that fail or fill up at any open, write or close, short writes, "
    "failing drawing calls, failing allocations and interruptions at any line; most faulty steps "
    "are repeated without the fault. After each step the whole folder tree is compared with what "
    "was asked for. Non-trivial: at least one step succeeded."
)
STEP = "one command or save"
MEASURE = "distinct event logs (commands, selections, faults and outcomes)"
REAL = ["mud.cli and mud.examples commands", "mud.plot.save_figure", "matplotlib, Pillow", "files in a scratch directory"]
STUB = ["open() served by a simulated disk", "datasets are small synthetic ones"]
ASSUMPTIONS = [
    "a command that reports success although an injected fault fired is accepted if all its figures are complete",
    "after a failed command its own requested files may be missing, old or partial",
    "which figure belongs to which name is checked where figures are saved through Figure.savefig",
]
PROBES = ["disk fault", "partial write", "close fault", "sticky fault", "name taken by folder", "damaged old file",
          "drawing fault", "interrupted", "repeated after fault", "subset of figures", "several windows",
          "helper", "not closed", "folder missing"]

CONTOURS = {"data_mismatch": "data_mismatch_contour", "tikhonov": "tikhonov_contour",
            "consistent": "consistent_contour", "map": "classical_solution", "mud": "consistent_solution",
            "comparison": "map_compare_contour"}
ADCIRC = ("full_ts", "mesh", "ts-pca", "updated_dist", "learned_qoi")
OTHERS = ("bip-vs-sip-7.png", "bip-vs-sip-pf-1.png", "solution_n99.png", "solution_n3", "notes.txt", "lam1.png",
          "lin-dim-cov-convergence.png", "tikhonov_contour.png", ".hidden", "old/keep.png", "updated_dist_2_7.png")


def warm_up():
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    import click.testing  # noqa: F401
    import mud.cli  # noqa: F401
    import PIL.PngImagePlugin  # noqa: F401
    import sklearn.decomposition  # noqa: F401


# --------------------------------------------------------------- generation


def gen_command(rng):
    """(arguments, requested figures without extension, kind)"""
    k = pick(rng, {"helper": 9, "wme": 2, "high": 1, "contours": 3, "comparison": 1.5, "trials": 1.2,
                   "solve": 0.7, "adcirc": 1.6})
    c = {"k": k, "seed": rng.choice([3, 5, 8])}
    if k == "helper":
        c["figs"] = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            c["figs"].append({"name": rng.choice(["a", "b.png", "deep.name.png", "x y.png", "n_{k}", "é.png", "c-5.png",
                                                  "a.pdf", "v.svg", "sub/d.png", "10"]),
                              "close": rng.choice([True, True, False]), "default_close": rng.random() < 0.3,
                              "tight": rng.random() < 0.3, "dpi": rng.choice([20, 30, 50]),
                              "seed": rng.randrange(1000), "open_before": rng.choice([0, 0, 1])})
        names = [f["name"] for f in c["figs"]]
        c["figs"] = [f for i, f in enumerate(c["figs"]) if f["name"] not in names[:i]]
    elif k == "comparison":
        c["n"] = rng.choice([[1], [3], [2, 1], [5, 2]])
    elif k == "contours":
        c["figs"] = rng.choice([[x] for x in CONTOURS] * 2 + [["mud", "map"], ["tikhonov", "comparison"], ["all"]])
    elif k == "trials":
        c["n"] = rng.choice([[3], [4], [5, 2]])
    elif k == "solve":
        c["figs"] = rng.choice([["all"], ["response"], ["qoi"], ["densities"], ["response", "qoi"], ["none"]])
    elif k == "adcirc":
        c["figs"] = rng.choice([[x] for x in ADCIRC] * 2 + [["updated_dist", "mesh"], ["all"], ["none"]])
        c["value"] = rng.choice(["wind_speed_mult_0", "wind_speed_mult_0", "DP"])
        c["windows"] = rng.choice([[0], [1], [0, 1], [0, 1], [0, 3], [0, 2]])
        c["components"] = rng.choice([1, 2])
    return c


def gen_fault(rng):
    k = pick(rng, {"disk": 8, "draw": 1.5, "interrupt": 2, "short": 1})
    if k == "disk":
        op = pick(rng, {"open": 3, "write": 6, "close": 2})
        return {"k": k, "op": op, "at": rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 9] if op == "write" else [0, 0, 0, 1, 1, 2, 3]),
                "error": rng.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "memory"] if op != "open" else
                                    ["EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO"]),
                "partial": rng.choice([0, 0, 1, 100, 700]), "sticky": rng.random() < 0.4}
    if k == "draw":
        return {"k": k, "at": rng.choice([0, 1, 2, 4, 8, 15]), "error": rng.choice(["memory", "value", "injected"])}
    if k == "interrupt":
        return {"k": k, "at": rng.choice([0, 1, 2, 3, 5, 9, 20, 60, 150, 400])}
    return {"k": k, "n": rng.choice([1, 100, 1000])}


WINDOWS = [("01:00:00", "09:00:00"), ("02:00:00", "05:00:00"), ("03:00:00", "11:00:00"), ("06:00:00", "12:30:00")]


def generate(rng, i, tier):
    ops = []
    n = rng.choice([2, 3, 4] if tier == "quick" else [3, 4, 6])
    while len(ops) < n:
        c = gen_command(rng)
        if rng.random() < 0.6:
            ops.append({"cmd": c, "fault": gen_fault(rng), "taken": None})
            if rng.random() < 0.8:
                ops.append({"cmd": copy.deepcopy(c), "fault": None, "taken": None})
        else:
            ops.append({"cmd": c, "fault": None,
                        "taken": rng.choice([None, None, None, "damaged", "old", "folder"])})
    return {"ops": ops, "folder": rng.choice(["figs", "figs", "./figs/", "a b/c", "ABS", ".", "figs.png", "é"]),
            "others": sorted(rng.sample(OTHERS, rng.choice([0, 2, 5]))), "seed": 0, "missing": rng.random() < 0.15}


def requested(c):
    """Names of the figures a command was asked for (None: name not fixed)."""
    k = c["k"]
    if k == "helper":
        return [f["name"] if "." in f["name"] else f["name"] + ".png" for f in c["figs"]]
    if k == "comparison":
        return [f"bip-vs-sip-{x}{n}.png" for n in c["n"] for x in ("", "pf-")]
    if k == "contours":
        return [v + ".png" for f, v in CONTOURS.items() if f in c["figs"] or "all" in c["figs"]]
    if k == "wme":
        return ["lin-meas-cov-sd-convergence.png"]
    if k == "high":
        return ["lin-dim-cov-convergence.png", "lin-rank-cov-convergence.png"]
    if k == "trials":
        return [f"solution_n{n}.png" for n in c["n"]]
    if k == "solve":
        out = {"response": ["response_surface"], "qoi": ["learned_qoi"], "densities": ["lam1", "lam2"]}
        return [n + ".png" for f, v in out.items() if f in c["figs"] or "all" in c["figs"] for n in v]
    out, on = [], lambda f: f in c["figs"] or "all" in c["figs"]
    if on("full_ts"):
        out.append("adcirc_full_ts.png")
    if on("mesh"):
        out.append(f"si-{c['value']}.png")
    for w in c["windows"]:
        a, b = (sum(int(x) * u for x, u in zip(t.split(":"), (3600, 60, 1))) for t in WINDOWS[w])
        size = sum(a < 1800 * j < b for j in range(36))
        if on("ts-pca"):
            out.append(f"pca_vecs_{c['components']}_{size}.png")
        if on("updated_dist"):
            out.append(f"updated_dist_{c['components']}_{size}.png")
        if on("learned_qoi"):
            out.append(f"qoi_{c['components']}_{size}.png")
    return out


def arguments(c, folder):
    k = c["k"]
    head = ["examples", "--seed", str(c["seed"]), "--save-path", folder, "--dpi", "20"]
    if k == "comparison":
        return head + ["comparison", "-n", "30"] + [x for n in c["n"] for x in ("--n-vals", str(n))]
    if k == "contours":
        return head + ["contours"] + [x for f in c["figs"] for x in ("-p", f)]
    if k == "wme":
        return head + ["wme-covariance", "-i", "3", "-o", "2", "-n", "4", "-n", "7"]
    if k == "high":
        return head + ["high-dim-linear", "-i", "3", "-o", "3"]
    if k == "trials":
        return head + ["poisson-trials", targets.DATA["p.pkl"]] + [x for n in c["n"] for x in ("-n", str(n))]
    if k == "solve":
        return head + ["poisson-solve", targets.DATA["p.pkl"]] + [x for f in c["figs"] for x in ("-p", f)]
    d = "2018-01-01 "
    return head + ["adcirc-solve", targets.DATA["a.pkl"], "-n", str(c["components"]), "-mv", c["value"]] + \
        [x for w in c["windows"] for x in ("-t1", d + WINDOWS[w][0], "-t2", d + WINDOWS[w][1])] + \
        [x for f in c["figs"] for x in ("-p", f)]


# ---------------------------------------------------------------- execution


def tree(folder):
    out = {}
    for base, dirs, names in os.walk(folder):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), folder)] = "dir"
        for n in names:
            path = os.path.join(base, n)
            with open(path, "rb") as fp:
                out[os.path.relpath(path, folder)] = fp.read()
    return out


def complete(path, blob):
    """Is this a whole picture?  Returns its size in pixels, True, or None."""
    ext = os.path.splitext(path)[1].lower()
    if ext == ".pdf":
        return True if blob.startswith(b"%PDF-") and blob.rstrip().endswith(b"%%EOF") else None
    if ext == ".svg":
        return True if blob.lstrip().startswith(b"<?xml") and blob.rstrip().endswith(b"</svg>") else None
    from PIL import Image

    if not blob.startswith(b"\x89PNG") or blob[-12:-4] != b"\x00\x00\x00\x00IEND":
        return None
    try:
        img = Image.open(io.BytesIO(blob))
        img.load()
    except Exception:
        return None
    return img.size


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res

    def bad(self, cls, msg):
        raise Violation(cls, f"step {self.n}: {self.what}: {msg}")

    def run(self):
        plan, res = self.plan, self.res
        top = os.path.realpath("c12")
        shutil.rmtree(top, ignore_errors=True)
        self.work = os.path.join(top, "work")
        os.makedirs(os.path.join(self.work, "elsewhere"))
        with open(os.path.join(self.work, "elsewhere", "bip-vs-sip-1.png"), "w") as fp:
            fp.write("not yours")
        base = os.getcwd()
        os.chdir(self.work)
        try:
            folder = plan["folder"]
            if folder == "ABS":
                folder = os.path.join(self.work, "out", "abs")
            self.given, self.folder = folder, os.path.realpath(folder)
            os.makedirs(os.path.dirname(self.folder), exist_ok=True)
            if not (plan["missing"] and folder != "."):
                os.makedirs(self.folder, exist_ok=True)
                for n in plan["others"]:
                    p = os.path.join(self.folder, n)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as fp:
                        fp.write(f"the user's {n}")
            else:
                res.probes["folder missing"] += 1
            self.rel = os.path.relpath(self.folder, self.work)
            self.succeeded = 0
            previous = None
            for self.n, op in enumerate(plan["ops"]):
                res.steps += 1
                res.ops[op["cmd"]["k"]] += 1
                res.probes["repeated after fault"] += bool(previous) and previous["fault"] is not None \
                    and previous["cmd"] == op["cmd"]
                self.step(op)
                previous = op
            res.nontrivial = self.succeeded > 0
        finally:
            os.chdir(base)
            shutil.rmtree(top, ignore_errors=True)

    # ------------------------------------------------------------- one step

    def step(self, op):
        import matplotlib.pyplot as plt

        c, res = op["cmd"], self.res
        self.what = f"{c} with fault {op['fault']}"
        names = requested(c)
        if op["taken"]:
            self.take(op["taken"], names)
        if c["k"] == "helper":
            os.makedirs(self.folder, exist_ok=True)
            for n in names:
                os.makedirs(os.path.dirname(os.path.join(self.folder, n)), exist_ok=True)
        before = tree(self.work)
        self.saves = []
        self.blocked = any(os.path.isdir(os.path.join(self.folder, n)) for n in names)
        err, fired, leaks = self.perform(op)
        after = tree(self.work)
        failed = err is not None
        if not failed and plt.get_fignums() and c["k"] != "helper":
            self.bad("figures-left", "the command left figures open")
        plt.close("all")
        # nothing but the requested figures may have changed, fault or not
        mine = {os.path.normpath(os.path.join(self.rel, n)) for n in names}
        parent, parents = self.rel, set()
        while parent not in ("", "."):
            parents.add(parent)
            parent = os.path.dirname(parent)
        known_name = False
        for path in sorted(set(before) | set(after)):
            if before.get(path) == after.get(path) or path in mine or path in parents:
                continue
            if c["k"] == "adcirc" and os.path.basename(path) == "qoi_{num_components}_{ndata}.png":
                known_name = True
                continue
            if path not in before:
                self.bad("unrequested-file", f"{path} was written, requested were {sorted(mine)}")
            self.bad("file-changed", f"{path} was {'removed' if path not in after else 'changed'}")
        literal = os.path.normpath(os.path.join(self.rel, "qoi_{num_components}_{ndata}.png"))
        if c["k"] == "adcirc" and literal in after and any(n.startswith("qoi_") for n in names):
            known_name = True  # written again with the same bytes
        if self.disk.escapes:
            self.bad("outside", f"writes outside the folder: {self.disk.escapes[:3]}")
        if known_name:
            res.known.append("adcirc_learned_name")
        if failed:
            if op["fault"] is None and not self.blocked:
                self.bad("command-failed", f"{type(err).__name__}: {err}")
            res.event(self.n, c["k"], op["fault"] and op["fault"]["k"], "failed", fired)
            return
        self.succeeded += 1
        self.complete(c, names, before, after, known_name)
        res.event(self.n, c["k"], op["fault"] and op["fault"]["k"], len(names), "ok", fired)

    def take(self, kind, names):
        if not names:
            return
        os.makedirs(self.folder, exist_ok=True)
        p = os.path.join(self.folder, names[self.n % len(names)])
        if os.path.isdir(p):
            return
        if kind == "folder":
            if os.path.exists(p):
                return
            os.makedirs(p)
            self.res.probes["name taken by folder"] += 1
            self.taken = p
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fp:
            fp.write(b"\x89PNG\r\n\x1a\n" + b"torn" * 30 if kind == "damaged" else b"an old picture")
        self.res.probes["damaged old file"] += 1

    def perform(self, op):
        """Run the step under its fault: (exception or None, fired, leaks)."""
        c, f, res = op["cmd"], op["fault"], self.res
        self.disk = d = Disk(self.work)
        trap = Trap()
        fired = 0
        with contextlib.ExitStack() as st:
            st.enter_context(warnings.catch_warnings())
            warnings.simplefilter("ignore")
            st.enter_context(self.recording())
            at = None
            if f and f["k"] == "disk":
                d.arm({"op": f["op"], "at": f["at"], "error": f["error"], "partial": f["partial"],
                       "sticky": f["sticky"]})
            elif f and f["k"] == "short":
                d.arm(None, f["n"])
            elif f and f["k"] == "draw":
                st.enter_context(draw_trap(trap))
                trap.arm(f["at"], error_of(f["error"]))
            st.enter_context(d.mounted())
            if f and f["k"] == "interrupt":
                at = st.enter_context(interrupt_at(f["at"]))
            err = None
            try:
                self.invoke(c)
            except (Violation, HarnessError):
                raise
            except Interrupt as e:
                err = e
            except (Exception, SystemExit) as e:
                err = e
        if f:
            if f["k"] == "disk":
                fired = d.fired
                if fired:
                    res.faults[f"{f['op']} {f['error']}"] += 1
                    res.probes["disk fault"] += 1
                    res.probes["partial write"] += f["op"] == "write" and f["partial"] > 0
                    res.probes["close fault"] += f["op"] == "close"
                    res.probes["sticky fault"] += f["sticky"]
            elif f["k"] == "draw":
                fired = trap.fired
                if fired:
                    res.faults["drawing " + f["error"]] += 1
                    res.probes["drawing fault"] += 1
            elif f["k"] == "interrupt":
                fired = int(at.fired)
                if fired:
                    res.faults["interrupt"] += 1
                    res.probes["interrupted"] += 1
            else:
                res.faults["short writes"] += 1
            if err is not None and not fired and not self.blocked:
                self.bad("command-failed", f"{type(err).__name__}: {err}")
        return err, fired, None

    @contextlib.contextmanager
    def recording(self):
        """Note which figure is saved under which path."""
        from matplotlib.figure import Figure

        own, sim = Figure.savefig, self

        def savefig(fig, fname, *a, **k):
            if isinstance(fname, (str, os.PathLike)):
                texts = [t.get_text() for ax in fig.axes for t in ax.texts] + \
                    [x for ax in fig.axes for x in (ax.get_xlabel(), ax.get_ylabel(), ax.get_title())]
                if fig._suptitle is not None:
                    texts.append(fig._suptitle.get_text())
                sim.saves.append({"path": os.path.realpath(os.fspath(fname)), "fig": id(fig), "texts": texts,
                                  "size": fig.get_size_inches().tolist(), "dpi": k.get("dpi"),
                                  "tight": k.get("bbox_inches")})
            return own(fig, fname, *a, **k)

        Figure.savefig = savefig
        try:
            yield
        finally:
            Figure.savefig = own

    def invoke(self, c):
        if c["k"] == "helper":
            return self.helper(c)
        from click.testing import CliRunner
        from mud.cli import cli

        r = CliRunner().invoke(cli, arguments(c, self.given))
        if r.exception is not None:
            raise r.exception
        if r.exit_code:
            raise RuntimeError(f"exit status {r.exit_code}")

    # ----------------------------------------------------- the save helper

    def figure(self, spec):
        import matplotlib.pyplot as plt

        r = rs(spec["seed"])
        fig, ax = plt.subplots(figsize=(1 + spec["seed"] % 3, 1))
        ax.plot(r.normal(size=5))
        ax.scatter(r.uniform(0, 4, 3), r.normal(size=3))
        ax.text(1, 0, f"key{spec['seed']}")
        return fig

    def helper(self, c):
        import matplotlib.pyplot as plt
        from mud.plot import save_figure

        self.expected = {}
        for spec in c["figs"]:
            keep = [plt.figure().number for _ in range(spec["open_before"])]
            fig = self.figure(spec)
            kw = {"dpi": spec["dpi"]}
            if spec["tight"]:
                kw["bbox_inches"] = "tight"
            name = spec["name"] if "." in spec["name"] else spec["name"] + ".png"
            if name.endswith(".png"):
                ref = io.BytesIO()
                fig.savefig(ref, format="png", **kw)
                self.expected[name] = ref.getvalue()
            args = {} if spec["default_close"] else {"close_fig": spec["close"]}
            save_figure(spec["name"], self.given, **args, **kw)
            closed = spec["default_close"] or spec["close"]
            self.res.probes["helper"] += 1
            self.res.probes["not closed"] += not closed
            if plt.fignum_exists(fig.number) == closed:
                self.bad("figure-state", f"the figure saved with {args} was {'closed' if not closed else 'left open'}")
            for n in keep:
                if not plt.fignum_exists(n):
                    self.bad("figure-state", "saving one figure closed another")

    # ------------------------------------------------------------- success

    def complete(self, c, names, before, after, known_name):
        res = self.res
        full = [os.path.normpath(os.path.join(self.rel, n)) for n in names]
        res.probes["subset of figures"] += c["k"] in ("contours", "solve", "adcirc") and "all" not in c["figs"]
        res.probes["several windows"] += len(c.get("windows", [])) > 1
        if c["k"] == "adcirc" and len(set(full)) < len(full):
            res.known.append("adcirc_same_size")
        missing = [p for p in sorted(set(full)) if not isinstance(after.get(p), bytes)]
        if c["k"] == "solve" and names and not self.saves and all(before.get(p) == after.get(p) for p in full):
            res.known.append("poisson_sol_no_figure")
            return
        if known_name:
            missing = [p for p in missing if not os.path.basename(p).startswith("qoi_")]
        if missing:
            self.bad("figure-missing", f"the command succeeded without {missing}")
        sizes = {}
        for p in sorted(set(full)):
            if p not in after or not isinstance(after[p], bytes):
                continue
            if known_name and os.path.basename(p).startswith("qoi_") and before.get(p) == after[p]:
                continue
            sizes[p] = complete(p, after[p])
            if sizes[p] is None:
                self.bad("figure-incomplete", f"{p} is not a whole picture ({len(after[p])} bytes)")
        # a figure overwritten by another of the same command
        seen = {}
        for s in self.saves:
            path = s["path"] if os.path.splitext(s["path"])[1] else s["path"] + ".png"
            if path in seen and seen[path] != s["fig"]:
                if c["k"] == "adcirc" and known_name and os.path.basename(path).startswith("qoi_"):
                    pass
                elif c["k"] == "adcirc" and len(set(full)) < len(full):
                    pass
                else:
                    self.bad("figure-overwritten", f"two figures were saved as {path}")
            seen[path] = s["fig"]
            rel = os.path.relpath(path, self.work)
            if sizes.get(rel) not in (None, True) and not s["tight"] and s["dpi"]:
                want = [int(round(x * s["dpi"])) for x in s["size"]]
                if any(abs(a - b) > 1 for a, b in zip(want, sizes[rel])):
                    self.bad("figure-incomplete", f"{rel} has {sizes[rel]} pixels, not {want}")
            self.content(c, os.path.basename(path), s["texts"])
        if c["k"] == "helper":
            self.pictures(after)

    def content(self, c, name, texts):
        """A figure saved under this name shows what the name says."""
        joined = "|".join(texts)
        def has(*words):
            if not any(w in joined for w in words):
                self.bad("wrong-figure", f"{name} shows {joined[:200]!r}")
        if c["k"] == "comparison":
            n = int(name[:-4].split("-")[-1])
            has("mathcal{D}" if "-pf-" in name else "Lambda")
            if n != 1:
                has(f"N = {n}")
            elif "N = " in joined:
                self.bad("wrong-figure", f"{name} shows {joined[:200]!r}")
        elif c["k"] == "trials":
            has(f"N = {name[10:-4]}$")
        elif c["k"] == "high":
            has("Dimension" if "dim" in name else "Rank")
        elif c["k"] == "adcirc" and name.startswith("si-"):
            has("Longitude")
        elif c["k"] == "adcirc" and name.startswith("adcirc_full"):
            has("Water Elevation")

    def pictures(self, after):
        import matplotlib.image

        for name, blob in self.expected.items():
            got = after[os.path.normpath(os.path.join(self.rel, name))]
            a, b = (matplotlib.image.imread(io.BytesIO(x), format="png") for x in (got, blob))
            d = targets.image_difference(a, b, name)
            if d:
                self.bad("wrong-figure", f"the saved picture is not the figure: {d}")


def execute(plan, res):
    reset_globals()
    targets.prepare("c12-data")
    plan = copy.deepcopy(plan)
    Sim(plan, res).run()
