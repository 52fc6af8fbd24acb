"""C14 importing the library has no side effects beyond plot styling."""
import decimal
import faulthandler
import gc
import importlib
import io
import locale
import logging
import os
import random
import shutil
import signal
import struct
import sys
import threading
import types
import warnings

from .. import core
from ..common import Interrupt, interrupt_at, patched, pick, rs
from ..core import HarnessError, Violation

core.quiet_env()
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

IMPORT_MUD = False  # importing it is the operation under test
RUNS = {"quick": 1000, "thorough": 12000}
CHUNK = 1  # every run imports into a pristine fork of this process
MINIMISE = (60.0, 120)
SHRINK_LISTS = ["modules"]
RULE = (
    "One run: the library (package, one or several modules in any order, the command line, the "
    "FEniCS module) is imported into a process that has the dependencies but not the library "
    "loaded, with simulated LaTeX programs (working, missing, failing, killed, writing nothing or "
    "damaged output, lacking fonts or packages), a working directory that is plain, read-only, "
    "on a full disk, deleted, or full of oddly named files, 0-4 open figures, interactive mode, "
    "caller rcParams, a missing, broken or working dolfin, from the main or another thread, in "
    "some runs interrupted at one line and repeated, or reloaded. All process-wide state and "
    "every file operation is compared before and after. Non-trivial: the library was imported."
)
STEP = "one module import"
MEASURE = "distinct event logs (environment, module order and outcomes)"
REAL = ["import of mud and mud.examples", "matplotlib's usetex pipeline and rcParams", "files in a scratch directory"]
STUB = ["latex, dvipng and kpsewhich are scripts of the simulator", "dolfin is a stub module",
        "read-only and full disks are errors raised at the interpreter's audit events"]
ASSUMPTIONS = [
    "matplotlib's own LaTeX cache folder may be written",
    "style means the mathtext, font, axes, legend, tick, text, lines, figure and savefig appearance settings",
    "a LaTeX that never answers cannot be simulated: matplotlib waits for it without limit",
]
PROBES = ["working latex", "enabled", "broken latex", "damaged output", "missing latex", "read-only",
          "full disk", "deleted directory", "open figures", "thread", "interrupted", "reload",
          "dolfin broken", "no amsmath"]

MODULES = ["mud", "mud.base", "mud.plot", "mud.util", "mud.funs", "mud.norm", "mud.preprocessing",
           "mud.cli", "mud.examples", "mud.examples.examples", "mud.examples.fenics",
           "mud.examples.linear", "mud.examples.simple", "mud.examples.poisson",
           "mud.examples.adcirc", "mud.examples.comparison", "mud.examples.exp_decay"]
STYLE = ("mathtext.", "font.", "axes.", "legend.", "xtick.", "ytick.", "text.", "lines.", "patch.",
         "figure.", "savefig.facecolor", "savefig.edgecolor", "savefig.transparent", "grid.", "image.",
         "scatter.", "contour.", "errorbar.", "hist.", "boxplot.", "markers.")
NOT_STYLE = ("figure.max_open_warning", "figure.hooks", "axes.formatter.use_locale")

# the dependencies, so that a run only pays for the library itself
for _m in ("scipy.stats", "scipy.stats.contingency", "scipy.special", "scipy.linalg", "scipy.optimize",
           "scipy.interpolate", "scipy.spatial", "sklearn.decomposition", "sklearn.preprocessing", "pandas",
           "click", "prettytable", "wget", "tqdm", "matplotlib.texmanager", "matplotlib.dviread",
           "matplotlib.tri", "matplotlib.colors", "matplotlib.dates", "matplotlib.backends.backend_agg"):
    try:
        importlib.import_module(_m)
    except ImportError:
        pass
import tqdm as _tqdm  # noqa: E402

_tqdm.tqdm.monitor_interval = 0
plt.figure().savefig(io.BytesIO())
plt.close("all")


# --------------------------------------------------------- simulated LaTeX


def dvi(fonts=False, rule=True):
    num, den, mag = 25400000, 473628672, 1000
    pre = struct.pack(">BBIIIB", 247, 2, num, den, mag, 0)
    page = struct.pack(">B10iI", 139, *([1] + [0] * 9), 0xFFFFFFFF)
    if fonts:  # define and select a font, set one character
        page += struct.pack(">BBIIIBB", 243, 0, 0, 655360, 655360, 0, 5) + b"cmr10" + bytes([171, 97])
    if rule:
        page += struct.pack(">Bii", 132, 65536 * 8, 65536 * 5)
    page += bytes([140])
    at = len(pre)
    post = struct.pack(">BIIIIIIHH", 248, at, num, den, mag, 655360, 655360, 1, 1)
    end = struct.pack(">BIB", 249, at + len(page), 2) + b"\xdf" * 7
    return pre + page + post + end


LATEX = ("ok", "ok", "missing", "missing", "fail", "killed", "silent", "garbage", "empty", "truncated",
         "not executable", "bad interpreter", "fonts", "no amsmath")
DVIPNG = ("ok", "ok", "ok", "missing", "fail", "old", "garbage", "empty", "silent", "killed")
KPSE = ("missing", "fail", "bad file")


def script(path, lines, mode=0o755, shell="/bin/sh"):
    with open(path, "w") as fp:
        fp.write(f"#!{shell}\n" + "\n".join(lines) + "\n")
    os.chmod(path, mode)


def install(plan, folder):
    """Put the simulated LaTeX programs on a search path of their own."""
    os.makedirs(folder)
    for name, blob in (("ok.dvi", dvi()), ("fonts.dvi", dvi(True, False)), ("garbage.dvi", b"not a dvi at all\n" * 9),
                       ("empty.dvi", b""), ("truncated.dvi", dvi()[:20]), ("bad.tfm", b"\x00\x01junk")):
        with open(f"{folder}/{name}", "wb") as fp:
            fp.write(blob)
    with open(f"{folder}/ok.png", "wb") as fp:
        fig = matplotlib.figure.Figure(figsize=(0.1, 0.1), dpi=50)
        fig.savefig(fp, format="png")
    with open(f"{folder}/garbage.png", "wb") as fp:
        fp.write(b"\x89PNG\r\n\x1a\nnothing")
    open(f"{folder}/empty.png", "w").close()
    k = plan["latex"]
    out = {"fail": ["echo '! Undefined control sequence.'", "exit 1"], "killed": ["kill -9 $$"], "silent": ["exit 0"],
           "no amsmath": ["if grep -q '\\\\text{' file.tex; then echo '! Undefined \\text'; exit 1; fi",
                          f"cp {folder}/ok.dvi file.dvi"]}.get(k, [f"cp {folder}/{k}.dvi file.dvi"])
    if k in ("not executable", "bad interpreter"):
        out = [f"cp {folder}/ok.dvi file.dvi"]
    if k != "missing":
        script(f"{folder}/latex", out, 0o644 if k == "not executable" else 0o755,
               "/nonexistent/sh" if k == "bad interpreter" else "/bin/sh")
    k = plan["dvipng"]
    version = "dvipng 0.9" if k == "old" else "This is dvipng 1.15\ndvipng 1.15"
    head = [f"case \"$1\" in -version) printf '{version}\\n'; exit 0;; esac"]
    head = [h.replace("\n", "\\n") for h in head]
    out = {"fail": ["exit 1"], "killed": ["kill -9 $$"], "silent": ["exit 0"], "old": ["exit 1"]}.get(
        k, [f"cp {folder}/{k}.png file.png"])
    if k != "missing":
        script(f"{folder}/dvipng", head + out)
    k = plan["kpse"]
    if k != "missing":
        script(f"{folder}/kpsewhich", ["exit 1"] if k == "fail" else [f"echo {folder}/bad.tfm"])


def renders(plan):
    """Does matplotlib, with these programs and this disk, render LaTeX text?"""
    if plan["disk"] == "full":
        return False
    with matplotlib.rc_context({"text.usetex": True, "text.latex.preamble": ""}):
        fig = matplotlib.figure.Figure(figsize=(1, 1), dpi=20)
        fig.add_subplot().set_title("own probe $x$")
        try:
            fig.savefig(io.BytesIO(), format="png")
        except Exception:
            return False
    return True


# --------------------------------------------------------------- generation


def generate(rng, i, tier):
    mods = ["mud"] if rng.random() < 0.2 else []
    for _ in range(rng.choice([1, 1, 2, 4, 7])):
        mods.append(pick(rng, {m: 5 if m in ("mud.plot", "mud.base", "mud.cli", "mud.examples.fenics") else 1
                               for m in MODULES}))
    good = rng.random() < 0.15
    return {
        "latex": "ok" if good else rng.choice(LATEX), "dvipng": "ok" if good else rng.choice(DVIPNG),
        "kpse": rng.choice(KPSE), "cache": "ok" if good else rng.choice(["ok"] * 5 + ["file", "missing"]),
        "disk": pick(rng, {"plain": 5, "readonly": 2, "full": 2}),
        "cwd": pick(rng, {"empty": 2, "odd": 4, "deleted": 1}), "figures": rng.choice([0, 0, 1, 2, 4]),
        "current": rng.random(), "interactive": rng.random() < 0.2,
        "rc": rng.choice([{}, {}, {"text.usetex": True}, {"figure.figsize": [2.0, 2.0], "savefig.format": "pdf"},
                          {"savefig.bbox": "tight", "savefig.dpi": 33}, {"text.latex.preamble": "\\usepackage{x}"},
                          {"figure.dpi": 17, "axes.grid": True}, {"savefig.directory": "nowhere"}]),
        "dolfin": rng.choice(["missing", "missing", "broken", "oserror", "half", "present"]),
        "thread": rng.random() < 0.2, "modules": mods, "reload": rng.random() < 0.2,
        "interrupt": rng.randrange(1, 90) if rng.random() < 0.3 else None,
        "fault": rng.choice(["interrupt", "interrupt", "memory"]), "seed_": rng.randrange(2**31)}


def simplify(plan):
    for k, v in (("thread", False), ("reload", False), ("interrupt", None), ("figures", 0), ("rc", {}),
                 ("interactive", False), ("disk", "plain"), ("cwd", "empty"), ("dolfin", "missing"),
                 ("cache", "ok"), ("kpse", "missing"), ("dvipng", "ok"), ("latex", "missing")):
        if plan[k] != v:
            yield {**plan, k: v}


# ------------------------------------------------------------------ watching


class Watch:
    """Every file and process-state operation, seen at audit events."""

    def __init__(self):
        self.on, self.cache, self.disk, self.cwd = False, None, "plain", ""
        self.writes, self.other, self.refused = [], [], 0
        sys.addaudithook(self.hook)

    def touch(self, path, what):
        if isinstance(path, int) or path is None:
            return
        path = os.path.abspath(os.fsdecode(path)) if not self.gone else os.path.normpath(os.fsdecode(path))
        if path.startswith("/dev/"):
            return
        mine = self.cache and (path == self.cache or path.startswith(self.cache + os.sep))
        if not mine:
            self.writes.append(f"{what} {path}")
        if self.disk == "full" or self.disk == "readonly" and not mine:
            self.refused += 1
            raise OSError(28 if self.disk == "full" else 30, "injected: " + os.strerror(
                28 if self.disk == "full" else 30), path)

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(mode, str) and any(c in mode for c in "wax+") or \
                    isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                self.touch(path, "open for writing")
        elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate", "os.chmod", "os.utime", "os.mkfifo"):
            fd = args[-1] if event in ("os.mkdir", "os.remove", "os.rmdir") and len(args) > 1 else -1
            path = args[0]
            if isinstance(fd, int) and fd >= 0 and not isinstance(path, int):  # relative to an open folder
                path = os.path.join(os.readlink(f"/proc/self/fd/{fd}"), os.fsdecode(path))
            self.touch(path, event)
        elif event in ("os.rename", "os.link", "os.symlink"):
            self.touch(args[1], event)
        elif event in ("os.chdir", "os.putenv", "os.unsetenv", "os.system", "socket.connect", "os.kill",
                       "os.setpriority", "resource.setrlimit", "sys.addaudithook", "os.umask"):
            self.other.append(f"{event} {str(args)[:120]}")


def tree(folder):
    out = {}
    for base, dirs, names in os.walk(folder):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), folder)] = "dir"
        for n in names:
            path = os.path.join(base, n)
            with open(path, "rb") as fp:
                out[os.path.relpath(path, folder)] = fp.read()
    return out


def figure_state():
    figs = []
    for n in plt.get_fignums():
        f = matplotlib._pylab_helpers.Gcf.figs[n].canvas.figure
        figs.append((n, id(f), f.get_size_inches().tolist(), f.dpi, [
            (id(ax), ax.get_title(), [ln.get_xydata().tolist() for ln in ax.lines], ax.get_xlim(), ax.get_ylim(),
             len(ax.collections), len(ax.texts), [ln.get_label() for ln in ax.lines]) for ax in f.axes]))
    active = matplotlib._pylab_helpers.Gcf.get_active()
    cur = active.canvas.figure if active else None
    return {"figures": figs, "current": (active.num, id(cur._axstack.current())) if cur else None}


def process_state():
    root = logging.getLogger()
    st = np.random.get_state()
    return {
        "numpy generator": (st[0], st[1].tolist(), st[2:]), "stdlib generator": hash(random.getstate()),
        "environment": dict(os.environ), "numpy errors": np.geterr(), "numpy printing": repr(np.get_printoptions()),
        "root logger": (root.level, len(root.handlers), logging.root.manager.disable),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "exception hook": (sys.excepthook, sys.displayhook), "search path": list(sys.path),
        "interactive": (plt.isinteractive(), matplotlib.get_backend()), "umask": umask(),
        "warning filters": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters],
        "locale": locale.setlocale(locale.LC_ALL),
        "collector": (gc.isenabled(), gc.get_threshold()), "import system": (len(sys.path_hooks), sys.dont_write_bytecode),
        "library loggers": [(m, logging.getLogger(m).level, len(logging.getLogger(m).handlers))
                            for m in ("matplotlib", "matplotlib.font_manager", "matplotlib.texmanager", "numpy", "scipy")],
        "colour maps": sorted(matplotlib.colormaps), "decimal context": repr(decimal.getcontext()),
        "trace": (sys.getprofile(), sys.getrecursionlimit()), "threads": threading.active_count(),
        "thread switching": sys.getswitchinterval(), "numpy error callback": np.geterrcall(),
        "fault handler": faulthandler.is_enabled(),
        "plot defaults": [sorted((k, repr(d[k])) for k in d.keys() if not k.startswith("backend"))
                          for d in (matplotlib.rcParamsDefault, matplotlib.rcParamsOrig)],
    }


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


class Dolfin:
    """Import of dolfin: missing, failing in several ways, or a stub."""

    def __init__(self, kind):
        self.kind = kind

    def find_spec(self, name, path=None, target=None):
        if name != "dolfin" or self.kind in ("missing", "present", "half"):
            return None
        if self.kind == "oserror":
            raise OSError("injected: libdolfin.so: cannot open shared object file")
        raise RuntimeError("injected: dolfin is broken")

    def install(self):
        sys.modules.pop("dolfin", None)
        if self.kind in ("present", "half"):
            m = types.ModuleType("dolfin")
            if self.kind == "present":
                m.set_log_level = lambda level: None
            sys.modules["dolfin"] = m
        else:
            sys.meta_path.insert(0, self)


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res

    def bad(self, cls, msg):
        p = self.plan
        raise Violation(cls, f"latex {p['latex']}, dvipng {p['dvipng']}, disk {p['disk']}, directory {p['cwd']}, "
                             f"modules {p['modules']}: {msg}")

    def setup(self):
        plan, res = self.plan, self.res
        base = os.getcwd()
        self.box = os.path.join(base, "c14")
        shutil.rmtree(self.box, ignore_errors=True)
        os.makedirs(self.box)
        self.tools = os.path.join(self.box, "tools")
        install(plan, self.tools)
        self.cache = os.path.join(self.box, "tex.cache")
        if plan["cache"] == "file":
            open(self.cache, "w").close()
        elif plan["cache"] == "ok":
            os.makedirs(self.cache)
        import matplotlib.texmanager
        from pathlib import Path

        where = Path(self.cache, "sub") if plan["cache"] == "missing" else Path(self.cache)
        matplotlib.texmanager.TexManager._cache_dir = where
        os.environ["PATH"] = self.tools + os.pathsep + os.environ.get("PATH", "/usr/bin:/bin")
        os.environ["TMPDIR"] = os.path.join(self.box, "tmp")
        os.makedirs(os.environ["TMPDIR"])
        self.cwd = os.path.join(self.box, "work")
        os.makedirs(self.cwd)
        if plan["cwd"] == "odd":
            for n in (".test_fig.png/x", "figures/a.png", "delete.me", "matplotlibrc", "mud.py", "numpy.py",
                      "plot.py", "dolfin.py", "file.tex", "file.dvi", "mud.mplstyle", "test.png", "temp/x", ".latex"):
                p = os.path.join(self.cwd, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as fp:
                    fp.write(f"caller's {n}\nraise SystemExit(3)\n")
        if sys.path[0] != core.REPO_SRC:
            sys.path.insert(0, core.REPO_SRC)
        logging.disable(logging.CRITICAL)

        warnings.simplefilter("ignore")
        # one of the caller's own in front, so that any filter set is seen
        warnings.filterwarnings("ignore", message="of the caller")
        matplotlib.rcdefaults()
        matplotlib.use("Agg")
        for k, v in plan["rc"].items():
            matplotlib.rcParams[k] = v
        (plt.ion if plan["interactive"] else plt.ioff)()
        r = rs(plan["seed_"])
        with matplotlib.rc_context({"text.usetex": False}):
            for n in range(plan["figures"]):
                f, axs = plt.subplots(1, 1 + n % 2, num=3 * n + 1, figsize=(2, 2))
                for ax in np.ravel(axs):
                    ax.plot(r.normal(size=4), label="mine")
                    ax.set_title(f"figure {n}")
        if plan["figures"]:
            plt.figure(3 * int(plan["current"] * plan["figures"]) + 1)
            res.probes["open figures"] += 1
        Dolfin(plan["dolfin"]).install()
        os.chdir(self.cwd)
        self.gone = plan["cwd"] == "deleted"
        if self.gone:
            os.rmdir(self.cwd)
            res.probes["deleted directory"] += 1
        self.watch = Watch()
        self.watch.cache, self.watch.disk = self.cache, plan["disk"]
        self.watch.cwd, self.watch.gone = self.cwd, self.gone
        np.random.seed(5)
        random.seed(5)

    def snapshot(self):
        return {"rc": dict(matplotlib.rcParams), "pyplot": figure_state(), "process": process_state(),
                "files": {} if self.gone else tree(self.cwd), "tmp": tree(os.environ["TMPDIR"])}

    def renders(self):
        if not hasattr(self, "can"):
            self.can = renders(self.plan)
        return self.can

    # ------------------------------------------------------------ comparing

    def check(self, before, what):
        plan, res, w = self.plan, self.res, self.watch
        now = self.snapshot()
        if w.writes:
            self.bad("file-written", f"{what}: {w.writes[:4]}")
        if w.other:
            self.bad("process-changed", f"{what}: {w.other[:4]}")
        for k in ("files", "tmp"):
            if now[k] != before[k]:
                diff = sorted(set(now[k]) ^ set(before[k])) or [n for n in now[k] if now[k][n] != before[k][n]]
                self.bad("file-written", f"{what}: the caller's files changed: {diff[:5]}")
        if now["pyplot"]["figures"] != before["pyplot"]["figures"]:
            self.bad("figures-changed", f"{what}: open figures were {[f[0] for f in before['pyplot']['figures']]}, "
                                        f"now {[f[0] for f in now['pyplot']['figures']]} (or their contents changed)")
        if now["pyplot"]["current"] != before["pyplot"]["current"]:
            self.bad("figures-changed", f"{what}: the current figure or axes changed")
        for k, v in before["process"].items():
            if now["process"][k] != v:
                self.bad("process-changed", f"{what}: {k} changed")
        for k in sorted(set(now["rc"]) | set(before["rc"])):
            if repr(now["rc"].get(k)) == repr(before["rc"].get(k)):
                continue
            if not k.startswith(STYLE) or k in NOT_STYLE:
                self.bad("setting-changed", f"{what}: rcParams[{k!r}] changed to {now['rc'].get(k)!r}")
        if now["rc"]["text.usetex"] and not self.renders():
            if not (before["rc"]["text.usetex"] and "mud.plot" not in sys.modules):
                self.bad("latex-enabled", f"{what}: LaTeX text is enabled although it cannot render")
        res.probes["enabled"] += bool(now["rc"]["text.usetex"]) and self.renders()

    def load(self, names, reload=False):
        """Import modules, from this or another thread: exception or None."""
        out = []

        def go():
            try:
                for n in names:
                    self.res.steps += 1
                    self.res.ops["reload" if reload else "import"] += 1
                    if reload:
                        importlib.reload(sys.modules[n])
                    else:
                        importlib.import_module(n)
            except BaseException as e:
                out.append(e)

        self.watch.on = True
        try:
            if self.plan["thread"]:
                t = threading.Thread(target=go)
                t.start()
                t.join()
            else:
                go()
        finally:
            self.watch.on = False
        return out[0] if out else None

    def run(self):
        plan, res = self.plan, self.res
        self.setup()
        res.faults["latex " + plan["latex"]] += 1
        res.faults["dvipng " + plan["dvipng"]] += 1
        res.faults["disk " + plan["disk"]] += 1
        res.faults["dolfin " + plan["dolfin"]] += 1
        p = res.probes
        p["missing latex"] += plan["latex"] == "missing"
        p["broken latex"] += plan["latex"] in ("fail", "killed", "silent", "not executable", "bad interpreter")
        p["damaged output"] += plan["latex"] in ("garbage", "empty", "truncated", "fonts")
        p["no amsmath"] += plan["latex"] == "no amsmath"
        p["read-only"] += plan["disk"] == "readonly"
        p["full disk"] += plan["disk"] == "full"
        p["thread"] += plan["thread"]
        p["dolfin broken"] += plan["dolfin"] in ("broken", "oserror", "half")
        before = self.snapshot()
        stdout, buf = sys.stdout, io.StringIO()
        sys.stdout = buf
        try:
            if plan["interrupt"] is not None and not plan["thread"]:
                at = interrupt_at(plan["interrupt"])
                with at:
                    err = self.load(plan["modules"])
                if at.fired:
                    if not isinstance(err, Interrupt):
                        self.bad("interrupt-lost", f"the import answered an interruption with {err!r}")
                    p["interrupted"] += 1
                    res.faults["interrupted import"] += 1
                    res.event("interrupted at", at.where)
                    self.check(before, f"import interrupted in {at.where}")
                elif err is not None:
                    self.failed(err)
            err = self.load(plan["modules"])
            if err is not None:
                self.failed(err)
            self.check(before, "import")
            if plan["reload"]:
                p["reload"] += 1
                mid = self.snapshot()
                names = [n for n in ("mud.plot", "mud.examples.fenics", "mud.util") if n in sys.modules]
                err = self.load(names, True)
                if err is not None:
                    self.failed(err)
                self.check(mid, "reload")
        finally:
            sys.stdout = stdout
        if buf.getvalue():
            self.bad("output", f"importing printed {buf.getvalue()[:200]!r}")
        self.use()
        res.event(*(plan[k] for k in ("latex", "dvipng", "kpse", "cache", "disk", "cwd", "dolfin", "figures")),
                  plan["modules"], "usetex", matplotlib.rcParams["text.usetex"])

    def failed(self, err):
        if isinstance(err, (HarnessError, Violation)):
            raise err
        self.bad("import-failed", f"{type(err).__name__}: {err}")

    def use(self):
        """Text can be drawn with the settings the import left behind."""
        self.res.probes["working latex"] += self.renders()
        if "mud.plot" not in sys.modules:
            return
        if matplotlib.rcParams["text.usetex"]:
            return
        fig = matplotlib.figure.Figure(figsize=(1, 1), dpi=20)
        fig.add_subplot().set_title("title")
        try:
            fig.savefig(io.BytesIO(), format="png")
        except Exception as e:
            self.bad("drawing-broken", f"drawing after the import fails: {type(e).__name__}: {e}")


def execute(plan, res):
    if any(m == "mud" or m.startswith("mud.") for m in sys.modules):
        raise HarnessError("the library is already loaded")
    base = os.getcwd()
    try:
        Sim(plan, res).run()
    finally:
        os.chdir(base)
        shutil.rmtree(os.path.join(base, "c14"), ignore_errors=True)
        for m in [m for m in sys.modules if m == "mud" or m.startswith("mud.")]:
            del sys.modules[m]
