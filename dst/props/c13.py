"""C13 paper datasets are fetched once, whole, and survive interruption."""
import contextlib
import copy
import http.client
import io
import os
import pickle
import random
import shutil
import urllib.error
import urllib.request
import warnings
from email.message import Message

import numpy as np

from .. import datasets
from ..common import Interrupt, interrupt_at, patched, pick, reset_globals
from ..core import HarnessError, Violation
from ..vfs import Disk

RUNS = {"quick": 1000, "thorough": 12000}
CHUNK = 10
MINIMISE = (120.0, 120)
RULE = (
    "One run: 2-6 runs of the paper command over one working directory and output folder, holding "
    "files of the user's under many names and sometimes a dataset fetched earlier, against a "
    "simulated server (refused, not found, cut off, reset or timing out at any block, contents "
    "replaced between runs) and a simulated disk (failing or full at any open, write or close), "
    "with failing renames and crashes before or after every file operation, request and block and "
    "at any line; with and without a forward solver. After each run every dataset file, every byte "
    "read from one and every file of the user's is compared. Non-trivial: a dataset was fetched."
)
STEP = "one run of the command"
MEASURE = "distinct event logs (faults, requests and outcomes)"
REAL = ["mud.cli mud-paper", "wget.download, urllib.request.urlretrieve, shutil.move, Path.rename",
        "mud.examples.poisson/adcirc loaders", "the figures of both datasets, in about 1 run in 100"]
STUB = ["the server behind urllib.request.urlopen", "open() served by a simulated disk",
        "figure functions of the paper command in most runs", "the FEniCS solver (not installed)"]
ASSUMPTIONS = [
    "the server announces the length of what it serves (else a cut is not observable to the client)",
    "temporary or superfluous new files after a crash are accepted; the user's are never touched",
]
PROBES = ["refused", "cut off", "reset", "disk fault", "crash", "rename fault", "interrupted", "repeated after fault",
          "already there", "contents replaced", "user file of the same name", "generated", "real figures",
          "both fetched"]
SHRINK_LISTS = ("ops",)

NAMES = {"p": "poisson_data.pkl", "a": "adcirc-si.pkl"}
USER = ("poisson_data (1).pkl", "poisson_data.pkl.tmp", "data.pkl", "poisson_data", "adcirc-si (1).pkl", "adcirc-si",
        "s1000_n500_d2_res.bak", "notes.txt", "raw/main/poisson_data.pkl", "other/data/adcirc-si.pkl", "poisson_data.pkl.part")
FIGURES = ("run_comparison_example", "run_contours", "run_wme_covariance", "run_high_dim_linear", "tri_mesh_plot",
           "adcirc_ts_plot", "adcirc_time_window")
SLOW = ("run_comparison_example", "run_wme_covariance", "run_high_dim_linear")  # use no dataset
_blobs = {}


def blob(ds, version, full=False):
    """What the server serves."""
    key = (ds, version, full)
    if key not in _blobs:
        if ds == "p":
            d = datasets.poisson(seed=version + 1, n=200, sensors=520) if full else datasets.poisson(version + 1, 200, 30)
        else:
            d = datasets.adcirc(seed=version + 1, n=400, t=576) if full else datasets.adcirc(version + 1, 60, 50)
        _blobs[key] = pickle.dumps(d)
    return _blobs[key]


def warm_up():
    import click.testing  # noqa: F401
    import mud.cli  # noqa: F401
    import tqdm

    tqdm.tqdm.monitor_interval = 0
    for ds in "pa":
        for v in (0, 1):
            blob(ds, v)


# --------------------------------------------------------------- generation


def gen_fault(rng):
    k = pick(rng, {"server": 7, "disk": 4, "crash": 6, "rename": 1.5, "interrupt": 2})
    ds = rng.choice("ppa")
    if k == "server":
        kind = rng.choice(["refused", "http404", "http503", "cut", "cut", "reset", "timeout"])
        return {"k": k, "ds": ds, "kind": kind, "at": rng.choice([0, 1, 2, 3, 5])}
    if k == "disk":
        op = pick(rng, {"open": 2, "write": 5, "close": 2})
        return {"k": k, "op": op, "at": rng.choice([0, 0, 1, 2, 4, 7]), "match": NAMES[ds], "partial": rng.choice([0, 1, 500]),
                "error": rng.choice(["ENOSPC", "EIO", "EDQUOT"] if op != "open" else ["EACCES", "EROFS", "EMFILE"]),
                "sticky": rng.random() < 0.4}
    if k == "crash":
        return {"k": k, "at": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20]), "after": rng.random() < 0.5}
    if k == "rename":
        return {"k": k, "at": rng.choice([0, 1, 2, 3]), "error": rng.choice(["EXDEV", "EIO", "ENOSPC"])}
    return {"k": k, "at": rng.choice([0, 3, 8, 14, 20, 26, 32, 40, 60, 90])}


def generate(rng, i, tier):
    ops, n = [], rng.choice([2, 3, 4] if tier == "quick" else [3, 5, 7])
    version = 0
    while len(ops) < n:
        if rng.random() < 0.2:
            version = 1 - version
        ops.append({"fault": gen_fault(rng) if rng.random() < 0.6 else None, "version": version,
                    "seed": rng.choice([None, 3])})
    ops[-1]["fault"] = None
    plan = {"ops": ops, "folder": rng.choice(["paper", "./paper/", ".", "ABS", "a b"]),
            "user": sorted(rng.sample(USER, rng.choice([0, 3, 6]))),
            "there": rng.choice([[], [], [], ["p"], ["a"]]), "taken": rng.choice([[], [], [], [], [], ["p"], ["a"]]),
            "full": False, "solver": False, "seed": 0}
    if i % 100 == 37:
        plan["full"] = True
        plan["ops"] = [{"fault": gen_fault(rng), "version": 0, "seed": 3}, {"fault": None, "version": 0, "seed": 3}]
        plan["taken"] = []
    elif i % 50 == 11:
        plan["solver"], plan["taken"], plan["there"] = True, [], []
        plan["ops"] = ops[-2:]
        plan["ops"][-1]["seed"] = 3
    return plan


# ------------------------------------------------------------------- server


class Response(io.RawIOBase):
    def __init__(self, net, ds, data, fault):
        self.net, self.ds, self.data, self.fault, self.pos, self.blocks = net, ds, data, fault, 0, 0
        self.headers = Message()
        self.headers["Content-Length"] = str(len(data))
        self.headers["Content-Type"] = "application/octet-stream"
        self.status = self.code = 200
        if fault and fault["kind"] == "cut":
            # the connection ends early, after any whole or part block
            self.data = data[: max(1, min(len(data) - 1, fault["at"] * 8192 + 100 * fault["at"] + 7))]

    def info(self):
        return self.headers

    def geturl(self):
        return "http://sim/"

    def getcode(self):
        return 200

    def readable(self):
        return True

    def read(self, n=-1):
        self.net.operation("block")
        f = self.fault
        if f and f["kind"] in ("reset", "timeout") and self.blocks >= f["at"]:
            self.net.fired += 1
            raise ConnectionResetError(104, "injected: reset by peer") if f["kind"] == "reset" else \
                TimeoutError("injected: timed out")
        self.blocks += 1
        if n is None or n < 0:
            n = len(self.data)
            if f and f["kind"] == "cut":  # as http.client does
                self.net.fired += 1
                raise http.client.IncompleteRead(self.data)
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        if f and f["kind"] == "cut" and self.pos >= len(self.data):
            self.net.fired += 1
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)


class Net:
    """Server, and the schedule of crashes around every operation."""

    def __init__(self, fault, served):
        self.fault, self.served = fault, served
        self.requests, self.fired, self.count = [], 0, 0
        self.renames = 0

    def operation(self, what, act=None):
        f = self.fault
        mine = f and f["k"] == "crash" and self.count == f["at"]
        self.count += 1
        if mine and not f["after"]:
            self.fired += 1
            raise Interrupt("crash before " + what)
        if f and f["k"] == "rename" and what == "rename":
            self.renames += 1
            if self.renames - 1 == f["at"]:
                self.fired += 1
                import errno

                raise OSError(getattr(errno, f["error"]), "injected: rename failed")
        out = act() if act else None
        if mine:
            self.fired += 1
            raise Interrupt("crash after " + what)
        return out

    def urlopen(self, url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        self.operation("request")
        ds = [d for d, n in NAMES.items() if url.endswith("/" + n)]
        if not ds:
            self.requests.append(url)
            raise urllib.error.HTTPError(url, 404, "not found", Message(), io.BytesIO())
        ds = ds[0]
        self.requests.append(ds)
        f = self.fault if self.fault and self.fault["k"] == "server" and self.fault["ds"] == ds else None
        if f and f["kind"] in ("refused", "http404", "http503"):
            self.fired += 1
            if f["kind"] == "refused":
                raise urllib.error.URLError(ConnectionRefusedError(111, "injected: refused"))
            raise urllib.error.HTTPError(url, int(f["kind"][4:]), "injected", Message(), io.BytesIO())
        return Response(self, ds, self.served[ds], f)

    @contextlib.contextmanager
    def mounted(self):
        own = {n: getattr(os, n) for n in ("rename", "replace", "unlink", "remove", "link")}

        def wrap(n):
            def call(*a, **k):
                if not self.sim.inside(a):
                    return own[n](*a, **k)
                return self.operation("rename" if n in ("rename", "replace", "link") else n, lambda: own[n](*a, **k))

            return call

        with contextlib.ExitStack() as st:
            st.enter_context(patched(urllib.request, "urlopen", self.urlopen))
            for n in own:
                st.enter_context(patched(os, n, wrap(n)))
            yield


class Watching(Disk):
    """A disk that notes every dataset read."""

    def open(self, file, mode="r", *a, **k):
        h = super().open(file, mode, *a, **k)
        try:
            if isinstance(file, (str, os.PathLike)) and "r" in mode and "+" not in mode and self.inside(file):
                with self.real_open(file, "rb") as fp:
                    self.reads.append((os.path.realpath(file), fp.read()))
        except OSError:
            pass
        return h


# ---------------------------------------------------------------- execution


class Stub:
    def estimate(self):
        return np.array([1.0, 2.0])

    def expected_ratio(self):
        return 1.0


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res

    def bad(self, cls, msg):
        raise Violation(cls, f"step {self.n}: {self.what}: {msg}")

    def inside(self, args):
        return any(isinstance(a, (str, os.PathLike)) and os.path.realpath(os.fspath(a)).startswith(self.work)
                   for a in args)

    def run(self):
        plan, res = self.plan, self.res
        top = os.path.realpath("c13")
        shutil.rmtree(top, ignore_errors=True)
        self.work = os.path.join(top, "work")
        os.makedirs(self.work)
        base = os.getcwd()
        os.chdir(self.work)
        try:
            f = plan["folder"]
            self.given = os.path.join(self.work, "out") if f == "ABS" else f
            self.folder = os.path.realpath(self.given)
            self.path = {d: os.path.join(self.folder, "data", n) for d, n in NAMES.items()}
            user = {}
            for n in plan["user"]:
                user[os.path.join(self.work, n)] = b"the user's " + n.encode()
                user[os.path.join(self.folder, "data", n)] = b"also the user's " + n.encode()
            for d in plan["taken"]:
                user[os.path.join(self.work, NAMES[d])] = b"not a dataset"
                res.probes["user file of the same name"] += 1
            for d in plan["there"]:
                user[self.path[d]] = blob(d, 0, plan["full"])
            for p, v in user.items():
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fp:
                    fp.write(v)
            self.user, self.tainted, self.fetched = user, set(), 0
            last = None
            for self.n, op in enumerate(plan["ops"]):
                res.steps += 1
                res.ops["full" if plan["full"] else "solver" if plan["solver"] else "light"] += 1
                res.probes["repeated after fault"] += last is not None and last["fault"] is not None
                res.probes["contents replaced"] += last is not None and last["version"] != op["version"]
                self.step(op)
                last = op
            res.nontrivial = self.fetched > 0
        finally:
            os.chdir(base)
            shutil.rmtree(top, ignore_errors=True)

    @staticmethod
    def read(path):
        try:
            with open(path, "rb") as fp:
                return fp.read()
        except OSError:
            return None

    # ------------------------------------------------------------- one step

    def step(self, op):
        plan, res, f = self.plan, self.res, op["fault"]
        self.what = f"mud-paper with fault {f}"
        served = {d: blob(d, op["version"], plan["full"]) for d in NAMES}
        had = {d: self.read(p) for d, p in self.path.items()}
        same_name = {d for d, n in NAMES.items() if os.path.lexists(os.path.join(self.work, n))}
        net = Net(f, served)
        net.sim = self
        disk = Watching(self.work)
        disk.reads = []
        err, at = self.perform(op, net, disk)
        fired = net.fired or (disk.fired if f and f["k"] == "disk" else 0) or int(bool(at and at.fired))
        if f and fired:
            res.faults[f["k"] + " " + (f.get("kind") or f.get("error") or "")] += 1
            res.probes[{"server": {"cut": "cut off", "reset": "reset", "timeout": "reset"}.get(f.get("kind"), "refused"),
                        "disk": "disk fault", "crash": "crash", "rename": "rename fault",
                        "interrupt": "interrupted"}[f["k"]]] += 1
        if disk.escapes:
            self.bad("outside", f"writes to {disk.escapes[:3]}")
        deviated = False
        for p, v in list(self.user.items()):
            if self.read(p) == v:
                continue
            d = [d for d, n in NAMES.items() if p == os.path.join(self.work, n)]
            if d and d[0] in same_name and had[d[0]] is None:
                deviated = True
                self.tainted.add(d[0])
                self.user[p] = self.read(p)
                continue
            self.bad("user-file", f"{os.path.relpath(p, self.work)} was "
                                  f"{'removed' if self.read(p) is None else 'changed'}")
        generated = {"p"} if plan["solver"] else set()
        res.probes["generated"] += plan["solver"]
        for d, p in self.path.items():
            now = self.read(p)
            if d in self.tainted:
                continue
            if had[d] is not None:
                res.probes["already there"] += 1
                if now != had[d]:
                    self.bad("dataset-altered", f"{NAMES[d]} was fetched before and is now "
                                                f"{'gone' if now is None else 'different'}")
                if d in net.requests:
                    self.bad("fetched-again", NAMES[d])
                whole = [had[d]]
            elif d in generated:
                whole = None
                if now is not None:
                    self.generated(now, op)
            else:
                # a leftover of a crash is whole, of this or an earlier version
                whole = [blob(d, v, plan["full"]) for v in ((0, 1) if d in same_name else (op["version"],))]
                if now is not None and now not in whole:
                    if d in same_name:
                        deviated = True
                        self.tainted.add(d)
                        continue
                    self.bad("not-whole", f"{NAMES[d]} holds {len(now)} bytes, {len(served[d])} were served")
                if now is not None:
                    self.fetched += 1
                    if d not in net.requests:
                        self.bad("not-served", f"{NAMES[d]} appeared without a request")
            for path, data in disk.reads:
                if whole is not None and os.path.basename(path) == NAMES[d] and path != os.path.join(self.work, NAMES[d]) \
                        and data not in whole:
                    self.bad("wrong-bytes", f"{NAMES[d]} was used with {len(data)} bytes that were never served")
        if err is None:
            self.finished(op, had, disk)
        elif not fired and not deviated and not self.tainted:
            if plan["solver"] and isinstance(err, FileNotFoundError) and had["p"] is None \
                    and os.path.exists(os.path.join(self.work, "s1000_n500_d2_res")):
                res.known.append("generated_dataset")
            else:
                self.bad("command-failed", f"{type(err).__name__}: {err}")
        if deviated:
            res.known.append("partial_dataset")
        res.event(self.n, f and f["k"], sorted(net.requests), "ok" if err is None else "failed", int(bool(fired)))

    def finished(self, op, had, disk):
        for d, p in self.path.items():
            if d in self.tainted:
                continue
            if self.read(p) is None:
                self.bad("not-kept", f"the command succeeded without {NAMES[d]}")
            if not any(path == p for path, _ in disk.reads):
                self.bad("not-used", f"the command succeeded without reading {NAMES[d]}")
        self.res.probes["both fetched"] += had["p"] is None and had["a"] is None

    def generated(self, now, op):
        from mud.examples import fenics

        try:
            d = pickle.loads(now)
        except Exception as e:
            self.bad("not-whole", f"the generated dataset does not load: {e}")
        if op["seed"] is not None:
            with patched(fenics, "fin_flag", True), patched(fenics, "fenics_poisson_solve", Fast), \
                    contextlib.redirect_stderr(io.StringIO()):
                want, _ = fenics.run_fenics(1000, 500, seed=op["seed"])
            if not np.array_equal(d["lam"], want["lam"]) or not np.array_equal(d["data"], want["data"]):
                self.bad("not-generated", "the dataset is not the one generated with this seed")

    def perform(self, op, net, disk):
        import matplotlib.pyplot as plt
        from click.testing import CliRunner
        from mud.cli import cli
        from mud.examples import examples, fenics, poisson

        plan, f, at, err = self.plan, op["fault"], None, None
        with contextlib.ExitStack() as st:
            st.enter_context(warnings.catch_warnings())
            warnings.simplefilter("ignore")
            st.enter_context(contextlib.redirect_stderr(io.StringIO()))
            self.res.probes["real figures"] += plan["full"]
            for n in SLOW if plan["full"] else FIGURES:
                if hasattr(examples, n):
                    st.enter_context(patched(examples, n, lambda *a, **k: Stub()))
            if not plan["full"]:
                st.enter_context(patched(examples, "run_2d_poisson_sol",
                                         lambda data_file, *a, **k: poisson.load_poisson_prob(data_file)))
                st.enter_context(patched(examples, "run_2d_poisson_trials",
                                         lambda data_file, *a, **k: (poisson.load_poisson_prob(data_file), [Stub()] * 3)))
            if plan["solver"]:
                for m in (examples, fenics):
                    st.enter_context(patched(m, "fin_flag", True))
                st.enter_context(patched(fenics, "fenics_poisson_solve", Fast))
            else:
                for m in (examples, fenics):
                    st.enter_context(patched(m, "fin_flag", False))
            if f and f["k"] == "disk":
                disk.arm(f)
            st.enter_context(disk.mounted())
            st.enter_context(net.mounted())
            if f and f["k"] == "interrupt":
                at = st.enter_context(interrupt_at(f["at"]))
            # temporary names are drawn from this generator
            import tempfile

            names = tempfile._RandomNameSequence()
            names._rng, names._rng_pid = random.Random(self.n), os.getpid()
            st.enter_context(patched(tempfile, "_name_sequence", names))
            a = ["examples"] + (["--seed", str(op["seed"])] if op["seed"] is not None else []) + \
                ["--save-path", self.given, "--dpi", "20", "mud-paper"]
            try:
                r = CliRunner().invoke(cli, a)
                if r.exception is not None:
                    raise r.exception
            except (Violation, HarnessError):
                raise
            except (Exception, Interrupt, SystemExit) as e:
                err = e
        plt.close("all")
        return err, at


class Fast:
    """A quick forward solver."""

    POINTS = np.array([(x, y) for y in np.linspace(0, 1, 4) for x in np.linspace(0, 1, 4)])

    def __init__(self, gamma=-3, lam=None):
        self.a, self.b = (gamma, 1.0) if lam is None else (float(lam[0]), float(lam[1]))

    def __call__(self, *x):
        x = x[0] if len(x) == 1 else x
        return self.a * x[0] * (1 - x[1]) + self.b * x[1] * (1 - x[0])

    def function_space(self):
        return self

    def mesh(self):
        return self

    def coordinates(self):
        return self.POINTS.copy()


def execute(plan, res):
    reset_globals()
    Sim(copy.deepcopy(plan), res).run()
