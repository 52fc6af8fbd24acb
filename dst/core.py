"""Deterministic-simulation core: seeded plans, isolated execution, search,
minimisation, replay and evidence.

A *plan* is a JSON document that fixes one simulated run completely: the
configuration, every operation of every simulated client, every scheduling
decision and every fault with its place.  ``execute(plan)`` (in each property
module) is a pure function of the plan and of the code under test.  Plans are
generated from one integer, VERIF_SEED.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("MUDSIM_SRC", "/repo/src")
PYTHON = "/opt/venv/bin/python"
RUN_CPU_LIMIT = 90  # CPU seconds one simulated run may take (normal: < 3)
RUN_WALL_LIMIT = 240  # wall seconds, only reached by a run that is stuck waiting


class HarnessError(Exception):
    """A defect of the simulator, never reported as a violation."""


class Violation(Exception):
    """A property is broken.  `cls` names the oracle that noticed."""

    def __init__(self, cls, msg, key=None):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg, self.key = cls, msg, key


class Injected(Exception):
    """Exception raised by a fault the simulator injected."""


class Result:
    """What one simulated run did."""

    def __init__(self):
        self.log = []  # event log, one line per event: replay compares it
        self.faults = collections.Counter()  # fault kinds that fired
        self.probes = collections.Counter()  # rare conditions reached
        self.ops = collections.Counter()
        self.steps = 0  # logical time: operations + scheduler steps
        self.shape = None  # key for counting distinct runs
        self.nontrivial = True
        self.violation = None  # (cls, msg, key)
        self.known = []  # known-finding keys seen

    def event(self, *parts):
        self.log.append(" ".join(str(p) for p in parts))

    def digest(self):
        return hashlib.sha256("\n".join(self.log).encode()).hexdigest()[:16]

    def pack(self):
        return {
            "digest": self.digest(),
            "faults": dict(self.faults),
            "probes": dict(self.probes),
            "ops": dict(self.ops),
            "steps": self.steps,
            "shape": self.shape or self.digest(),
            "nontrivial": bool(self.nontrivial),
            "violation": self.violation,
            "known": list(self.known),
            "tail": self.log[-12:],
        }


def derive(*parts):
    """One integer from a path of names and numbers."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


def load_prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def quiet_env():
    os.environ.setdefault("MPLBACKEND", "Agg")
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True


def import_mud():
    """Import the code under test from /repo's working tree."""
    quiet_env()
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    if sys.path[0] != REPO_SRC:
        sys.path.insert(0, REPO_SRC)
    import numpy as np

    np.seterr(all="ignore")
    import mud

    if os.path.realpath(os.path.dirname(mud.__file__)) != os.path.realpath(
        os.path.join(REPO_SRC, "mud")
    ):
        raise HarnessError(f"mud imported from {mud.__file__}")
    for name in ("base", "funs", "norm", "plot", "preprocessing", "util"):
        importlib.import_module(f"mud.{name}")
    return mud


# --------------------------------------------------------------------------
# isolated execution of a session (a list of plans run one after another)


def _alarm(signum, frame):
    raise Violation("no-progress", "the run made no progress within its budget")


def from_mud(e):
    """Did this exception come out of the code under test?"""
    root = os.path.join(os.path.realpath(REPO_SRC), "mud") + os.sep
    tb, inside = e.__traceback__, False
    while tb is not None:
        name = os.path.realpath(tb.tb_frame.f_code.co_filename)
        inside = inside or name.startswith(root)
        tb = tb.tb_next
    return inside


def describe(e):
    """Exception type, message and the last lines of mud code it came through."""
    root = os.path.join(os.path.realpath(REPO_SRC), "mud") + os.sep
    tb, at = e.__traceback__, ""
    while tb is not None:
        name = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if name.startswith(root):
            at = f"{name[len(root):]}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return f"{type(e).__name__}: {e} (in {at})"


def run_one(prop, plan):
    """Execute one plan in this process; never raises for a violation."""
    res = Result()
    old = signal.signal(signal.SIGALRM, _alarm)
    oldp = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_WALL_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU_LIMIT)
    try:
        prop.execute(plan, res)
    except Violation as v:
        res.violation = [v.cls, v.msg[:1500], v.key]
    except HarnessError:
        raise
    except Exception as e:
        # an error out of the code under test where the property allows none, or
        # an answer of the wrong kind that the oracle could not even read;
        # trouble with the simulator's own resources is neither
        if not from_mud(e) and isinstance(e, (MemoryError, OSError)):
            raise
        res.violation = ["unexpected-error", describe(e)[:1500], None]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGPROF, oldp)
    res.event("end", res.violation[0] if res.violation else "ok")
    return res.pack()


def run_session(pid, plans, scratch, stop_on_violation=True):
    """Run plans in order in a forked child (pristine state of this process)."""
    r, w = os.pipe()
    child = os.fork()
    if child == 0:
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            out = []
            try:
                soft = getattr(load_prop(pid), "MEMORY", 4 << 30)
                resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
                prop = load_prop(pid)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                os.makedirs(scratch, exist_ok=True)
                os.chdir(scratch)
                for plan in plans:
                    packed = run_one(prop, plan)
                    out.append(packed)
                    if packed["violation"] and stop_on_violation:
                        break
                payload = pickle.dumps(("ok", out))
            except BaseException:
                payload = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(w, "wb") as fp:
                fp.write(struct.pack(">Q", len(payload)) + payload)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return child, r


def collect(child, r, timeout):
    """Read the result of run_session."""
    buf = b""
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(child, signal.SIGKILL)
            os.close(r)
            os.waitpid(child, 0)
            return ("hang", None)
        ready, _, _ = select.select([r], [], [], min(left, 1.0))
        if ready:
            part = os.read(r, 1 << 16)
            if not part:
                break
            buf += part
    os.close(r)
    _, status = os.waitpid(child, 0)
    if len(buf) < 8:
        return ("died", f"status {status}")
    return pickle.loads(buf[8:])


def session(pid, plans, scratch, stop_on_violation=True, timeout=None):
    child, r = run_session(pid, plans, scratch, stop_on_violation)
    kind, out = collect(
        child, r, timeout or (RUN_WALL_LIMIT + 20) * max(1, min(3, len(plans)))
    )
    return kind, out


# --------------------------------------------------------------------------
# search


class Search:
    def __init__(self, pid, tier, seed, scratch, workers=8, count=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prop = load_prop(pid)
        self.scratch = scratch
        self.workers = workers
        self.count = count or self.prop.RUNS[tier]
        self.chunk = getattr(self.prop, "CHUNK", 25)
        self.budget = {"quick": 480.0, "thorough": 3000.0}[tier]
        if os.environ.get("MUDSIM_BUDGET"):
            self.budget = float(os.environ["MUDSIM_BUDGET"])
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.ops = collections.Counter()
        self.steps = 0
        self.runs = 0
        self.shapes = set()
        self.samples = []
        self.known = {}
        self.errors = []
        self.digests = {}
        self.found = None  # (index, chunk plans, packed)

    def plan(self, i):
        rng = rng_for(self.pid, self.seed, i)
        plan = self.prop.generate(rng, i, self.tier)
        plan["prop"], plan["seed"], plan["run"] = self.pid, self.seed, i
        return plan

    def chunk_plans(self, c):
        lo = c * self.chunk
        return [self.plan(i) for i in range(lo, min(lo + self.chunk, self.count))]

    def absorb(self, c, kind, out):
        if kind == "hang":
            # one of the plans hangs beyond the alarm's reach: find it
            plans = self.chunk_plans(c)
            self.found_candidates.append((c, None, plans, None))
            return
        if kind != "ok":
            self.errors.append(f"chunk {c}: {kind}: {out}")
            return
        for j, packed in enumerate(out):
            i = c * self.chunk + j
            self.runs += 1
            self.faults.update(packed["faults"])
            self.probes.update(packed["probes"])
            self.ops.update(packed["ops"])
            self.steps += packed["steps"]
            if packed["nontrivial"]:
                self.shapes.add(packed["shape"])
            if i % 97 == 0:
                self.digests[i] = packed["digest"]
            for k in packed["known"]:
                self.known[k] = self.known.get(k, 0) + 1
            if packed["violation"]:
                self.found_candidates.append((c, j, None, packed))

    def run(self):
        t0 = time.monotonic()
        self.found_candidates = []
        nchunks = (self.count + self.chunk - 1) // self.chunk
        nxt, active = 0, {}
        self.cut = False
        while True:
            while (
                len(active) < self.workers
                and nxt < nchunks
                and not self.found_candidates
                and not self.errors
            ):
                if time.monotonic() - t0 > self.budget:
                    self.cut = True
                    nxt = nchunks
                    break
                plans = self.chunk_plans(nxt)
                d = os.path.join(self.scratch, f"w{nxt}")
                child, r = run_session(self.pid, plans, d)
                active[r] = [nxt, child, b"", time.monotonic(), d]
                nxt += 1
            if not active:
                break
            ready, _, _ = select.select(list(active), [], [], 1.0)
            for r in ready:
                part = os.read(r, 1 << 16)
                if part:
                    active[r][2] += part
                    continue
                c, child, buf, _, d = active.pop(r)
                os.close(r)
                _, status = os.waitpid(child, 0)
                shutil.rmtree(d, ignore_errors=True)
                if len(buf) < 8:
                    self.absorb(c, "died", f"status {status}")
                else:
                    self.absorb(c, *pickle.loads(buf[8:]))
            now = time.monotonic()
            for r in list(active):
                c, child, buf, started, d = active[r]
                if now - started > 2.5 * RUN_WALL_LIMIT:
                    os.kill(child, signal.SIGKILL)
                    active.pop(r)
                    os.close(r)
                    os.waitpid(child, 0)
                    shutil.rmtree(d, ignore_errors=True)
                    self.absorb(c, "hang", None)
        self.search_s = time.monotonic() - t0
        if self.found_candidates:
            self.found_candidates.sort(key=lambda x: (x[0], -1 if x[1] is None else x[1]))
            self.found = self.found_candidates[0]
        return self.found


# --------------------------------------------------------------------------
# minimisation


def same(kind, out, cls):
    """The violation class of the last run of a session, if it matches."""
    if kind == "hang":
        return cls == "no-progress"
    if kind != "ok" or not out:
        return False
    v = out[-1]["violation"]
    return bool(v) and v[0] == cls


class Minimiser:
    def __init__(self, pid, cls, scratch, budget=60.0, limit=400):
        self.pid, self.cls, self.scratch = pid, cls, scratch
        self.prop = load_prop(pid)
        self.end = time.monotonic() + budget
        self.limit = limit
        self.tried = 0

    def fails(self, plans):
        if self.tried >= self.limit or time.monotonic() > self.end:
            return False
        self.tried += 1
        d = os.path.join(self.scratch, f"m{self.tried}")
        kind, out = session(self.pid, plans, d)
        shutil.rmtree(d, ignore_errors=True)
        return same(kind, out, self.cls) and (kind == "hang" or len(out) == len(plans))

    def ddmin(self, items, test):
        n = 2
        while len(items) >= 1:
            size = max(1, len(items) // n)
            reduced = False
            for lo in range(0, len(items), size):
                cand = items[:lo] + items[lo + size :]
                if test(cand):
                    items, reduced = cand, True
                    n = max(2, n - 1)
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def minimise(self, plans):
        last = plans[-1]
        if len(plans) > 1:
            if self.fails([last]):
                plans = [last]
            else:
                pre = self.ddmin(plans[:-1], lambda c: self.fails(c + [last]))
                plans = pre + [last]
        pre, plan = plans[:-1], plans[-1]

        def test(p):
            return self.fails(pre + [p])

        # shrink the lists named by the property (ops first, then schedules)
        for field in getattr(self.prop, "SHRINK_LISTS", ["ops"]):
            if isinstance(plan.get(field), list) and plan[field]:

                def t(items, field=field):
                    return test({**plan, field: items})

                plan = {**plan, field: self.ddmin(list(plan[field]), t)}
        # then simplify single elements
        simplify = getattr(self.prop, "simplify", None)
        if simplify:
            progress = True
            while progress and self.tried < self.limit:
                progress = False
                for cand in simplify(plan):
                    if test(cand):
                        plan, progress = cand, True
                        break
        return pre + [plan]


# --------------------------------------------------------------------------
# replay files


def write_replay(pid, plans, packed, path):
    doc = {
        "format": 1,
        "property": pid,
        "seed": plans[-1].get("seed"),
        "run": plans[-1].get("run"),
        "violation": {"class": packed["violation"][0], "message": packed["violation"][1]},
        "digest": packed["digest"],
        "event_log_tail": packed["tail"],
        "session": plans,
    }
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fp:
        json.dump(doc, fp, indent=1)
        fp.write("\n")


def replay_fresh(path, hashseed="0", timeout=900):
    """Replay a file in a fresh interpreter; returns (exit code, output)."""
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONPATH=HERE)
    p = subprocess.run(
        [PYTHON, "-m", "dst.replay", path],
        cwd=HERE,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        timeout=timeout,
    )
    return p.returncode, p.stdout


# --------------------------------------------------------------------------
# known findings


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                if line.startswith("known: "):
                    parts = dict(
                        x.split("=", 1) for x in line.split()[1:3] if "=" in x
                    )
                    if parts.get("property") == pid:
                        out[parts["key"]] = " ".join(line.split()[3:])
    return out
