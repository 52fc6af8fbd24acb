"""C06 separate problems can be used from separate threads."""
import os
import pickle
import sys
import threading
import time
import types
from zlib import crc32

import numpy as np
import scipy.stats
import sklearn

from .. import linear
from ..common import MUD_DIR, reset_globals, rs
from ..core import HarnessError, Injected, Violation

RUNS = {"quick": 900, "thorough": 12000}
CHUNK = 1  # every run starts in a pristine process
RULE = (
    "One run: 2-4 threads each drive problem objects of their own (density, Bayes, linear, "
    "WME-linear, iterative, spatio-temporal, loads that fail, stateless functions, plots on axes "
    "of own figures) for 1-6 calls, half of the runs all the same calls on data of their own; a "
    "seeded scheduler lets exactly one thread run and switches at chosen executed lines of mud "
    "code (in some runs at bytecodes of it, or also where scipy.stats and scikit-learn functions "
    "are entered), either anywhere or (focus) only inside a seeded subset of its functions, densely; "
    "some threads crash at a chosen line. Every answer is compared with that of the same "
    "thread alone in a pristine process. Non-trivial: at least two switches landed while "
    "two threads were inside mud code."
)
STEP = "one executed line or bytecode of mud code, or entered library function, under the scheduler"
MEASURE = "distinct traces of (thread, function) at the scheduling points"
REAL = ["mud.base", "mud.funs", "mud.util", "mud.norm", "mud.preprocessing",
        "real threads, one at a time"]
STUB = ["thread scheduling (a seeded scheduler at line, bytecode or library-call granularity)"]
ASSUMPTIONS = [
    "switches happen between executed lines or bytecodes of mud code and where functions of scipy.stats "
    "and scikit-learn are entered, not inside numpy's compiled code",
    "calls that draw from numpy's global generator and pyplot's current figure are excluded "
    "(both are process-wide by design)",
]
PROBES = ["same code interleaved with itself", "a thread crashed", "switches inside mud",
          "switches between library calls", "switches between bytecodes"]
SHRINK_LISTS = ["ops", "switches", "bits"]
MINIMISE = (120.0, 250)

KINDS = ["density", "density_w", "bayes", "bayes_log", "linear", "wme", "iter", "st_wme", "st_pca",
         "st_svd", "funs", "utils", "norms", "data_prob", "st_closest", "wrappers", "load",
         "plots"]


LIBRARIES = tuple(os.path.dirname(os.path.realpath(m.__file__)) + os.sep for m in (sklearn, scipy.stats))


def generate(rng, i, tier):
    nt = rng.choice([2, 2, 3, 4])
    ops = []
    base = [rng.choice(KINDS) for _ in range(2)]
    for t in range(nt):
        for _ in range(rng.choice([1, 2, 3, 5])):
            kind = rng.choice(base) if rng.random() < 0.6 else rng.choice(KINDS)
            seed = rng.randrange(2**31) if rng.random() < 0.8 else 77
            ops.append({"t": t, "k": kind, "seed": seed})
    fine = rng.choice([None] * 4 + ["calls"] * 3 + ["ops"] * 3)
    gap = rng.choice([1, 2, 5, 20, 60]) * (6 if fine == "ops" else 1)
    switches, at = [], 0
    for _ in range(600):
        at += 1 + int(rng.expovariate(1.0 / gap)) if gap > 1 else 1
        switches.append([at, rng.randrange(nt)])
    if rng.random() < 0.5:  # everybody does the same, with data of their own
        mine = [op for op in ops if op["t"] == 0]
        ops = [{**op, "t": t, "seed": op["seed"] + (2 * t if rng.random() < 0.9 else 0)}
               for t in range(nt) for op in mine]
    focus = bits = None
    if rng.random() < 0.6:
        # no switches but in some functions, there at most lines: threads meet in them
        m = rng.choice([2, 3, 5, 8])
        focus, switches = [m, rng.randrange(m)], []
        density = rng.choice([0.3, 0.6, 0.9])
        bits = [rng.randrange(1, nt) if rng.random() < density else 0 for _ in range(1200 if fine else 400)]
    crash = None
    if rng.random() < 0.3:
        crash = [rng.randrange(nt), rng.randrange(0, 150)]
    plan = {"nt": nt, "ops": ops, "switches": switches, "crash": crash}
    if fine:
        plan["fine"] = fine
    if focus:
        plan.update(focus=focus, bits=bits)
    return plan


def work(op):
    """One client's call sequence on an object of its own; returns its answers."""
    from scipy.stats import norm, uniform

    from mud import base, funs, norm as mnorm, util

    k, r = op["k"], rs(op["seed"])
    if k.startswith("density"):
        X = r.uniform(size=(12, 2))
        y = X @ r.uniform(size=(2, 1))
        D = base.DensityProblem(X, y, domain=[[0, 1], [0, 1]],
                                weights=r.uniform(0.2, 1, 12) if k[-1] == "w" else None)
        out = [D.mud_point()]
        D.set_observed(norm(0.3 + 0.4 * r.uniform(), 0.2))
        out += [D.expected_ratio(), D.estimate()]
        D.set_weights(r.uniform(0.2, 1, 12))
        D.set_initial(norm(0.5, 0.4))
        out += [D.expected_ratio(), D.mud_point()]
        return out
    if k.startswith("bayes"):
        X = r.uniform(size=(12, 2))
        B = base.BayesProblem(X, X, [[0, 1], [0, 1]])
        B.set_likelihood(norm(r.uniform(size=2), 0.1 + 0.3 * r.uniform()), log=k == "bayes_log")
        out = [B.map_point()]
        B.set_prior(norm(r.uniform(), 0.2))
        return out + [B.estimate()]
    if k == "linear":
        a = linear.arrays({"seed": op["seed"], "d": 2, "p": 3})
        L = base.LinearGaussianProblem(**a)
        out = [L.solve("mud"), L.solve("map", output_dim=1), L.solve("mud_alt")]
        L.alpha = 0.5
        return out + list(L.solve("all"))
    if k == "wme":
        d = r.uniform(size=5)
        W = base.LinearWMEProblem([r.uniform(size=(5, 2)), r.uniform(size=(1, 2))], [d, d], 0.3)
        return [W.solve("mud"), W.solve("map")]
    if k == "iter":
        A = r.uniform(-1, 1, (3, 2))
        I = base.IterativeLinearProblem(A, r.uniform(size=3), r.uniform(size=3), idx_order=[2, 0, 1])
        out = [I.solve(1), I.solve(2)]
        return out + [I.get_errors([0.1, 0.2])]
    if k.startswith("st_") or k == "data_prob":
        lam = r.uniform(size=(20, 2))
        sens, times = r.uniform(size=(2, 2)), np.arange(3.0)
        data = np.hstack([lam @ r.uniform(size=(2, 3)), lam**2 @ r.uniform(size=(2, 3))])
        true = data[4] + 0.01
        ds = {"lam": lam, "domain": [[0, 1], [0, 1]], "data": data, "sensors": sens,
              "times": times, "std_dev": 0.1 + 0.1 * r.uniform(), "true_vals": true,
              "measurements": true + 0.1 * r.normal(size=6)}
        if k == "data_prob":
            D = funs.data_prob(lam, data, measurements=ds["measurements"], std_dev=0.2,
                               domain=ds["domain"], sensors=sens, times=times)
            return [D.estimate(), D.expected_ratio()]
        S = base.SpatioTemporalProblem(ds)
        if k == "st_closest":
            return [S.get_closest_to_measurements(), S.get_closest_to_true_vals(),
                    S.get_closest_to_measurements(times_mask=[0, 2])]
        kw = {} if k == "st_wme" else {"num_components": 1 + op["seed"] % 2}
        out = []
        for masks in ({}, {"times_mask": [0, 1]}, {"sensors_mask": [1]}):
            D = S.mud_problem(method=k[3:], data_weights=None, **kw, **masks)
            out += [D.y, D.estimate(), D.expected_ratio()]
        if k == "st_pca":
            out.append(S.pca["vecs"])
        return out
    if k == "funs":
        a = linear.arrays({"seed": op["seed"], "d": 2, "p": 2})
        return [funs.mud_sol(a["A"], a["b"], a["y"], a["mean_i"], a["cov_i"]),
                *funs.map_sol_with_cov(a["A"], a["b"], a["y"], a["mean_i"], a["cov_i"], w=0.7),
                *funs.mud_sol_with_cov(a["A"], a["b"], a["y"]),
                *funs.iterate(a["A"], a["b"], a["y"], a["mean_i"], a["cov_i"], num_epochs=2),
                funs.wme(r.uniform(size=(4, 5)), r.uniform(size=5), 0.2),
                funs.updated_cov(a["A"])]
    if k == "utils":
        x = r.uniform(size=(6, 3))
        d = np.array([[0.0, 1 + r.uniform()], [-1, 1]])
        A, b = util.transform_linear_setup([x[:, :2]], [x[:, 2]], 0.2)
        return [util.fit_domain(x), util.fit_domain(min_max_bounds=d), A, b,
                util.null_space(x[:2]), util.std_from_equipment(0.1 + r.uniform(), 0.9),
                *util.make_2d_unit_mesh(4, 2), util.set_shape(x[0])]
    if k == "norms":
        a = linear.arrays({"seed": op["seed"], "d": 2, "p": 2})
        x = r.uniform(size=(5, 2))
        return [mnorm.full_functional(a["A"], x, a["b"], a["mean_i"], a["cov_i"],
                                      r.uniform(size=(1, 2)), a["cov_o"])]
    if k == "wrappers":
        a = linear.arrays({"seed": op["seed"], "d": 3, "p": 2})
        out = [funs.wme(r.uniform(size=(6, 4)), r.uniform(size=4), 0.1 + r.uniform()) for _ in range(3)]
        out.append(funs.iter_lin_solve(a["A"], a["b"], a["y"], a["mean_i"], num_epochs=2, idx_order=[1, 0, 2]))
        out += list(funs.performEpoch(a["A"], a["b"], a["y"], a["mean_i"], a["cov_i"]))
        out.append(funs.lin_prob(a["A"][:2], a["b"][:2], alpha=0.3 + r.uniform()).solve("map"))
        from mud.preprocessing import pca, svd

        out.append(pca(r.normal(size=(7, 3)), n_components=2)[0].components_)
        out.append(svd(r.normal(size=(7, 3)))[1])
        return out
    if k == "load":
        lam = r.uniform(size=(10, 2))
        ds = {"lam": lam, "domain": [[0, 1], [0, 1]], "data": r.uniform(size=(10, 4)),
              "sensors": r.uniform(size=(2, 2)), "times": np.arange(2.0), "std_dev": 0.1 + r.uniform(),
              "measurements": r.uniform(size=4), "lam_ref": [0.2, 0.3]}
        S, out = base.SpatioTemporalProblem(ds), []
        for bad in ({"measurements": np.ones(3)}, {"lam_ref": [2.0, 0.1]}, {"data": np.ones((10, 3))}):
            try:
                S.load({**ds, "std_dev": 5.0, **bad})
            except ValueError:
                out.append(1.0)
            out += [S.std_dev, S.lam, S.data, S.measurements, S.lam_ref, S.domain]
        D = S.mud_problem(method="wme", samples_mask=np.arange(10) != op["seed"] % 10)
        return out + [D.y, D.estimate(), S.sample_data(times_mask=[1])[3]]
    if k == "plots":
        from matplotlib.figure import Figure

        from mud import plot

        X = r.uniform(size=(12, 1))
        D = base.DensityProblem(X, X * (1 + r.uniform()), domain=[[0, 1]])
        D.set_initial(norm(0.5, 0.2 + r.uniform()))
        D.set_observed(norm(0.5, 0.1 + r.uniform()))
        D.fit()
        ax = Figure().subplots(3)
        D.plot_param_space(ax=ax[0], aff=6, true_val=r.uniform(size=1))
        D.plot_obs_space(ax=ax[1], aff=6)
        plot.plot_dist(norm(r.uniform(), 0.3), [[0, 1]], ax=ax[2], source="pdf", aff=7)
        plot.plot_1D_vecs(r.uniform(size=(2, 3)), ax=ax[2], label=False)
        return [ln.get_data() for a in ax for ln in a.lines] + [
            np.array(s.get_offsets()) for s in ax[2].collections] + [D.expected_ratio()]
    raise HarnessError(k)


def plainly(x):
    if isinstance(x, (list, tuple)):
        return [plainly(v) for v in x]
    return np.array(x, dtype=float)


def client(ops):
    """All calls of one thread; an error is an answer too."""
    out = []
    for op in ops:
        try:
            out.append([plainly(v) for v in work(op)])
        except (Injected, HarnessError):
            raise
        except Exception as e:
            out.append(f"{type(e).__name__}: {e}")
    return out


def alone(ops):
    """The answers of a thread running by itself in a pristine process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = pickle.dumps(client(ops))
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("solo run died")
    return pickle.loads(data)


def mud_code():
    """The code objects of all loaded mud modules."""
    seen, todo = set(), []
    for name, mod in list(sys.modules.items()):
        if name == "mud" or name.startswith("mud."):
            for v in list(vars(mod).values()):
                todo += [v] if not isinstance(v, type) else list(vars(v).values())
    while todo:
        v = todo.pop()
        if isinstance(v, property):
            todo += [v.fget, v.fset, v.fdel]
        v = getattr(v, "__func__", v)
        v = getattr(v, "__wrapped__", v)
        code = v if isinstance(v, types.CodeType) else getattr(v, "__code__", None)
        if isinstance(code, types.CodeType) and code not in seen and code.co_filename.startswith(MUD_DIR):
            seen.add(code)
            todo += code.co_consts
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))


class Scheduler:
    def __init__(self, scripts, switches, crash, res, focus=None, bits=(), fine=None):
        self.scripts, self.res = scripts, res
        self.focus, self.bits, self.met, self.fine = focus, bits, 0, fine
        self.switch = {}
        for at, to in switches:
            self.switch.setdefault(at, to)
        self.crash = crash
        self.n = len(scripts)
        self.sem = [threading.Semaphore(0) for _ in scripts]
        self.alive = [True] * self.n
        self.current = None
        self.count = 0
        self.lines = [0] * self.n
        self.answers = [None] * self.n
        self.crashed = [False] * self.n
        self.where = [None] * self.n
        self.trace_log = []
        self.ids = {}
        self.lock = threading.Lock()
        self.stuck = set()
        self.done = threading.Event()
        self.error = None
        self.switched = self.overlap = 0

    def _next(self, to=None):
        """Hand the token on (called by the thread that holds it)."""
        live = [t for t in range(self.n) if self.alive[t] and t not in self.stuck]
        if not live:
            live = [t for t in range(self.n) if self.alive[t]]
        if not live:
            self.current = None
            self.done.set()
            return
        pick = live[to % len(live)] if to is not None else live[0]
        self.current = pick
        self.sem[pick].release()

    def point(self, t, code):
        with self.lock:
            if self.current != t:  # woke up from a lock while another runs
                self.stuck.discard(t)
                wait = True
            else:
                wait = False
                if t in self.stuck:
                    self.stuck.discard(t)
                    self.sem[t].acquire(blocking=False)
        if wait:
            self.sem[t].acquire()
        self.count += 1
        self.lines[t] += 1
        self.where[t] = code
        if self.crash and self.crash[0] == t and self.lines[t] > self.crash[1] and not self.crashed[t]:
            self.crashed[t] = True
            raise Injected("client crash")
        to = self.switch.get(self.count)
        if to is None and self.focus and self.met < len(self.bits):
            if crc32(code.co_name.encode()) % self.focus[0] == self.focus[1]:
                by = self.bits[self.met]
                self.met += 1
                to = (t + by) % self.n if by else None
        if to is None:
            return
        live = [x for x in range(self.n) if self.alive[x] and x not in self.stuck]
        target = live[to % len(live)]
        if target == t:
            return
        self.switched += 1
        mid = self.where[target]
        if mid is not None:
            self.overlap += 1
            if mid is code:
                self.res.probes["same code interleaved with itself"] += 1
        self.trace_log.append(f"{t}:{code.co_name}")
        with self.lock:
            self._next(to)
        self.sem[t].acquire()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == "line":
                self.point(t, frame.f_code)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(MUD_DIR):
                return local
            if self.fine == "calls" and frame.f_code.co_filename.startswith(LIBRARIES):
                self.point(t, frame.f_code)
            return None

        return glob

    def watch_bytecodes(self):
        """Every bytecode of mud code is a scheduling point of the client thread that runs it."""
        mon = sys.monitoring

        def instruction(code, offset):
            t = self.ids.get(threading.get_ident())
            if t is not None:
                self.point(t, code)

        mon.use_tool_id(mon.DEBUGGER_ID, "simulator")
        mon.register_callback(mon.DEBUGGER_ID, mon.events.INSTRUCTION, instruction)
        for code in mud_code():
            mon.set_local_events(mon.DEBUGGER_ID, code, mon.events.INSTRUCTION)

    def body(self, t):
        self.sem[t].acquire()
        if self.fine == "ops":
            self.ids[threading.get_ident()] = t
        else:
            sys.settrace(self.tracer(t))
        try:
            self.answers[t] = client(self.scripts[t])
        except Injected:
            self.answers[t] = "crashed"
        except BaseException as e:  # simulator defect
            self.error = e
        finally:
            sys.settrace(None)
            self.ids.pop(threading.get_ident(), None)
            with self.lock:
                self.alive[t] = False
                self.where[t] = None
                if self.current == t:
                    self._next()

    def run(self):
        if self.fine == "ops":
            self.watch_bytecodes()
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True)
                   for t in range(self.n)]
        for th in threads:
            th.start()
        with self.lock:
            self._next()
        last, since = -1, time.monotonic()
        while not self.done.wait(0.1):
            now = time.monotonic()
            if self.count != last:
                last, since = self.count, now
            elif now - since > 1.5:
                # the running thread is waiting for one that is not: let it
                with self.lock:
                    cur = self.current
                    self.stuck.add(cur)
                    others = [t for t in range(self.n) if self.alive[t] and t not in self.stuck]
                    if not others:
                        raise Violation("deadlock", "no thread can make progress")
                    self.current = others[0]
                    self.sem[others[0]].release()
                since = now
        for th in threads:
            th.join(10)
        if self.error:
            raise self.error


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, str):
        return a == b
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))


def execute(plan, res):
    reset_globals()
    scripts = [[op for op in plan["ops"] if op["t"] == t] for t in range(plan["nt"])]
    solo = [alone(s) for s in scripts]
    s = Scheduler(scripts, plan["switches"], plan.get("crash"), res, plan.get("focus"), plan.get("bits") or (),
                  plan.get("fine"))
    s.run()
    if plan.get("fine"):
        res.probes["switches between " + {"calls": "library calls", "ops": "bytecodes"}[plan["fine"]]] += s.switched
    res.steps += s.count
    for op in plan["ops"]:
        res.ops[op["k"]] += 1
    res.faults["forced thread switch"] += s.switched
    res.faults["client crash at a line"] += any(s.crashed)
    res.probes["a thread crashed"] += any(s.crashed)
    res.probes["switches inside mud"] += s.overlap
    res.nontrivial = s.overlap >= 2
    res.event("switches", s.switched, s.overlap)
    res.event(*s.trace_log[:400])
    for t in range(plan["nt"]):
        if s.answers[t] == "crashed":
            res.event(t, "crashed")
            continue
        for j, (a, b) in enumerate(zip(s.answers[t], solo[t])):
            if not equal(a, b):
                raise Violation(
                    "interference",
                    f"thread {t}, call {j} ({scripts[t][j]['k']}): got {str(a)[:300]}, "
                    f"alone it gets {str(b)[:300]}")
        if len(s.answers[t]) != len(solo[t]):
            raise Violation("interference", f"thread {t} did not finish")
        res.event(t, "as alone")


def simplify(plan):
    if plan.get("crash"):
        yield {**plan, "crash": None}
    if plan.get("fine"):
        yield {k: v for k, v in plan.items() if k != "fine"}


def warm_up():
    """Load what the clients use, without running any mud code."""
    from scipy.stats import gaussian_kde, norm
    from sklearn.decomposition import PCA

    x = np.linspace(0, 1, 12).reshape(6, 2) ** 2
    gaussian_kde(x[:, 0]).pdf(x[:, 1])
    norm().pdf(x)
    norm().logpdf(x)
    PCA(n_components=1).fit(x)
