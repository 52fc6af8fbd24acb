"""C05 iterative linear chains resume exactly and use every row as told."""
import numpy as np

from .. import linear
from ..common import (
    Interrupt, Trap, close, error_of, interrupt_at, linalg_trap, pick, reset_globals, rs,
)
from ..core import HarnessError, Violation

RUNS = {"quick": 5000, "thorough": 60000}
CHUNK = 60
RULE = (
    "One run: 1-3 iterative linear problems (seeded rows, covariances and row orders with "
    "repeats and gaps) driven through 3-20 seeded calls: epochs split over calls, error "
    "queries, plots, functional interfaces; a third hit by a failing factorisation inside an "
    "epoch or an interruption at the n-th line. Non-trivial: epochs over more than one call."
)
STEP = "one call on a problem object"
MEASURE = "distinct event logs (calls, targets, chain lengths and outcomes)"
REAL = ["mud.base.IterativeLinearProblem", "mud.funs.iterate/performEpoch/iter_lin_solve",
        "matplotlib (Agg)"]
STUB = ["numpy.linalg.inv/pinv/svd wrapped so that the k-th call can raise"]
ASSUMPTIONS = [
    "each step is compared (1e-6 relative) with the closed form of its one-row problem, "
    "propagated from the model's own previous point",
    "after a failed or interrupted call any number of whole epochs up to those requested may "
    "have been added, never a part of one",
]
PROBES = ["epoch failed midway", "resumed after a failure", "errors for a second reference"]


def gen_obj(rng):
    d, p = rng.choice([1, 2, 3, 5, 9]), rng.choice([1, 2, 2, 3, 6])
    if rng.random() < 0.02:
        d = 60
    order = None
    r = rng.random()
    if r < 0.35:
        order = list(range(d))
        rng.shuffle(order)
    elif r < 0.65:
        order = [rng.randrange(d) for _ in range(rng.choice([1, 2, 4, 12]))]
    r = rng.random()
    if r < 0.02:
        order = []  # nothing to solve: every epoch stays where it is
    elif r < 0.1 and order:  # rows counted from the end
        order = [i - d if rng.random() < 0.5 else i for i in order]
    return {"seed": rng.randrange(2**31), "d": d, "p": p, "order": order, "full": rng.random() < 0.2,
            "given": [f for f in ("y", "mu_i", "cov", "data_cov") if rng.random() < 0.75],
            "lists": rng.random() < 0.3,
            "form": rng.choice(["list", "list", "tuple", "array", "iter"]),
            "axis": rng.random() < 0.08,  # points that reach the solution exactly
            "scale": rng.choice([None] * 6 + [["A", 0.01], ["A", 20.0], ["y", 1e3], ["mu_i", 1e3],
                                              ["cov", 1e-4], ["cov", 1e3], ["data_cov", 1e-3],
                                              ["all", "ints"]])}


def generate(rng, i, tier):
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = rng.choice([3, 6, 10, 16] if tier == "quick" else [6, 12, 24, 40])
    ops = []
    for _ in range(n):
        o = rng.randrange(len(objs))
        kind = pick(rng, {"solve": 6, "errors": 3, "plot": 2, "fun": 1})
        op = {"op": kind, "o": o}
        if kind == "solve":
            op["k"] = rng.choice([1, 1, 2, 3, 7] * 6 + [0])
            op["m"] = pick(rng, {"mud": 5, "map": 2, "mud_alt": 1})
        elif kind == "errors":
            op["seed"] = rng.randrange(50)
            op["col"] = rng.random() < 0.5
            op["buffer"] = rng.random() < 0.4  # one array, filled anew before each query
        elif kind == "plot":
            op["what"] = rng.choice(["chain", "error", "contours"])
            op["seed"] = rng.randrange(50)
        else:
            op["k"] = rng.choice([1, 2, 3])
            op["f"] = rng.choice(["iter_lin_solve", "iterate", "performEpoch"])
            op["m"] = rng.choice([None, None, "mud", "map", "mud_alt"])
        if kind != "fun" and rng.random() < 0.3:
            if rng.random() < 0.6:
                op["fault"] = {"kind": "linalg", "at": rng.randrange(0, 8),
                               "error": rng.choice(["linalg", "memory"])}
            else:
                op["fault"] = {"kind": "interrupt", "at": rng.randrange(0, 120)}
        ops.append(op)
    return {"objs": objs, "ops": ops}


def order_form(order, form):
    if form == "iter":
        return iter(order)
    return {"list": list, "tuple": tuple, "array": np.array}[form](order)


class Client:
    def __init__(self, spec):
        from mud.base import IterativeLinearProblem

        r = rs(spec["seed"])
        d, p = spec["d"], spec["p"]
        self.spec = spec
        A = r.uniform(-1.5, 1.5, (d, p))
        A[np.abs(A).sum(axis=1) < 0.3] = 1.0
        st = {"A": A, "b": r.uniform(-1, 1, (d, 1)), "y": r.uniform(-1, 1, (d, 1)),
              "mu_i": r.uniform(-1, 1, (p, 1)), "cov": linear.spd(r, p),
              "data_cov": np.diag(r.uniform(0.2, 1.5, d))}
        if spec.get("full"):  # correlated observations, of which a row sees its own
            st["data_cov"] = linear.spd(r, d, 0.2, 1.5)
        if spec.get("axis"):
            st["A"] = A = np.eye(p)[r.randint(p, size=d)]
            st["y"], st["cov"] = st["b"].copy(), np.eye(p) * r.choice([1.0, 0.5])
        elif spec.get("scale"):
            f, by = spec["scale"]
            if by == "ints":
                for k, v in st.items():
                    st[k] = np.round(3 * v).astype(int) if "cov" not in k else (np.round(3 * v) + 2 * np.eye(len(v))).astype(int)
                st["A"][np.abs(st["A"]).sum(axis=1) == 0] = 1
            else:
                st[f] = st[f] * by
        dflt = {"y": np.zeros((d, 1)), "mu_i": np.zeros((p, 1)), "cov": np.eye(p),
                "data_cov": np.eye(d)}
        self.kw = {f: st[f] for f in spec["given"]}
        for f in dflt:
            if f not in self.kw:
                st[f] = dflt[f]
        self.st = st
        self.order = spec["order"] if spec["order"] is not None else list(range(d))
        pass_ = (lambda a: a.tolist()) if spec["lists"] else (lambda a: a.copy())
        kw = {f: pass_(v) for f, v in self.kw.items()}
        if spec["order"] is not None:
            kw["idx_order"] = order_form(spec["order"], spec.get("form", "list"))
        self.obj = IterativeLinearProblem(pass_(st["A"]), pass_(st["b"]), **kw)
        self.chain = [st["mu_i"]]  # all points, model
        self.calls = 0
        self.buffer = np.zeros((p, 1))
        self.flat = self.buffer.reshape(-1)

    def step(self, x, i, method):
        s = self.st
        i %= len(s["A"])
        one = {"A": s["A"][i:i + 1], "b": s["b"][i:i + 1], "y": s["y"][i:i + 1],
               "mean_i": x, "cov_i": s["cov"], "cov_o": s["data_cov"][i:i + 1, i:i + 1]}
        return linear.closed(one, method)[0]

    def epochs(self, start, k, method):
        pts, x = [], start
        for _ in range(k):
            for i in self.order:
                x = self.step(x, i, method)
                pts.append(x)
        return pts


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res, self.trap = plan, res, Trap()

    def run(self):
        self.clients = [Client(s) for s in self.plan["objs"]]
        for n, op in enumerate(self.plan["ops"]):
            if op["o"] < len(self.clients):
                self.res.steps += 1
                self.res.ops[op["op"]] += 1
                self.step(n, op, self.clients[op["o"]])
        for o, c in enumerate(self.clients):
            self.step(-1, {"op": "errors", "o": o, "seed": 51, "col": True}, c)
            self.step(-1, {"op": "solve", "o": o, "k": 1, "m": "mud"}, c)
            self.step(-1, {"op": "errors", "o": o, "seed": 52, "col": False}, c)
        self.res.nontrivial = any(c.calls > 1 for c in self.clients)

    def ref(self, op, c):
        x = rs(op["seed"]).uniform(-1, 1, (c.spec["p"], 1))
        if op.get("buffer"):
            c.buffer[:] = x
            return c.buffer if op["col"] else c.flat
        return x if op.get("col", True) else x.ravel()

    def perform(self, op, c):
        q, kind = c.obj, op["op"]
        if kind == "solve":
            if op["k"] == 1 and op["m"] == "mud":
                return q.solve()
            return q.solve(num_epochs=op["k"], method=op["m"])
        if kind == "errors":
            return list(q.get_errors(self.ref(op, c)))
        if kind == "plot":
            import matplotlib.pyplot as plt

            if c.spec["p"] != 2:
                return None
            try:
                if op["what"] == "chain":
                    return q.plot_chain(self.ref(op, c))
                if op["what"] == "error":
                    return q.plot_chain_error(self.ref(op, c))
                return q.plot_contours(annotate=True)
            finally:
                plt.close("all")
        raise HarnessError(kind)

    def expect(self, what, got, want):
        if not close(got, want, rtol=1e-6, atol=1e-7):
            raise Violation("wrong-chain", f"{what}: got {np.round(np.ravel(got), 6).tolist()} "
                            f"(shape {np.shape(got)}), expected {np.round(np.ravel(want), 6).tolist()}")

    def whole_chain(self, n, c):
        """The object's chain, point by point, against the model's."""
        pts = [s for chain in c.obj.solution_chains for s in chain[1:]]
        if len(pts) != len(c.chain) - 1:
            raise Violation("wrong-chain", f"step {n}: chain has {len(pts)} steps, "
                            f"{len(c.chain) - 1} expected")
        for k, (a, b) in enumerate(zip(pts, c.chain[1:])):
            self.expect(f"step {n}: point {k} of the chain", a, b)
        for k, chain in enumerate(c.obj.solution_chains):
            self.expect(f"step {n}: start of epoch {k}", chain[0], c.chain[k * len(c.order)])

    def step(self, n, op, c):
        kind, fault = op["op"], op.get("fault")
        if kind == "plot" and not c.order or op.get("k") == 0 and not c.obj.solution_chains:
            return
        if kind == "fun":
            return self.functional(n, op, c)
        if fault and self.fault(n, op, c, fault):
            return
        ans = self.perform(op, c)
        self.settle(n, op, c, ans)

    def settle(self, n, op, c, ans):
        kind = op["op"]
        if kind == "solve":
            c.calls += 1
            new = c.epochs(c.chain[-1], op["k"], op["m"])
            c.chain += new
            self.expect(f"step {n}: solve({op['k']}, {op['m']})", ans, c.chain[-1])
            self.whole_chain(n, c)
        elif kind == "errors":
            ref = np.reshape(self.ref(op, c), (-1, 1))
            want = [float(np.sqrt(((s - ref) ** 2).sum())) for s in c.chain[1:]]
            self.expect(f"step {n}: get_errors", ans, want)
            self.res.probes["errors for a second reference"] += getattr(c, "asked", False)
            c.asked = True
        else:
            self.whole_chain(n, c)
        self.res.event(n, kind, op["o"], len(c.chain) - 1, "ok")

    def fault(self, n, op, c, fault):
        """Run the call under a fault; True if that settled the step."""
        ans, failed, fired = None, None, False
        if fault["kind"] == "interrupt":
            hit = interrupt_at(fault["at"])
            try:
                with hit:
                    ans = self.perform(op, c)
            except Interrupt as e:
                failed = e
            fired = hit.fired
            self.res.faults["interrupt at a line"] += fired
            c.cut = getattr(c, "cut", False) or fired
        else:
            before = self.trap.fired
            with linalg_trap(self.trap):
                self.trap.arm(fault["at"], error_of(fault["error"]))
                try:
                    ans = self.perform(op, c)
                except Exception as e:
                    failed = e
                    if self.trap.fired == before:
                        raise
                finally:
                    self.trap.disarm()
            fired = self.trap.fired > before
            self.res.faults[f"{fault['error']} error in a factorisation"] += fired
        if failed is None:
            self.settle(n, op, c, ans)
            return True
        self.res.event(n, op["op"], op["o"], "failed", type(failed).__name__)
        if op["op"] == "solve":
            have = sum(len(s) - 1 for s in c.obj.solution_chains)
            done, m = have - (len(c.chain) - 1), len(c.order) or 1
            if done % m or not 0 <= done // m <= op["k"]:
                raise Violation("partial-epoch", f"step {n}: a failed solve({op['k']}) left "
                                f"{done} new steps of epochs of {m}")
            if len(c.obj.epochs) != len(c.obj.solution_chains) and not getattr(c, "cut", False):
                raise Violation("partial-epoch", f"step {n}: a failed solve({op['k']}) left "
                                f"{len(c.obj.epochs)} epochs, the chain has {len(c.obj.solution_chains)}")
            self.res.probes["epoch failed midway"] += 1
            c.chain += c.epochs(c.chain[-1], done // m, op["m"])
            self.res.event(n, "kept", done // m)
            # resume: the remaining epochs
            left = op["k"] - done // m
            if left:
                self.settle(n, {**op, "k": left}, c, c.obj.solve(left, op["m"]))
                self.res.probes["resumed after a failure"] += 1
            return True
        return False  # repeat the query or plot

    def functional(self, n, op, c):
        from mud import funs

        s, k, f = c.st, op["k"], op["f"]
        if f == "iter_lin_solve":
            kw = {{"mu_i": "mean"}.get(a, a): b for a, b in c.kw.items()}
            if c.spec["order"] is not None:
                kw["idx_order"] = c.spec["order"]
            m = op.get("m")
            if m:
                kw["method"] = m
            if k != 1 or len(c.chain) % 2:
                kw["num_epochs"] = k
            got = funs.iter_lin_solve(s["A"], s["b"], **kw)
            self.expect(f"step {n}: iter_lin_solve", got,
                        ([s["mu_i"]] + c.epochs(s["mu_i"], k, m or "mud"))[-1])
            return self.res.event(n, f)
        kw = {} if c.spec["order"] is None else {"idx": c.spec["order"]}
        if "data_cov" in c.kw:  # of which the MUD points are independent
            kw["data_cov"] = s["data_cov"]
        args = (s["A"], s["b"], s["y"], s["mu_i"], s["cov"])
        if f == "performEpoch":
            k, got = 1, funs.performEpoch(*args, **kw)
        else:
            got = funs.iterate(*args, num_epochs=k, **kw)
        want = [s["mu_i"]] + c.epochs(s["mu_i"], k, "mud")
        got, want = ([np.ravel(x) for x in pts] for pts in (got, want))
        got, want = self.dedupe(got), self.dedupe(want)
        if len(got) != len(want):
            raise Violation("wrong-chain", f"step {n}: {f} gives {len(got)} distinct points in "
                            f"a row, {len(want)} expected")
        for a, b in zip(got, want):
            self.expect(f"step {n}: {f}", a, b)
        self.res.event(n, f)

    @staticmethod
    def dedupe(pts):
        out = [pts[0]]
        for x in pts[1:]:
            if not close(x, out[-1], rtol=1e-9, atol=1e-9):
                out.append(x)
        return out


def execute(plan, res):
    reset_globals()
    Sim(plan, res).run()


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if op.get("fault"):
            new = {a: b for a, b in op.items() if a != "fault"}
            yield {**plan, "ops": plan["ops"][:i] + [new] + plan["ops"][i + 1:]}
        if op.get("k", 1) > 1:
            yield {**plan, "ops": plan["ops"][:i] + [{**op, "k": 1}] + plan["ops"][i + 1:]}
    if len(plan["objs"]) > 1 and all(op["o"] < len(plan["objs"]) - 1 for op in plan["ops"]):
        yield {**plan, "objs": plan["objs"][:-1]}
