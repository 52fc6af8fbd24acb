"""C04 linear Gaussian solutions depend only on the problem as it stands."""
import numpy as np

from .. import linear
from ..common import (
    Interrupt, Trap, close, error_of, interrupt_at, linalg_trap, pick, reset_globals, rnum, rs,
)
from ..core import HarnessError, Violation

RUNS = {"quick": 6000, "thorough": 80000}
CHUNK = 60
RULE = (
    "One run: 1-3 linear Gaussian problems (plain or weighted-mean-error) driven through 4-30 "
    "seeded calls: solves by every method and output dimension, attribute changes (replaced or "
    "written in place), plots, functionals, wrapper functions; a third of the calls hit by a "
    "failing matrix factorisation or an interruption at the n-th line. Non-trivial: the problem "
    "changed, failed or was plotted before a later solve."
)
STEP = "one call on a problem object"
MEASURE = "distinct event logs (calls, targets and outcomes)"
REAL = ["mud.base.LinearGaussianProblem", "mud.base.LinearWMEProblem", "mud.funs", "mud.util",
        "matplotlib (Agg)"]
STUB = ["numpy.linalg.inv/pinv/svd wrapped so that the k-th call can raise"]
ASSUMPTIONS = [
    "the MUD point is compared for maps of full row rank (condition number < 40 once outputs and parameters are in their units)",
    "solutions are compared to 1e-6 relative with closed forms in another algebraic form",
]
PROBES = ["solved after a failed solve", "solved after alpha changed", "restricted outputs",
          "more outputs than parameters"]

FIELDS = ["A", "b", "y", "mean_i", "cov_i", "cov_o", "alpha"]


def gen_obj(rng):
    kind = pick(rng, {"lin": 5, "wme": 2})
    p = rng.choice([1, 2, 2, 3, 4, 7])
    if kind == "lin":
        d = rng.choice(list(range(1, p + 1)) + ([p + 1, p + 2] if rng.random() < 0.25 else []))
        units = linear.gen_units(rng, d, p) if d <= p else {}
        return {"kind": kind, "seed": rng.randrange(2**31), "p": p, "d": d,
                "given": FIELDS[1:] if units else [f for f in FIELDS[1:] if rng.random() < 0.75],
                "flat": rng.random() < 0.3, **units, "scale": None if units else linear.gen_scale(rng)}
    d = rng.choice(range(1, p + 1))
    return {"kind": kind, "seed": rng.randrange(2**31), "p": p, "d": d,
            "given": [f for f in FIELDS[2:] if rng.random() < 0.5],
            "rep": [rng.random() < 0.5 for _ in range(d)],
            "n": [rng.choice([1, 2, 5, 16, 60]) for _ in range(d)],
            "sigma": rng.choice(["float", "list", "per"]),
            "tiny": rng.choice([1.0] * 8 + [1e-5, 1e-9])}


def generate(rng, i, tier):
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = rng.choice([4, 8, 14, 22] if tier == "quick" else [8, 16, 30, 50])
    ops = []
    for _ in range(n):
        o = rng.randrange(len(objs))
        spec = objs[o]
        kind = pick(rng, {"solve": 7, "set": 5, "plot": 1, "functional": 1, "wrapper": 2,
                          "cov": 1})
        op = {"op": kind, "o": o}
        if kind == "solve":
            op["m"] = rng.choice(["mud", "mud_alt", "map", "ls", "all"])
            if rng.random() < 0.35:
                op["od"] = rng.choice([0] * (rng.random() < 0.1) or range(1, spec["d"] + 1))
        elif kind == "set":
            op["f"] = rng.choice(FIELDS)
            op["seed"] = rng.randrange(2**31)
            op["scale"] = None if "rows" in spec else linear.gen_scale(rng)
            op["inplace"] = op["f"] != "alpha" and rng.random() < 0.4
        elif kind == "plot":
            op["what"] = rng.choice(["sol", "contours", "fun"])
            op["m"] = rng.choice(["mud", "map", "ls", "initial"])
        elif kind == "functional":
            op["terms"] = rng.choice(["all", "data", "reg", "dc", "bayes"])
        elif kind == "wrapper":
            op["seed"] = rng.randrange(2**31)
            op["f"] = rng.choice(["mud_sol", "mud_sol_with_cov", "map_sol", "map_sol_with_cov",
                                  "lin_prob", "transform", "updated_cov", "updated_cov"])
            op["p"] = rng.choice([1, 2, 3, 3, 6])
            op["d"] = rng.choice(range(1, op["p"] + 1))
            op["given"] = [f for f in ("y", "mean", "cov", "data_cov") if rng.random() < 0.7]
            op["flat"] = rng.random() < 0.5
            op.update(linear.gen_units(rng, op["d"], op["p"]))
            op["scale"] = None if "rows" in op else linear.gen_scale(rng)
            if "rows" in op:
                op["given"] = ["y", "mean", "cov", "data_cov"]
        if rng.random() < 0.3 and kind in ("solve", "plot", "functional", "cov"):
            if rng.random() < 0.6:
                op["fault"] = {"kind": "linalg", "at": rng.choice([0, 0, 1, 2, 3]),
                               "error": rng.choice(["linalg", "memory"])}
            else:
                op["fault"] = {"kind": "interrupt", "at": rng.randrange(0, 30)}
        ops.append(op)
    return {"objs": objs, "ops": ops}


class Client:
    def __init__(self, spec):
        from mud.base import LinearGaussianProblem, LinearWMEProblem

        self.spec = spec
        d, p = spec["d"], spec["p"]
        self.units = [np.reshape(spec.get(k) or [1.0] * n, (-1, 1)) for k, n in (("rows", d), ("cols", p))]
        r = rs(spec["seed"] + 7)
        full = linear.arrays(spec)
        st = {"A": full["A"]}
        for f in FIELDS[1:]:
            st[f] = full[f] if f in spec["given"] else None
        if spec["kind"] == "lin":
            kw = {f: st[f] for f in spec["given"]}
            if spec["flat"]:
                for f in ("b", "y", "mean_i"):
                    if kw.get(f) is not None:
                        kw[f] = kw[f].ravel().tolist()
            self.obj = LinearGaussianProblem(A=st["A"].copy(), **{
                k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
            self.st = linear.defaults(st)
            return
        # operators whose weighted mean rows are those of A, up to scale
        ops_, datas, sig = [], [], []
        tiny = spec.get("tiny", 1.0)  # measurements in another unit
        for k in range(d):
            n = spec["n"][k]
            if spec["rep"][k] or n == 1:
                ops_.append(full["A"][k:k + 1] * tiny)
            else:
                ops_.append(np.repeat(full["A"][k:k + 1], n, 0)
                            * (r.uniform(0.6, 1.4, (n, 1)) if spec["seed"] % 4 else 1.0) * tiny)
            z = r.uniform(-1, 1, (n, 1) if k % 2 else n) * tiny
            datas.append(z if k % 2 else z.tolist())
            s = float(np.round(r.uniform(0.2, 1.5), 3)) * tiny
            if spec["sigma"] == "per" and not (spec["rep"][k] or n == 1):
                s = (np.round(r.uniform(0.2, 1.5, n), 3) * tiny).tolist()
            sig.append(s)
        if spec["sigma"] == "float":
            sig = 0.5 * tiny
        rows = [linear.wme_row(ops_[k], datas[k], sig if spec["sigma"] == "float" else sig[k])
                for k in range(d)]
        st["A"] = np.vstack([x[0] for x in rows])
        st["b"] = np.vstack([[x[1]] for x in rows])
        self.st = linear.defaults(st)
        kw = {f: st[f] for f in spec["given"]}
        self.obj = LinearWMEProblem(ops_, datas, sig, **kw)


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res, self.trap = plan, res, Trap()

    def run(self):
        self.clients = [Client(s) for s in self.plan["objs"]]
        self.marks = [set() for _ in self.clients]
        for n, op in enumerate(self.plan["ops"]):
            if op["o"] < len(self.clients):
                self.res.steps += 1
                self.res.ops[op["op"]] += 1
                self.step(n, op, op["o"])
        for o in range(len(self.clients)):
            for m in ("all", "mud_alt"):
                self.step(-1, {"op": "solve", "o": o, "m": m}, o)

    def perform(self, op, o):
        c = self.clients[o]
        L, kind = c.obj, op["op"]
        if kind == "solve":
            kw = {} if "od" not in op else {"output_dim": op["od"]}
            return L.solve(op["m"], **kw)
        if kind == "functional":
            return L.compute_functionals(rs(3).uniform(size=(4, L.n_params)), terms=op["terms"])
        if kind == "cov":
            return L.updated_cov()
        if kind == "plot":
            import matplotlib.pyplot as plt

            if c.spec["p"] != 2:
                return None
            try:
                if op["what"] == "sol":
                    return L.plot_sol(point=op["m"], label="x")
                if op["what"] == "contours":
                    return L.plot_contours()
                return L.plot_fun_contours(N=5)
            finally:
                plt.close("all")
        raise HarnessError(kind)

    def compare(self, what, got, want, size=1.0):
        """`size`: the order of magnitude of the quantities that go into the result"""
        size = max([size] + [abs(x) for x in np.ravel(want)])
        if not close(got, want, rtol=1e-6, atol=1e-7 * size):
            raise Violation("wrong-solution", f"{what}: got {np.round(np.ravel(got), 6).tolist()} "
                            f"shape {np.shape(got)}, the problem as it stands gives "
                            f"{np.round(np.ravel(want), 6).tolist()}")

    def check(self, n, op, o, ans):
        c = self.clients[o]
        st, m, od = c.st, op["m"], op.get("od")
        d = st["A"].shape[0] if od is None else od
        p = st["A"].shape[1]
        names = ("mud", "map", "ls") if m == "all" else (m,)
        if m == "all" and not (isinstance(ans, tuple) and len(ans) == 3):
            raise Violation("wrong-solution", "solve('all') does not return three points")
        for name, pt in zip(names, ans if m == "all" else (ans,)):
            if name.startswith("mud") and d > p:
                self.overdetermined(n, st, op, d, name, pt, c)
                continue
            want, cov = linear.closed(st, name, od)
            size = linear.rounding(st, name, d)
            u, v = c.units
            big = max([1.0] + [abs(x) for x in np.ravel(want / v)] + [abs(x) for x in np.ravel(st["mean_i"] / v)])
            self.compare(f"step {n}: solve('{m}', output_dim={od}) of object {o}, {name}", pt / v, want / v, size * big)
            if name.startswith("mud") and d:
                self.compare(f"step {n}: {name} does not reproduce the data",
                             (st["A"][:d] @ pt + st["b"][:d]) / u[:d], st["y"][:d] / u[:d],
                             size * max(1.0, np.abs(st["A"] / u * v.T).sum(axis=1).max() * big))
            if m in ("map", "mud_alt"):
                attr = {"map": "cov_p", "mud_alt": "up_cov"}[m]
                self.compare(f"step {n}: covariance of {m}", getattr(c.obj, attr) / (v * v.T),
                             cov / (v * v.T), size * np.abs(st["alpha"] * st["cov_i"] / (v * v.T)).max())
        self.res.probes["solved after a failed solve"] += "failed" in self.marks[o]
        self.res.probes["solved after alpha changed"] += "alpha" in self.marks[o]
        self.res.probes["restricted outputs"] += d < st["A"].shape[0]
        self.res.event(n, "solve", m, od, "ok")

    def overdetermined(self, n, st, op, d, name, pt, c):
        """More outputs than parameters: the solutions by the pseudo-inverse of the
        predicted covariance, where its rank is beyond doubt."""
        A, b, y, D = st["A"][:d], st["b"][:d], st["y"][:d], st["cov_o"][:d, :d]
        C, p = st["alpha"] * st["cov_i"], st["A"].shape[1]
        P = A @ C @ A.T
        U, s, _ = np.linalg.svd((P + P.T) / 2)
        noise = [np.linalg.svd(M, compute_uv=False)[p:].max() for M in
                 (P, (A @ C) @ A.T, A @ (C @ A.T), (P + P.T) / 2,
                  st["alpha"] * (A @ st["cov_i"] @ A.T), A @ (C @ A.T) * 1.0)]
        if max(noise) > 2.5e-16 * s[0] or s[p - 1] < 1e-3 * s[0]:
            return
        U = U[:, :p]
        K = C @ A.T @ (U / s[:p]) @ U.T
        want = st["mean_i"] + K @ (y - b - A @ st["mean_i"])
        cov = C - K @ (P - D) @ K.T
        if name == "mud_alt":
            want = st["mean_i"] + cov @ A.T @ np.linalg.solve(D, y - b - A @ st["mean_i"])
        self.compare(f"step {n}: solve('{op['m']}') with {d} outputs of {p} parameters, {name}",
                     pt, want)
        self.res.probes["more outputs than parameters"] += 1
        if op["m"] == "mud_alt":
            self.compare(f"step {n}: covariance of mud_alt", c.obj.up_cov, cov,
                         np.abs(st["alpha"] * st["cov_i"]).max())

    def step(self, n, op, o):
        kind, fault, c = op["op"], op.get("fault"), self.clients[o]
        if kind == "set":
            self.set_field(op, c)
            self.marks[o].add(op["f"])
            self.res.nontrivial = True
            return self.res.event(n, "set", o, op["f"])
        if kind == "wrapper":
            return self.wrapper(n, op)
        if fault:
            self.fault(n, op, o, fault)
            if kind != "solve":
                return
        try:
            ans = self.perform(op, o)
        except np.linalg.LinAlgError:
            d, p = c.st["A"].shape
            if kind == "solve" or d <= p:
                raise
            ans, kind = None, "singular"  # more outputs than parameters
        if kind == "solve":
            self.check(n, op, o, ans)
        elif kind == "cov":
            if c.st["A"].shape[0] <= c.st["A"].shape[1]:
                # updated_cov() itself does not know alpha
                want = linear.closed({**c.st, "alpha": 1.0}, "mud_alt")[1]
                vv = c.units[1] * c.units[1].T
                size = linear.rounding({**c.st, "alpha": 1.0}, "mud_alt", None)
                self.compare("updated_cov()", ans / vv, want / vv, size * np.abs(c.st["cov_i"] / vv).max())
            self.res.event(n, kind, o)
        else:
            self.marks[o].add("other")
            self.res.event(n, kind, o)

    def fault(self, n, op, o, fault):
        if fault["kind"] == "interrupt":
            hit = interrupt_at(fault["at"])
            try:
                with hit:
                    self.perform(op, o)
            except (Interrupt, np.linalg.LinAlgError):
                pass
            fired = hit.fired
            self.res.faults["interrupt at a line"] += fired
        else:
            before = self.trap.fired
            with linalg_trap(self.trap):
                self.trap.arm(fault["at"], error_of(fault["error"]))
                try:
                    self.perform(op, o)
                except Exception as e:
                    if self.trap.fired == before and not isinstance(e, np.linalg.LinAlgError):
                        raise
                finally:
                    self.trap.disarm()
            fired = self.trap.fired > before
            self.res.faults[f"{fault['error']} error in a factorisation"] += fired
        if fired:
            self.marks[o].add("failed")
        self.res.event(n, op["op"], o, "fault", fired)

    def set_field(self, op, c):
        f = op["f"]
        d, p = c.st["A"].shape
        new = linear.arrays({**{k: c.spec.get(k) for k in ("rows", "cols")},
                             "seed": op["seed"], "d": d, "p": p, "scale": op.get("scale")})[f]
        c.st[f] = new.copy() if f != "alpha" else new
        if op["inplace"] and np.asarray(getattr(c.obj, f)).dtype.kind == "f":
            getattr(c.obj, f)[...] = new
        else:
            setattr(c.obj, f, new)

    def wrapper(self, n, op):
        from mud import funs, util

        r = rs(op["seed"])
        if op["f"] == "transform":
            opers = [r.uniform(-1, 1, (k, 2)) for k in (1, 4)]
            data = [r.uniform(-1, 1, k) for k in (3, 4)]
            sd = 0.3 + float(r.uniform())
            A, b = util.transform_linear_setup(opers, data, sd)
            for k in range(2):
                wa, wb = linear.wme_row(opers[k], data[k], sd)
                self.compare("transform_linear_setup A", A[k], wa)
                self.compare("transform_linear_setup b", b[k], [wb])
            return self.res.event(n, "wrapper", op["f"])
        full = linear.arrays(op)
        v = np.reshape(op.get("cols") or [1.0] * op["p"], (-1, 1))
        if op["f"] == "updated_cov":
            kw = {k: full[n] for k, n in (("cov", "cov_i"), ("data_cov", "cov_o")) if k in op["given"]}
            st = {"A": full["A"], "b": full["b"], **{("cov_i" if k == "cov" else "cov_o"): v
                                                     for k, v in kw.items()}}
            args = {"init_cov" if k == "cov" else k: v for k, v in kw.items()}
            size = linear.rounding(linear.defaults(st), "mud_alt", None)
            self.compare("updated_cov", funs.updated_cov(full["A"], **args) / (v * v.T),
                         linear.closed(st, "mud_alt")[1] / (v * v.T), size)
            return self.res.event(n, "wrapper", op["f"])
        names = {"y": "y", "mean": "mean_i", "cov": "cov_i", "data_cov": "cov_o"}
        kw = {k: full[names[k]] for k in op["given"]}
        st = {"A": full["A"], "b": full["b"], **{names[k]: v for k, v in kw.items()}}
        if op["flat"] and "y" in kw:
            kw["y"] = kw["y"].ravel()
        col = "y" in kw and not op["flat"]
        f = op["f"]
        if f == "lin_prob":
            a = full["alpha"]
            L = funs.lin_prob(full["A"], full["b"], alpha=a, **kw)
            st["alpha"] = a
            self.compare(f, L.solve("map") / v, linear.closed(st, "map")[0] / v, linear.rounding(linear.defaults(st), "map", None))
            return self.res.event(n, "wrapper", f)
        if f.startswith("map"):
            kw["w"] = full["alpha"]
            st["alpha"] = full["alpha"]
        method = "mud_alt" if f == "mud_sol_with_cov" else f[:3]
        want, cov = linear.closed(st, method)
        size = linear.rounding(linear.defaults(st), method, None)
        got = getattr(funs, f)(full["A"], full["b"], **kw)
        if f.endswith("cov"):
            got, gcov = got
            self.compare(f"{f} covariance", gcov / (v * v.T), cov / (v * v.T), size)
        v = v if col else v.ravel()
        self.compare(f, got / v, (want if col else want.ravel()) / v, size)
        self.res.event(n, "wrapper", f)


def execute(plan, res):
    reset_globals()
    res.nontrivial = False
    sim = Sim(plan, res)
    sim.run()
    res.nontrivial = res.nontrivial or bool(res.faults) or any(sim.marks)


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        for k in ("fault", "od", "inplace"):
            if op.get(k):
                new = {a: b for a, b in op.items() if a != k}
                if k == "inplace":
                    new["inplace"] = False
                yield {**plan, "ops": plan["ops"][:i] + [new] + plan["ops"][i + 1:]}
    if len(plan["objs"]) > 1 and all(op["o"] < len(plan["objs"]) - 1 for op in plan["ops"]):
        yield {**plan, "objs": plan["objs"][:-1]}
