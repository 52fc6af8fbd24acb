"""C10 a spatio-temporal problem stays consistent through every setter call."""
import contextlib

import numpy as np

from .. import density
from ..common import Trap, close, error_of, kde_trap, linalg_trap, pick, reset_globals, rs
from ..core import HarnessError, Violation

RUNS = {"quick": 5000, "thorough": 60000}
CHUNK = 60
RULE = (
    "One run: 1-3 spatio-temporal problems driven through 6-40 seeded calls: valid and invalid "
    "assignments of every attribute in any order and container form, generated measurements, "
    "rejected datasets, sub-sampling and nearest-sample queries under list, array, boolean, "
    "slice and single-index masks, and inverse problems of every method with data and sample "
    "weights; some calls fail in a decomposition or scaler. All attributes are compared with the "
    "reference model after every call. Non-trivial: a query or inverse problem was answered."
)
STEP = "one call or assignment"
MEASURE = "distinct event logs (calls, forms, masks and outcomes)"
REAL = ["mud.base.SpatioTemporalProblem", "mud.base.DensityProblem", "mud.preprocessing",
        "mud.funs.data_prob", "scikit-learn"]
STUB = ["numpy.linalg.svd and scikit-learn's fit_transform wrapped so that the k-th call raises"]
ASSUMPTIONS = [
    "sensors and times are plain attributes: the simulated user changes them only in step with data",
    "principal components are compared up to sign, and only where their variance is separated",
    "ties between nearest samples have measure zero",
]
PROBES = ["invalid assignment rejected", "sub-sampled by all three masks", "boolean mask",
          "single sensor", "pca problem", "svd problem", "wme problem", "data weights",
          "decomposition failed", "measurements generated", "inconsistent dataset rejected"]

ATTRS = ("domain", "lam", "lam_ref", "data", "measurements", "true_vals", "sensors", "times",
         "std_dev", "sample_dist")


# --------------------------------------------------------------- generation


def gen_obj(rng):
    big = rng.random() < 0.01
    return {"seed": rng.randrange(2**31), "n": rng.choice([140, 400] if big else [5, 8, 14]),
            "p": rng.choice([1, 1, 2, 2, 3, 5]), "s": rng.choice([1, 2, 3, 5, 8]),
            "t": rng.choice([2, 35, 70] if big else [1, 2, 4]), "shift": rng.choice([0, 0, 0, 4.0, -15.0]),
            "sensors": rng.choice(["2d", "2d", "flat", "column", "3d"]),
            "order": rng.choice(["domain first", "lam first", "data first", "load", "empty",
                                 "no grid", "only sensors", "only times"])}


def gen_mask(rng):
    return pick(rng, {"none": 4, "list": 3, "array": 2, "bool": 2, "slice": 1, "repeat": 1, "one": 1})


def generate(rng, i, tier):
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([6, 10, 16] if tier == "quick" else [10, 20, 40])):
        kind = pick(rng, {"assign": 8, "bad": 6, "measure": 3, "sample": 5, "closest": 3,
                          "closest_true": 1, "problem": 7, "validate": 1, "load_bad": 1,
                          "grid": 1, "wrapper": 1, "functions": 0.5})
        op = {"op": kind, "o": rng.randrange(len(objs)), "seed": rng.randrange(2**31)}
        if kind == "assign":
            op["a"] = rng.choice(["domain", "lam", "lam_ref", "data", "measurements", "true_vals",
                                  "std_dev", "sample_dist"])
            op["form"] = rng.choice([0, 1, 2])
        elif kind == "bad":
            op["a"] = rng.choice(["domain", "domain", "lam", "lam_ref", "data", "measurements",
                                  "true_vals", "sample_dist"])
            op["how"] = rng.randrange(3)
        elif kind == "measure":
            op["ref"] = rng.choice([None, "good", "good", "bad"])
            op["std"] = rng.choice([None, 0.1, 0.5, 0.5, "bad", 1e-4, 20.0])
            op["rseed"] = rng.choice([None, 0, 7, 123, -1])
        elif kind in ("sample", "closest", "problem"):
            op["masks"] = [gen_mask(rng) for _ in range(3)]
            if kind == "problem":
                op["method"] = pick(rng, {"wme": 3, "pca": 3, "svd": 3, "none": 1})
                op["nc"] = rng.choice([1, 1, 2, 2, 3, 5])
                op["dw"] = pick(rng, {"none": 4, "random": 3, "zero": 1, "list": 1, "bad": 1})
                op["sw"] = pick(rng, {"none": 4, "random": 3, "bad": 1})
                if rng.random() < 0.2:
                    op["fault"] = {"at": rng.choice([0, 0, 1]),
                                   "error": rng.choice(["linalg", "memory", "value"])}
        elif kind == "wrapper":
            op["method"] = rng.choice(["wme", "pca", "svd"])
        ops.append(op)
    return {"objs": objs, "ops": ops}


# ------------------------------------------------------------------ clients


def layout(v, k):
    """The same values in another memory layout."""
    if k % 4 == 0:
        return v
    if k % 4 == 1:
        return np.asfortranarray(v)
    out = np.zeros([2 * s for s in v.shape], v.dtype)[tuple(slice(None, None, 2) for _ in v.shape)]
    if k % 4 == 2:
        out = np.moveaxis(np.zeros(v.shape[1:] + v.shape[:1], v.dtype), -1, 0)
    out[...] = v
    return out


def make_sensors(r, s, form):
    if form == "flat":
        return np.sort(r.uniform(0, 1, s))
    return r.uniform(0, 1, (s, {"2d": 2, "column": 1, "3d": 3}[form]))


class Client:
    def __init__(self, spec):
        from mud.base import SpatioTemporalProblem

        self.spec = spec
        r = self.r = rs(spec["seed"])
        self.n, self.p, self.s, self.t = spec["n"], spec["p"], spec["s"], spec["t"]
        self.shift = spec["shift"]
        self.m = dict.fromkeys(ATTRS)
        self.obj = SpatioTemporalProblem()
        vals = {
            "domain": self.box(r), "lam": self.shift + r.uniform(-0.8, 0.8, (self.n, self.p)),
            "sensors": make_sensors(r, self.s, spec["sensors"]),
            "times": np.sort(r.uniform(0, 2, self.t)),
            "data": r.normal(size=(self.n, self.s * self.t)),
            "measurements": r.normal(size=self.s * self.t),
            "true_vals": r.normal(size=self.s * self.t), "std_dev": 0.25,
            "lam_ref": self.shift + r.uniform(-0.5, 0.5, self.p),
        }
        order = {"domain first": ["domain", "lam", "sensors", "times", "data", "measurements",
                                  "true_vals", "std_dev", "lam_ref"],
                 "lam first": ["times", "sensors", "lam", "data", "std_dev", "true_vals", "measurements"],
                 "data first": ["sensors", "times", "data", "measurements", "domain", "lam"],
                 "load": [], "empty": ["sensors", "times"],
                 "no grid": ["domain", "lam", "data", "measurements"],
                 "only sensors": ["sensors", "data", "lam", "measurements", "true_vals"],
                 "only times": ["lam", "times", "data", "true_vals"]}[spec["order"]]
        if spec["order"] in ("no grid", "only times"):  # one sensor, at times 0, 1, ...
            self.s = 1
        elif spec["order"] == "only sensors":
            self.t = 1
        for a in ("data", "measurements", "true_vals"):
            vals[a] = vals[a][..., :self.s * self.t]
        for a in order:
            if a == "data" and spec["order"].startswith("only"):
                # one more column than there are sensors or times
                try:
                    self.obj.data = r.normal(size=(self.n, self.s * self.t + 1))
                except ValueError:
                    pass
                else:
                    raise Violation("accepted-invalid", "simulated data of the wrong size was "
                                    f"accepted with {spec['order']} set")
            self.put(a, vals[a])
        if spec["order"] == "load":
            self.obj.load({k: np.array(v) for k, v in vals.items() if k != "std_dev"}, std_dev=0.25)
            for a in vals:
                self.note(a, vals[a])
            self.m["sample_dist"] = "u"

    def box(self, r):
        return self.shift + np.array([[-1.0 - r.uniform(0, 1), 1.0 + r.uniform(0, 1)] for _ in range(self.p)])

    def put(self, a, v):
        setattr(self.obj, a, np.array(v) if isinstance(v, (np.ndarray, list)) else v)
        self.note(a, v)

    def note(self, a, v):
        """The model's account of a successful assignment."""
        m = self.m
        if a == "lam":
            m["lam"] = np.array(v, float).reshape(len(v), -1)
            if m["domain"] is None:
                m["domain"] = np.array([m["lam"].min(axis=0), m["lam"].max(axis=0)]).T
            if m["sample_dist"] is None:
                m["sample_dist"] = "u"
        elif a == "domain":
            m["domain"] = np.array(v, float).reshape(-1, 2)
        elif a == "data":
            m["data"] = np.array(v, float).reshape(len(v), -1)
            if m["sensors"] is None:
                m["sensors"] = np.array([0.0])
            if m["times"] is None:
                m["times"] = np.arange(float(self.t))
        elif a in ("measurements", "true_vals", "lam_ref"):
            m[a] = np.array(v, float).ravel()
        elif a in ("sensors", "times"):
            m[a] = np.array(v, float)
        else:
            m[a] = v


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res, self.n = plan, res, 0
        self.trap = Trap()

    def run(self):
        self.answered = 0
        self.clients = []
        for s in self.plan["objs"]:
            self.clients.append(Client(s))
            self.compare(self.clients[-1], "construction")
        for n, op in enumerate(self.plan["ops"]):
            if op["o"] >= len(self.clients):
                continue
            self.n = n
            self.res.steps += 1
            self.res.ops[op["op"]] += 1
            getattr(self, "do_" + op["op"])(n, op, self.clients[op["o"]])
            for c in self.clients:
                self.compare(c, f"step {n} ({op['op']} on problem {op['o']})")
        self.res.nontrivial = self.answered > 0

    def compare(self, c, when):
        for a in ATTRS:
            got, want = getattr(c.obj, a), c.m[a]
            if want is None or isinstance(want, (str, float)):
                same = (got is None) if want is None else bool(np.all(got == want))
            elif got is None:
                same = False
            elif a in ("domain", "lam", "data"):
                same = close(got, want, 0, 0)
            else:
                same = close(np.ravel(got), np.ravel(want), 0, 0)
            if not same:
                raise Violation("wrong-attribute", f"after {when}: {a} is {short(got)}, "
                                f"expected {short(want)}")

    def rejects(self, n, what, fn, must=True):
        """fn must fail, leaving every attribute as it was (compared later)."""
        try:
            fn()
        except NameError as e:  # not a rejection, but a slip of the code itself
            raise Violation("accepted-invalid", f"step {n}: {what} ran into {type(e).__name__}: {e}")
        except Exception as e:
            self.res.event(n, what, "rejected", type(e).__name__)
            return e
        if must:
            raise Violation("accepted-invalid", f"step {n}: {what} was accepted")
        return None

    # -------------------------------------------------------------- setters

    def do_assign(self, n, op, c):
        a, r, T, m = op["a"], rs(op["seed"]), c.obj, c.m
        k = c.s * c.t
        form = op["form"]
        if a == "domain":
            v = c.box(r)
            if m["lam"] is not None and op["seed"] % 3 == 0:  # no wider than the samples, on some sides
                edge = np.column_stack([m["lam"].min(axis=0), m["lam"].max(axis=0)])
                v = np.where(r.randint(2, size=v.shape) > 0, edge, v)
            given = [v, v.tolist(), v.ravel()][form]
        elif a == "lam":
            v = c.shift + r.uniform(-0.8, 0.8, (c.n, c.p))
            given = [v, v.tolist(), v.ravel() if c.p == 1 else v][form]
        elif a == "lam_ref":
            if m["domain"] is None:
                if self.rejects(n, "lam_ref before the domain", lambda: setattr(T, a, [0.0] * c.p)):
                    self.res.probes["invalid assignment rejected"] += 1
                return
            lo, hi = m["domain"].T
            v = lo + (hi - lo) * r.uniform(0.05, 0.95, c.p)
            if form == 2:
                v[0] = [lo, hi][r.randint(2)][0]
            given = [v, v.tolist(), v.reshape(-1, 1)][form]
        elif a == "data":
            v = r.normal(size=(c.n, k))
            given = [v, [v.reshape(c.n, c.s, c.t), layout(v.reshape(c.n, c.s, c.t), op["seed"])][op["seed"] // 3 % 2],
                     v.ravel() if k == 1 else v.copy(order="F")][form]
        elif a in ("measurements", "true_vals"):
            v = r.normal(size=k)
            given = [v, layout(v.reshape(c.s, c.t), op["seed"]), v.tolist()][form]
            if m["sensors"] is None:
                self.rejects(n, f"{a} before sensors", lambda: setattr(T, a, given))
                return
        elif a == "std_dev":
            v = given = [float(np.round(r.uniform(0.05, 1), 3))] * 3 + [1e-4, 20.0, 2]
            v = given = v[r.randint(len(v))]
        else:
            v = given = ["u", "n"][form % 2]
        setattr(T, a, given)
        c.note(a, v)
        self.res.event(n, "assign", op["o"], a, form)

    def do_bad(self, n, op, c):
        a, r, T, m, how = op["a"], rs(op["seed"]), c.obj, c.m, op["how"]
        k = c.s * c.t
        if a == "domain":
            if m["lam"] is None:
                return
            if how == 0:
                v = c.shift + np.array([[-3.0, 3.0]] * (c.p + 1 + r.randint(2)))
            elif how == 1 and c.p > 1:
                v = c.shift + np.array([[-3.0, 3.0]] * (c.p - 1))
            else:  # does not contain the parameters
                v = c.shift + np.array([[-3.0, 3.0]] * c.p)
                i = r.randint(c.p)
                side = r.randint(2)
                lim = [m["lam"][:, i].min(), m["lam"][:, i].max()][side]
                v[i, side] = lim + [1e-6, -1e-6][side] if r.randint(2) else lim + [0.3, -0.3][side]
        elif a == "lam":
            if m["domain"] is None:
                return
            v = c.shift + r.uniform(-0.8, 0.8, (c.n, c.p + (1 if how or c.p == 1 else -1)))
        elif a == "lam_ref":
            if m["domain"] is None:
                return
            lo, hi = m["domain"].T
            v = lo + (hi - lo) * r.uniform(0.05, 0.95, c.p)
            i = r.randint(c.p)
            v[i] = lo[i] - 1e-6 if how == 0 else hi[i] + (1e-6 if how == 1 else 2)
            if c.shift and r.randint(2):
                v[i] = 0.0
        elif a == "data":
            if m["sensors"] is None:
                return
            v = r.normal(size=(c.n, k + [1, 2, k][how]))
        elif a in ("measurements", "true_vals"):
            if m["sensors"] is None:
                return
            v = r.normal(size=k + [1, 3, k][how])
        else:
            v = ["x", "U", "uniform"][how]
        self.rejects(n, f"invalid {a} {np.shape(v)}", lambda: setattr(T, a, v))
        self.res.probes["invalid assignment rejected"] += 1
        self.res.faults["invalid assignment"] += 1

    def do_grid(self, n, op, c):
        """New sensors and times, in step with everything measured on them."""
        r = rs(op["seed"])
        if c.m["data"] is not None or c.m["measurements"] is not None or c.m["true_vals"] is not None:
            c.put("sensors", make_sensors(r, c.s, c.spec["sensors"]))
            c.put("times", np.sort(r.uniform(0, 2, c.t)))
        else:
            c.s, c.t = 1 + r.randint(4), 1 + r.randint(4)
            c.put("sensors", make_sensors(r, c.s, "2d"))
            c.put("times", np.sort(r.uniform(0, 2, c.t)))
        self.res.event(n, "grid", op["o"], c.s, c.t)

    def do_measure(self, n, op, c):
        T, m, r = c.obj, c.m, rs(op["seed"])
        k = c.s * c.t
        kw = {}
        if op["ref"]:
            kw["ref"] = r.normal(size=k + (op["ref"] == "bad"))
        if op["std"] is not None:
            kw["std_dev"] = np.ones(k + 1) if op["std"] == "bad" else op["std"]
        if op["rseed"] is not None:
            kw["seed"] = op["rseed"]
        std = op["std"] if op["std"] is not None else m["std_dev"]
        bad = (op["ref"] == "bad" or std == "bad" or op["rseed"] == -1 or std is None
               or (op["ref"] is None and m["true_vals"] is None) or m["sensors"] is None)
        if bad:
            self.rejects(n, "measurements_from_reference with invalid arguments",
                         lambda: T.measurements_from_reference(**kw))
            self.res.faults["invalid assignment"] += 1
            return
        T.measurements_from_reference(**kw)
        if op["ref"]:
            c.note("true_vals", kw["ref"])
        m["std_dev"] = std
        got = np.asarray(T.measurements, float).ravel()
        if got.shape != (k,) or not np.all(np.isfinite(got)):
            raise Violation("wrong-attribute", f"step {n}: generated measurements have shape "
                            f"{np.shape(T.measurements)}, {k} expected")
        if np.max(np.abs(got - m["true_vals"])) > 7 * std:
            raise Violation("wrong-attribute", f"step {n}: generated measurements {short(got)} are "
                            f"not those of the true values {short(m['true_vals'])}")
        m["measurements"] = got.copy()
        self.res.probes["measurements generated"] += 1
        self.res.event(n, "measure", op["o"], sorted(kw))

    def do_load_bad(self, n, op, c):
        """A dataset whose fields do not fit each other."""
        r, p = rs(op["seed"]), 1 + rs(op["seed"]).randint(4)
        s, t, k = 2, 3, 6
        ds = {"domain": np.array([[-5.0, 5.0]] * p), "lam": r.uniform(-1, 1, (4, p)),
              "sensors": r.uniform(size=(s, 2)), "times": np.arange(3.0), "std_dev": 0.77,
              "data": r.normal(size=(4, k)), "measurements": r.normal(size=k),
              "true_vals": r.normal(size=k), "lam_ref": np.zeros(p), "sample_dist": "n"}
        bad = ["data", "measurements", "true_vals", "lam", "lam_ref", "sample_dist"][r.randint(6)]
        if bad == "lam_ref":
            ds[bad] = np.full(p, 9.0)
        elif bad == "sample_dist":
            ds[bad] = "z"
        else:
            ds[bad] = np.hstack([ds[bad], ds[bad][..., :1]])
        self.rejects(n, f"a dataset with invalid {bad}", lambda: c.obj.load(ds))
        self.res.probes["inconsistent dataset rejected"] += 1

    def do_validate(self, n, op, c):
        m, T = c.m, c.obj
        for meas in (True, False):
            for true in (True, False):
                need = ["domain", "lam", "data"] + ["measurements"] * meas
                need += ["lam_ref", "true_vals"] * true
                missing = [a for a in need if m[a] is None]
                if missing:
                    self.rejects(n, f"validate without {missing}",
                                 lambda: T.validate(check_meas=meas, check_true=true))
                else:
                    T.validate(check_meas=meas, check_true=true)
        self.res.event(n, "validate", op["o"])

    # -------------------------------------------------------------- queries

    def mask(self, r, kind, size, which):
        """(argument, indices)"""
        if kind == "none":
            return None, list(range(size))
        k = 1 + r.randint(size)
        idx = [int(i) for i in r.permutation(size)[:k]]
        if kind == "list":
            return idx, idx
        if kind == "array":
            return np.array(idx), idx
        if kind == "repeat":
            idx = [int(i) for i in r.randint(0, size, k)]
            return idx, idx
        if kind == "bool":
            b = np.zeros(size, bool)
            b[idx] = True
            self.res.probes["boolean mask"] += 1
            return b, [int(i) for i in np.nonzero(b)[0]]
        if kind == "slice":
            lo = r.randint(size)
            return slice(lo, None), list(range(lo, size))
        if which != "sensors":  # only a sensor may be named by a bare index
            return idx[:1], idx[:1]
        self.res.probes["single sensor"] += 1
        return idx[0], idx[:1]

    def masks(self, op, c):
        r = rs(op["seed"])
        out = [self.mask(r, kind, size, which) for kind, size, which in zip(
            op["masks"], (c.n, c.t, c.s), ("samples", "times", "sensors"))]
        names = ("samples_mask", "times_mask", "sensors_mask")
        kw = {k: a for k, (a, _) in zip(names, out) if a is not None}
        self.res.probes["sub-sampled by all three masks"] += len(kw) == 3
        si, ti, xi = (i for _, i in out)
        return kw, si, ti, xi, r

    def ready(self, c, *need):
        m = c.m
        return all(m[a] is not None for a in ("lam", "data", "sensors", "times") + need)

    def selected(self, c, si, ti, xi):
        m = c.m
        d = m["data"].reshape(c.n, c.s, c.t)[np.ix_(si, xi, ti)].reshape(len(si), -1)
        z = None
        if m["measurements"] is not None:
            z = m["measurements"].reshape(c.s, c.t)[np.ix_(xi, ti)].ravel()
        sens = m["sensors"].reshape(c.s, -1)[xi]
        return m["lam"][si], m["times"][ti], sens, d, z

    def expect(self, n, what, got, want, rtol=1e-9, atol=1e-12):
        if got is None or want is None:
            if got is not want:
                raise Violation("wrong-selection", f"step {n}: {what} is {short(got)}, expected {short(want)}")
            return
        if not close(got, want, rtol, atol):
            raise Violation("wrong-selection", f"step {n}: {what} is {short(got)} of shape "
                            f"{np.shape(got)}, expected {short(want)} of shape {np.shape(want)}")

    def do_sample(self, n, op, c):
        kw, si, ti, xi, _ = self.masks(op, c)
        if not self.ready(c):
            if c.m["data"] is None:
                self.rejects(n, "sample_data without data", lambda: c.obj.sample_data(**kw))
            return
        lam, times, sens, d, z = c.obj.sample_data(**kw)
        w = self.selected(c, si, ti, xi)
        self.expect(n, "selected lam", lam, w[0])
        self.expect(n, "selected times", np.ravel(times), w[1])
        self.expect(n, "selected sensors", np.ravel(sens), w[2].ravel())
        self.expect(n, "selected data", d, w[3])
        self.expect(n, "selected measurements", z, w[4])
        self.answered += 1
        self.res.event(n, "sample", op["o"], *op["masks"])

    def do_closest(self, n, op, c):
        kw, si, ti, xi, _ = self.masks(op, c)
        if not self.ready(c, "measurements"):
            return
        lam, _, _, d, z = self.selected(c, si, ti, xi)
        got = c.obj.get_closest_to_measurements(**kw)
        best = np.argmin(((d - z) ** 2).sum(axis=1))
        self.expect(n, "closest sample to the measurements", got, lam[best])
        self.answered += 1
        self.res.event(n, "closest", op["o"], *op["masks"])

    def do_closest_true(self, n, op, c):
        if c.m["true_vals"] is None:
            self.rejects(n, "closest to true values never set", c.obj.get_closest_to_true_vals)
            return
        if not self.ready(c):
            return
        best = np.argmin(((c.m["data"] - c.m["true_vals"]) ** 2).sum(axis=1))
        self.expect(n, "closest sample to the true values", c.obj.get_closest_to_true_vals(),
                    c.m["lam"][best])
        self.answered += 1
        self.res.event(n, "closest_true", op["o"])

    # ------------------------------------------------------ inverse problems

    def qoi(self, method, R, nc):
        """(quantities of interest, columns that are determined) from residuals."""
        if method == "wme":
            return R.sum(axis=1, keepdims=True) / np.sqrt(R.shape[1]), [0]
        mean, sd = R.mean(axis=0), R.std(axis=0)
        sd = np.where(sd < 1e-12, 1.0, sd)
        _, s, v = np.linalg.svd((R - mean) / sd)
        cols = min(nc, R.shape[1])
        full = np.zeros(v.shape[0])
        full[:len(s)] = s
        top = full[0] if full[0] > 0 else 1.0
        good = [k for k in range(cols) if full[k] > 1e-6 * top
                and (k == 0 or full[k - 1] - full[k] > 1e-5 * top)
                and (k + 1 >= len(full) or full[k] - full[k + 1] > 1e-5 * top)]
        return R @ v[:cols].T, good

    @contextlib.contextmanager
    def decomposition_trap(self):
        from sklearn.decomposition import PCA
        from sklearn.preprocessing import StandardScaler

        trap, old = self.trap, {}

        def wrap(f):
            def call(*a, **k):
                trap.hit()
                return f(*a, **k)

            return call

        for cls in (PCA, StandardScaler):
            old[cls] = cls.__dict__.get("fit_transform")
            cls.fit_transform = wrap(cls.fit_transform)
        try:
            with linalg_trap(trap, ("svd",)):
                yield
        finally:
            for cls, f in old.items():
                if f is None:
                    del cls.fit_transform
                else:
                    cls.fit_transform = f

    @staticmethod
    def length(r, k, full, bad):
        """The length of k weights, or a wrong one."""
        if not bad:
            return k
        wrong = [m for m in (k + 1, k + 1, k - 1, 1, 2 * k, full) if m > 0 and m != k]
        return wrong[r.randint(len(wrong))]

    def do_problem(self, n, op, c):
        kw, si, ti, xi, r = self.masks(op, c)
        if not self.ready(c, "measurements", "std_dev", "domain"):
            return
        lam, _, _, d, z = self.selected(c, si, ti, xi)
        k, method, nc = d.shape[1], op["method"], op["nc"]
        dw = sw = None
        if op["dw"] != "none":
            dw = r.uniform(0.2, 2.0, self.length(r, k, c.s * c.t, op["dw"] == "bad"))
            if op["dw"] == "zero" and k > 1:
                dw[r.randint(k)] = 0.0
            kw["data_weights"] = dw.tolist() if op["dw"] == "list" else dw
        if op["sw"] != "none":
            sw = r.uniform(0.2, 2.0, self.length(r, len(si), c.n, op["sw"] == "bad"))
            kw["sample_weights"] = sw
        if method != "pca" or r.randint(2):  # the documented default
            kw["method"] = "unknown" if method == "none" else method
        if nc != 2 or r.randint(2):
            kw["num_components"] = nc
        T = c.obj
        few = method == "pca" and nc > min(len(si), k)
        if method == "none" or op["dw"] == "bad" or op["sw"] == "bad" or few:
            self.rejects(n, f"mud_problem({method}, data weights {op['dw']}, sample weights {op['sw']}"
                         f", {nc} of {k} components)", lambda: T.mud_problem(**kw))
            self.res.faults["invalid inverse problem"] += 1
            return
        if op.get("fault"):
            fired = self.trap.fired
            self.trap.arm(op["fault"]["at"], error_of(op["fault"]["error"]))
            err = None
            try:
                with self.decomposition_trap():
                    D = T.mud_problem(**kw)
            except Exception as e:
                err = e
            finally:
                self.trap.disarm()
            if self.trap.fired > fired:
                self.res.faults["decomposition failure"] += 1
                self.res.probes["decomposition failed"] += 1
            elif err is not None:
                raise err
            if err is not None:
                self.res.event(n, "problem", op["o"], "failed", type(err).__name__)
                self.compare(c, f"failed mud_problem at step {n}")
        D = T.mud_problem(**kw)
        R = (z - d) / c.m["std_dev"]
        if dw is not None:
            R = R * (dw / np.sqrt((dw * dw).sum()))
            self.res.probes["data weights"] += 1
        want, good = self.qoi(method, R, nc)
        self.judge(n, f"{method} problem", D, lam, want, good, c.m["domain"], sw)
        self.res.probes[f"{method} problem"] += 1
        self.res.event(n, "problem", op["o"], method, nc, op["dw"], op["sw"], *op["masks"])

    def judge(self, n, what, D, lam, want, good, domain, sw, initial=None):
        self.answered += 1
        self.expect(n, f"X of the {what}", D.X, lam)
        y = np.asarray(D.y, float)
        if y.shape != want.shape:
            raise Violation("wrong-selection", f"step {n}: {what} has observables of shape {y.shape}, "
                            f"expected {want.shape}")
        for k in good:
            a, b = y[:, k], want[:, k]
            if not (close(a, b, 1e-6, 1e-8) or (not what.startswith("wme") and close(a, -b, 1e-6, 1e-8))):
                raise Violation("wrong-selection", f"step {n}: quantity of interest {k} of the {what} "
                                f"is {short(a)}, expected {short(b)}")
        self.expect(n, f"domain of the {what}", np.asarray(D.domain, float), domain)
        # and the problem answers for exactly these samples, weights and domain
        if len(good) < want.shape[1] or len(lam) <= want.shape[1] + 2:
            return
        m = density.Model(lam, y, domain)
        m.table = {"w": m.weights(sw, False), "i": initial}
        st = ("w", "i", density.UNSET, density.UNSET)
        try:
            v = m.values(st)
        except (np.linalg.LinAlgError, ValueError):
            return
        if not v["ok"] or not np.max(v["up"]) > 0:
            return
        er, pt = D.expected_ratio(), D.mud_point()
        if not m.er_ok(st, er) or not m.mud_ok(st, pt):
            raise Violation("wrong-selection", f"step {n}: {what} answers expected ratio {er} and MUD "
                            f"point {short(pt)}, its samples and weights give {v['er']} and "
                            f"{short(m.X[int(np.argmax(v['up']))])}")

    def do_wrapper(self, n, op, c):
        from mud.funs import data_prob
        from scipy.stats import uniform

        if not self.ready(c, "measurements", "domain"):
            return
        m, method = c.m, op["method"]
        if method == "pca" and min(c.n, c.s * c.t) < 2:
            return
        init = uniform(loc=m["domain"][:, 0], scale=m["domain"][:, 1] - m["domain"][:, 0])
        try:
            D = data_prob(m["lam"].copy(), m["data"].copy(), measurements=m["measurements"].copy(),
                          std_dev=0.3, domain=m["domain"].copy(), times=m["times"].copy(),
                          sensors=m["sensors"].copy(), method=method, init_dist=init)
        except np.linalg.LinAlgError:
            return  # no density estimate of so few samples
        R = (m["measurements"] - m["data"]) / 0.3
        want, good = self.qoi(method, R, 2)
        self.judge(n, f"{method} wrapper", D, m["lam"], want, good, m["domain"], None, init)
        self.res.event(n, "wrapper", method)

    def do_functions(self, n, op, c):
        """The decompositions themselves."""
        from mud.preprocessing import pca, svd

        r = rs(op["seed"])
        X = r.normal(size=(7, 4))
        for f in (pca, svd):
            self.rejects(n, f"{f.__name__} of 3-D data", lambda: f(r.normal(size=(2, 2, 2))))
        res, train = pca(X, n_components=2)
        _, _, v = svd(X)
        Z = (X - X.mean(axis=0)) / X.std(axis=0)
        _, s, w = np.linalg.svd(Z)
        for k in range(2):
            if s[k] - s[k + 1] < 1e-4:
                return
            for name, row in (("pca", res.components_[k]), ("svd", v[k])):
                if not (close(row, w[k], 1e-6, 1e-8) or close(row, -w[k], 1e-6, 1e-8)):
                    raise Violation("wrong-selection", f"step {n}: {name} component {k} is {short(row)}")
            if not close(np.abs(train[:, k]), np.abs(Z @ w[k]), 1e-6, 1e-8):
                raise Violation("wrong-selection", f"step {n}: pca-transformed data is wrong")
        self.res.event(n, "functions")


def short(x):
    if x is None or isinstance(x, (str, float, int)):
        return repr(x)
    return str(np.round(np.ravel(np.asarray(x, float))[:6], 5).tolist())


def execute(plan, res):
    reset_globals()
    Sim(plan, res).run()


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        rest = lambda new: {**plan, "ops": plan["ops"][:i] + [new] + plan["ops"][i + 1:]}
        if op.get("fault"):
            yield rest({a: b for a, b in op.items() if a != "fault"})
        for j, k in enumerate(op.get("masks", [])):
            if k != "none":
                yield rest({**op, "masks": op["masks"][:j] + ["none"] + op["masks"][j + 1:]})
        for k in ("dw", "sw"):
            if op.get(k, "none") != "none":
                yield rest({**op, k: "none"})
    if len(plan["objs"]) > 1 and all(op["o"] < len(plan["objs"]) - 1 for op in plan["ops"]):
        yield {**plan, "objs": plan["objs"][:-1]}
    for j, s in enumerate(plan["objs"]):
        for k, v in (("n", 5), ("p", 1), ("s", 1), ("t", 1)):
            if s[k] != v:
                yield {**plan, "objs": plan["objs"][:j] + [{**s, k: v}] + plan["objs"][j + 1:]}
