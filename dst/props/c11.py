"""C11 loading a dataset is faithful or fails loudly, under storage faults."""
import contextlib
import os
import pickle
import sys
import types

import numpy as np

from ..common import patched, pick, reset_globals, rs
from ..core import HarnessError, Violation
from ..vfs import Disk
from .c07 import freeze
from .c10 import ATTRS, short

RUNS = {"quick": 8000, "thorough": 120000}
CHUNK = 80
MEMORY = 3 << 30  # damaged lengths in a pickle may ask for any amount
RULE = (
    "One run: 1-3 dataset files on a simulated disk and 1-2 problems driven through 3-20 seeded "
    "steps: loads from files or dictionaries, by constructor or load(), with fields renamed, "
    "overridden, suppressed or missing, through storage faults (missing file, directory, "
    "truncation at any byte, foreign or zeroed contents, open and read errors, out of memory, "
    "short reads), reloads after the fault, use of the loaded problem and rewritten files. After "
    "every step all attributes are compared with a reference model that reads the same bytes. "
    "Non-trivial: at least one load succeeded."
)
STEP = "one load, use or rewrite"
MEASURE = "distinct event logs (loads, mappings, faults and outcomes)"
REAL = ["mud.base.SpatioTemporalProblem", "pickle", "files in a scratch directory"]
STUB = ["open() served by a simulated disk", "xarray replaced by a stub reading the same files"]
ASSUMPTIONS = [
    "a pickle has no checksum: damage that still unpickles to a dataset is that dataset",
    "a dataset that only contradicts values loaded earlier may be refused or accepted",
    "an explicitly renamed field missing from the dataset may be skipped or refused",
]
PROBES = ["truncated", "missing", "read error", "short reads", "netcdf", "reload after fault",
          "renamed", "renamed to another field", "overridden", "suppressed", "inconsistent dataset", "constructor"]

FIELDS = ("sample_dist", "domain", "sensors", "times", "lam", "data", "lam_ref", "std_dev",
          "true_vals", "measurements")


# ------------------------------------------------------- xarray, as a stub


class StubDataset:
    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d


def load_dataset(path, *args, **kwargs):
    with open(path, "rb") as fp:
        blob = fp.read()
    if blob[:4] != b"CDF\x02":
        raise ValueError("not a netCDF file")
    return StubDataset(pickle.loads(blob[4:]))


if "xarray" not in sys.modules:
    _x = types.ModuleType("xarray")
    _x.load_dataset = load_dataset
    _x.Dataset = StubDataset
    sys.modules["xarray"] = _x


# --------------------------------------------------------------- generation


def gen_file(rng):
    big = rng.random() < 0.02
    return {"seed": rng.randrange(2**31), "n": rng.choice([40, 300] if big else [3, 6, 10]),
            "p": rng.choice([1, 2, 3, 5]), "s": 9 if big else rng.choice([1, 2, 4]),
            "t": 7 if big else rng.choice([1, 2, 3]),
            "drop": sorted(rng.sample(FIELDS, rng.choice([0, 0, 0, 1, 2, 4]))),
            "form": rng.choice(["array", "array", "int", "float32", "fortran", "cube", "flat"]),
            "proto": rng.choice([2, 3, 4, 5]), "dir": rng.choice(["", "sets/", "a b/c/"]),
            "ext": rng.choice(["pkl", "pkl", "", "dat", "nc"]),
            "bad": rng.choice([None] * 7 + ["data", "lam", "measurements", "true_vals", "lam_ref",
                                            "sample_dist"]),
            "rename": {f: f + "_x" for f in FIELDS if rng.random() < 0.12},
            "decoy": rng.random() < 0.3, "nodev": rng.random() < 0.12}


def gen_fault(rng):
    k = pick(rng, {"missing": 2, "directory": 1, "truncate": 4, "garbage": 1, "empty": 1,
                   "zerotail": 2, "open": 2, "read": 4, "short": 2, "foreign": 1})
    f = {"kind": k}
    if k in ("truncate", "zerotail"):
        f["frac"] = round(rng.random(), 4)
    elif k == "open":
        f["error"] = rng.choice(["EACCES", "EMFILE", "EIO", "ENOENT"])
    elif k == "read":
        f["error"] = rng.choice(["EIO", "EIO", "ESTALE", "memory"])
        f["at"] = rng.choice([0, 0, 1, 2, 3])
    elif k == "short":
        f["n"] = rng.choice([1, 3, 17])
    elif k == "foreign":
        f["what"] = rng.choice(["list", "none", "string"])
    return f


def generate(rng, i, tier):
    files = [gen_file(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops, n = [], rng.choice([3, 6, 10] if tier == "quick" else [4, 8, 20])
    while len(ops) < n:
        kind = pick(rng, {"load": 8, "use": 2, "set": 1, "rewrite": 1})
        op = {"op": kind, "o": rng.randrange(2), "seed": rng.randrange(2**31)}
        if kind in ("load", "rewrite"):
            op["f"] = rng.randrange(len(files))
        if kind == "load":
            op["via"] = pick(rng, {"file": 8, "dict": 2, "ctor file": 2, "ctor dict": 1})
            op["abs"] = rng.random() < 0.3
            op["xr"] = rng.random() < 0.8
            op["map"] = {}
            if not op["via"].startswith("ctor"):
                for f in FIELDS:
                    k = pick(rng, {"default": 10, "renamed": 2, "none": 1, "value": 1})
                    if k != "default":
                        op["map"][f] = k
                if rng.random() < 0.15:
                    op["map"][rng.choice(["measurements", "true_vals"])] = "cross"
                if rng.random() < 0.1:
                    op["map"]["note"] = "extra"
                if rng.random() < 0.5:
                    op["map"] = {}
            if "file" in op["via"] and rng.random() < 0.45:
                op["fault"] = gen_fault(rng)
        ops.append(op)
        if op.get("fault") and rng.random() < 0.7:
            ops.append({a: b for a, b in op.items() if a != "fault"})
    return {"files": files, "ops": ops}


# ------------------------------------------------------------- the datasets


def dataset(spec, extra=0):
    """The stored dictionary of a file spec, under its stored names."""
    r = rs(spec["seed"] + 7919 * extra)
    n, p, s, t = (spec[k] for k in "npst")
    k = s * t
    form = spec["form"]
    d = {
        "sample_dist": "un"[r.randint(2)], "domain": np.array([[-1.0, 1.0 + j] for j in range(p)]),
        "sensors": r.uniform(size=(s, 2)), "times": np.sort(r.uniform(size=t)),
        "lam": r.uniform(-1, 1, (n, p)), "data": r.normal(size=(n, k)),
        "lam_ref": r.uniform(-1, 1, p), "std_dev": 0.125 * (1 + r.randint(5)),
        "true_vals": r.normal(size=(k, 1)), "measurements": r.normal(size=(k, 1)),
    }
    if form == "int":
        d["lam"] = r.randint(-1, 2, (n, p))
        d["data"] = r.randint(-9, 10, (n, k))
        d["measurements"] = r.randint(-9, 10, k)
        d["domain"] = d["domain"].astype(int)
    elif form == "float32":
        d["data"] = d["data"].astype(np.float32)
        d["true_vals"] = d["true_vals"].astype(np.float32).ravel()
    elif form == "fortran":
        d["lam"], d["data"] = np.asfortranarray(d["lam"]), np.asfortranarray(d["data"])
        d["domain"] = d["domain"].tolist()
        d["lam_ref"] = d["lam_ref"].reshape(1, -1)
    elif form == "cube":
        d["data"] = d["data"].reshape(n, s, t)
        d["measurements"] = d["measurements"].reshape(s, t)
        d["true_vals"] = d["true_vals"].reshape(s, t).tolist()
        d["lam_ref"] = d["lam_ref"].reshape(-1, 1)
    elif form == "flat":
        d["lam"] = d["lam"].tolist()
        d["domain"] = d["domain"].ravel()
        d["lam_ref"] = d["lam_ref"].tolist()
        d["measurements"] = d["measurements"].ravel().tolist()
    bad = spec["bad"]
    if bad in ("data", "measurements", "true_vals", "lam"):
        a = np.asarray(d[bad])
        d[bad] = np.concatenate([a.reshape(n, -1), a.reshape(n, -1)[:, :1]], axis=1) if bad in (
            "data", "lam") else np.concatenate([a.ravel(), a.ravel()[:1]])
    elif bad == "lam_ref":
        d[bad] = np.full(p, 40.0)
    elif bad == "sample_dist":
        d[bad] = "x"
    if spec.get("nodev"):  # stored, as none
        d["std_dev"] = None
    for f in spec["drop"]:
        del d[f]
    for f, g in spec["rename"].items():
        if f in d:
            d[g] = d.pop(f)
            if spec.get("decoy"):  # another value under the attribute's own name
                d[f] = decoy(f, d[g], r)
    d["u"] = {"kind": "response", "plot": [r.uniform(size=3)]}
    d["label"] = "stored label"
    return d


def decoy(f, v, r):
    if f == "sample_dist":
        return "n" if v == "u" else "u"
    if f == "std_dev":
        return 1.0 if v is None else v + 1.0
    a = np.asarray(v, float)
    if f == "domain":
        return a * 2
    if f in ("lam", "lam_ref"):
        return a * 0.5
    return a + r.uniform(0.25, 1.0, a.shape)


def replacement(f, spec, r):
    """A value given for a field instead of a name."""
    n, p, s, t = (spec[k] for k in "npst")
    k = s * t
    return {
        "sample_dist": None, "domain": np.array([[-2.0, 5.0]] * p), "sensors": r.uniform(size=(s, 2)),
        "times": np.arange(float(t)), "lam": r.uniform(-1, 1, (n, p)), "data": r.normal(size=(n, k)),
        "lam_ref": r.uniform(-1, 1, p), "std_dev": 0.375, "true_vals": r.normal(size=k),
        "measurements": r.normal(size=k),
    }[f]


# ----------------------------------------------------------- reference model


class Refused(Exception):
    """hard: the dataset contradicts itself; else only what was there before"""

    def __init__(self, hard):
        self.hard = hard


def flat(v):
    return np.ravel(np.asarray(v, float))


def apply(m, todo):
    """The attributes after setting the fields in `todo` on top of m."""
    m, fresh = dict(m), set()
    for a in FIELDS:
        if a not in todo:
            continue
        v = todo[a]
        if a == "sample_dist":
            if v not in ("u", "n"):
                raise Refused(True)
            m[a] = v
        elif a == "domain":
            v = np.reshape(np.asarray(v, float), (-1, 2))
            if m["lam"] is not None:
                lo, hi = m["lam"].min(axis=0), m["lam"].max(axis=0)
                if len(lo) != len(v) or np.any(v[:, 0] > lo) or np.any(v[:, 1] < hi):
                    raise Refused(False)
            m[a] = v
        elif a in ("sensors", "times"):
            m[a] = np.asarray(v, float)
        elif a == "lam":
            v = np.asarray(v, float)
            v = v.reshape(len(v), -1)
            if m["domain"] is None:
                m["domain"] = np.array([v.min(axis=0), v.max(axis=0)]).T
            elif len(m["domain"]) != v.shape[1]:
                raise Refused("domain" in fresh)
            if m["sample_dist"] is None:
                m["sample_dist"] = "u"
            m[a] = v
        elif a == "data":
            v = np.asarray(v, float)
            v = v.reshape(len(v), -1)
            known = fresh >= {"sensors", "times"}
            if m["sensors"] is None and m["times"] is None:
                m["sensors"], m["times"] = np.array([0.0]), np.arange(float(v.shape[1]))
            elif m["times"] is None:
                m["times"] = np.array([0.0])
            elif m["sensors"] is None:
                m["sensors"] = np.array([0.0])
            if len(m["sensors"]) * len(m["times"]) != v.shape[1]:
                raise Refused(known)
            m[a] = v
        elif a == "lam_ref":
            v = flat(v)
            if m["domain"] is None:
                raise Refused(True)
            dom = m["domain"]
            if len(v) > len(dom):
                raise Refused(False)
            if any(x < d[0] or x > d[1] for x, d in zip(v, dom)):
                raise Refused("domain" in fresh)
            m[a] = v
        elif a == "std_dev":
            m[a] = v
        else:
            v = flat(v)
            if m["sensors"] is None or m["times"] is None:
                raise Refused(True)
            if len(v) != len(m["sensors"]) * len(m["times"]):
                raise Refused(fresh >= {"sensors", "times"} or "data" in fresh)
            m[a] = v
        fresh.add(a)
    return m


def consistent(m):
    """False if fields kept from earlier do not fit those just loaded."""
    size = None
    if m["sensors"] is not None and m["times"] is not None:
        size = len(m["sensors"]) * len(m["times"])
    for a in ("measurements", "true_vals"):
        if m[a] is not None and len(m[a]) != size:
            return False
    if m["data"] is not None and m["data"].shape[1] != size:
        return False
    dom, lam = m["domain"], m["lam"]
    if lam is not None and (lam.shape[1] != len(dom) or np.any(lam.min(axis=0) < dom[:, 0])
                            or np.any(lam.max(axis=0) > dom[:, 1])):
        return False
    ref = m["lam_ref"]
    if ref is not None and (len(ref) != len(dom) or np.any(ref < dom[:, 0]) or np.any(ref > dom[:, 1])):
        return False
    return lam is None or m["data"] is None or len(lam) == len(m["data"])


# ---------------------------------------------------------------- simulation


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res
        self.dicts = []  # (dataset given, frozen copy)

    def run(self):
        os.makedirs("disk", exist_ok=True)
        self.disk = Disk("disk")
        from mud.base import SpatioTemporalProblem

        self.cls = SpatioTemporalProblem
        self.extra = [0] * len(self.plan["files"])
        for i in range(len(self.plan["files"])):
            self.store(i)
        self.objs = [SpatioTemporalProblem(), SpatioTemporalProblem()]
        self.model = [dict.fromkeys(ATTRS), dict.fromkeys(ATTRS)]
        self.loaded, self.faulted = 0, set()
        for n, op in enumerate(self.plan["ops"]):
            self.n = n
            self.res.steps += 1
            self.res.ops[op["op"]] += 1
            getattr(self, "do_" + op["op"])(n, op)
            for k in (0, 1):
                self.compare(k, f"step {n} ({op['op']} on problem {op['o']})")
            for given, frozen in self.dicts:
                if freeze(given) != frozen:
                    raise Violation("dataset-changed", f"step {n}: a dataset given to load() was changed")
        self.res.nontrivial = self.loaded > 0

    def path(self, i):
        s = self.plan["files"][i]
        return f"disk/{s['dir']}set{i}" + ("." + s["ext"] if s["ext"] else "")

    def blob(self, i):
        s = self.plan["files"][i]
        b = pickle.dumps(dataset(s, self.extra[i]), protocol=s["proto"])
        return b"CDF\x02" + b if s["ext"] == "nc" else b

    def store(self, i, blob=None):
        p = self.path(i)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.isdir(p):
            os.rmdir(p)
        with open(p, "wb") as fp:
            fp.write(self.blob(i) if blob is None else blob)

    def compare(self, k, when):
        for a in ATTRS:
            got, want = getattr(self.objs[k], a), self.model[k][a]
            if want is None:
                same = got is None
            elif got is None:
                same = False
            elif isinstance(want, str):
                same = str(got) == want
            else:
                a1, b1 = np.asarray(got, float), np.asarray(want, float)
                same = (a1.shape == b1.shape if a in ("domain", "lam", "data", "sensors")
                        else a1.size == b1.size) and np.array_equal(a1.ravel(), b1.ravel())
            if not same:
                raise Violation("wrong-attribute", f"after {when}: {a} of problem {k} is "
                                f"{short(got)}, expected {short(want)}")

    # ---------------------------------------------------------------- steps

    def do_rewrite(self, n, op):
        """The dataset is stored again, with other values of the same shape."""
        self.extra[op["f"]] += 1
        self.store(op["f"])
        self.res.event(n, "rewrite", op["f"])

    def do_set(self, n, op):
        T, m, r = self.objs[op["o"]], self.model[op["o"]], rs(op["seed"])
        T.std_dev = m["std_dev"] = float(r.randint(1, 9)) / 8
        if m["measurements"] is not None and m["sensors"] is not None and consistent(m):
            v = r.normal(size=len(m["measurements"]))
            T.measurements = v.copy()
            m["measurements"] = v
        self.res.event(n, "set", op["o"])

    def do_use(self, n, op):
        T, m = self.objs[op["o"]], self.model[op["o"]]
        if any(m[a] is None for a in ("domain", "lam", "data", "measurements", "std_dev")):
            return
        if not consistent(m) or len(m["lam"]) < 2:
            return
        lam, _, _, d, z = T.sample_data()
        if not (np.array_equal(lam, m["lam"]) and np.array_equal(d, m["data"])
                and np.array_equal(np.ravel(z), m["measurements"])):
            raise Violation("wrong-use", f"step {n}: the samples of problem {op['o']} are not those loaded")
        best = np.argmin(((m["data"] - m["measurements"]) ** 2).sum(axis=1))
        gap = np.sort(((m["data"] - m["measurements"]) ** 2).sum(axis=1))
        got = T.get_closest_to_measurements()
        if gap[1] - gap[0] > 1e-9 and not np.array_equal(np.ravel(got), m["lam"][best]):
            raise Violation("wrong-use", f"step {n}: closest sample {short(got)}, the loaded data "
                            f"give {short(m['lam'][best])}")
        y = np.asarray(T.mud_problem(method="wme").y, float).ravel()
        want = ((m["measurements"] - m["data"]) / m["std_dev"]).sum(axis=1) / np.sqrt(m["data"].shape[1])
        if not np.allclose(y, want, rtol=1e-5, atol=1e-5):
            raise Violation("wrong-use", f"step {n}: the inverse problem does not use the loaded data")
        self.res.event(n, "use", op["o"])

    def do_load(self, n, op):
        i, spec, k = op["f"], self.plan["files"][op["f"]], op["o"]
        self.store(i)
        path = self.path(i)
        fault = op.get("fault")
        blob = self.blob(i)
        arm, fires = {}, False
        name = path
        if fault:
            kind = fault["kind"]
            if kind == "missing":
                name = path + ".missing"
            elif kind == "directory":
                os.remove(path)
                os.mkdir(path)
            elif kind in ("truncate", "zerotail"):
                cut = min(len(blob) - 1, int(fault["frac"] * len(blob)))
                blob = blob[:cut] + (b"" if kind == "truncate" else b"\0" * (len(blob) - cut))
                self.store(i, blob)
                self.res.probes["truncated"] += 1
            elif kind == "garbage":
                blob = rs(op["seed"]).bytes(200).replace(b".", b"\xff")
                blob = b"\xff\xfe" + blob
                self.store(i, blob)
            elif kind == "empty":
                blob = b""
                self.store(i, blob)
            elif kind == "foreign":
                blob = pickle.dumps({"list": [1, 2, 3], "none": None, "string": "lam"}[fault["what"]])
                blob = b"CDF\x02" + blob if spec["ext"] == "nc" else blob
                self.store(i, blob)
            elif kind == "open":
                arm = {"fault": {"op": "open", "at": 0, "error": fault["error"]}}
            elif kind == "read":
                arm = {"fault": {"op": "read", "at": fault["at"], "error": fault["error"],
                                 "sticky": True}}
                self.res.probes["read error"] += 1
            elif kind == "short":
                arm = {"short": fault["n"]}
                self.res.probes["short reads"] += 1
            if kind == "missing":
                self.res.probes["missing"] += 1
        given = os.path.abspath(name) if op["abs"] else name
        import mud.base as mb

        netcdf = spec["ext"] == "nc" and "file" in op["via"]
        xr = not netcdf or op["xr"] or not hasattr(mb, "xr_avail")
        ds, known = self.contents(blob, netcdf and xr)
        if fault and fault["kind"] in ("missing", "directory"):
            ds = None
        if "dict" in op["via"]:
            given = ds = dataset(spec, self.extra[i])
            if op["via"] == "ctor dict" and not ds:
                return
            self.dicts.append((given, freeze(given)))
        kw = self.mapping(op, spec, ds if isinstance(ds, dict) else {})
        fresh = op["via"].startswith("ctor")
        before = dict.fromkeys(ATTRS) if fresh else self.model[k]
        verdict, want = self.expected(ds, kw, op, before)
        note_before = getattr(self.objs[k], "note", "unset")
        ctx = patched(mb, "xr_avail", False) if not xr else contextlib.nullcontext()
        self.disk.arm(**arm)
        err = out = obj = None
        with self.disk.mounted(), ctx:
            try:
                if fresh:
                    obj = self.cls(given)
                else:
                    out = self.objs[k].load(given, **kw)
            except Exception as e:
                err = e
                where = e.__traceback__
            leaks = self.disk.leaks()
        fires = self.disk.fired > 0
        self.disk.disarm()
        if leaks:
            raise Violation("leaked-file", f"step {n}: {leaks[0]} was left open by load()")
        if fault:
            self.res.faults[fault["kind"]] += 1
        what = f"step {n}: loading ({op['via']}, {fault or 'no fault'}, {sorted(op['map'])})"
        if fires:
            if err is None:
                raise Violation("silent-failure", f"{what} reported no error")
            verdict = "refuse"
        if err is None and verdict == "refuse":
            raise Violation("silent-failure", f"{what} reported no error for an unreadable or "
                            "inconsistent dataset")
        if err is not None and verdict == "accept":
            raise Violation("refused", f"{what} failed: {type(err).__name__}: {err}")
        if err is not None:
            if fault and fault["kind"] == "missing" and not isinstance(err, FileNotFoundError):
                raise Violation("silent-failure", f"{what} of a missing file raised "
                                f"{type(err).__name__}: {err}")
            del where
            if getattr(self.objs[k], "note", "unset") is not note_before and \
                    getattr(self.objs[k], "note", "unset") != note_before:
                raise Violation("wrong-attribute", f"{what} failed but set an extra attribute")
            self.faulted.add(i)
            self.res.probes["inconsistent dataset"] += verdict == "refuse" and not fault
            self.res.event(n, "load", k, op["via"], "failed", type(err).__name__)
            return
        if i in self.faulted and not fault:
            self.res.probes["reload after fault"] += 1
        self.loaded += 1
        self.res.probes["netcdf"] += netcdf and xr
        self.res.probes["constructor"] += fresh
        if fresh:
            self.objs[k] = obj
        else:
            self.check_returned(what, out, given, ds)
            if "note" in kw and getattr(self.objs[k], "note", None) != ds["label"]:
                raise Violation("wrong-attribute", f"{what} did not set the extra field asked for")
            self.res.probes["renamed"] += "renamed" in op["map"].values()
            self.res.probes["renamed to another field"] += "cross" in op["map"].values()
            self.res.probes["overridden"] += "value" in op["map"].values()
            self.res.probes["suppressed"] += "none" in op["map"].values()
        self.model[k] = want
        self.res.event(n, "load", k, op["via"], sorted(op["map"]), fault["kind"] if fault else "-")

    def contents(self, blob, netcdf):
        """What the bytes of a file mean: (dataset or None, readable)."""
        if netcdf:
            if blob[:4] != b"CDF\x02":
                return None, False
            blob = blob[4:]
        try:
            return pickle.loads(blob), True
        except Exception:
            return None, False

    def mapping(self, op, spec, ds):
        kw, r = {}, rs(op["seed"])
        for f, how in op["map"].items():
            if how == "renamed":
                kw[f] = spec["rename"].get(f, f)
            elif how == "none":
                kw[f] = None
            elif how == "cross":
                other = {"measurements": "true_vals", "true_vals": "measurements"}.get(f, f)
                kw[f] = spec["rename"].get(other, other) if r.rand() < 0.5 else other
            elif how == "extra":
                kw["note"] = "label"
            else:
                v = replacement(f, spec, r)
                if v is not None:
                    kw[f] = v
        return kw

    def expected(self, ds, kw, op, before):
        """("accept" | "refuse" | "either", attributes if accepted)"""
        if not isinstance(ds, dict):
            return "refuse", None
        todo, soft = {}, False
        for f in FIELDS:
            v = kw.get(f, f) if f in kw else f
            if v is None:
                continue
            if isinstance(v, str):
                if v in ds:
                    todo[f] = ds[v]
                elif v != f:
                    soft = True
            else:
                todo[f] = v
        try:
            want = apply(before, todo)
        except Refused as e:
            # without the values there before, would it be accepted?
            if e.hard:
                return "refuse", None
            if self.size_alone(before, todo):
                return "refuse", None
            return "either", self.best(before, todo)
        soft = soft or not consistent(want)
        return ("either" if soft else "accept"), want

    def size_alone(self, before, todo):
        """Refused whatever the order of assignment: contradicts itself."""
        try:
            apply(dict.fromkeys(ATTRS), todo)
        except Refused:
            keep = {a for a in todo}
            return keep >= {"domain", "lam", "sensors", "times", "data"}
        return False

    def best(self, before, todo):
        base = dict(before)
        for a in todo:
            base[a] = None
        try:
            return apply(base, todo)
        except Refused:
            return None

    def check_returned(self, what, out, given, ds):
        if out is None or not hasattr(out, "keys"):
            raise Violation("wrong-return", f"{what} returned {type(out).__name__}, not the dataset")
        if isinstance(given, dict):
            if freeze({k: out[k] for k in out.keys()}) != freeze(ds):
                raise Violation("wrong-return", f"{what} returned another dataset")
        elif freeze({k: out[k] for k in out.keys()}) != freeze(ds):
            raise Violation("wrong-return", f"{what} did not return the stored dataset")


def execute(plan, res):
    reset_globals()
    import shutil

    shutil.rmtree("disk", ignore_errors=True)
    Sim(plan, res).run()


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        rest = lambda new: {**plan, "ops": plan["ops"][:i] + [new] + plan["ops"][i + 1:]}
        if op.get("fault"):
            yield rest({a: b for a, b in op.items() if a != "fault"})
        for f in op.get("map", {}):
            yield rest({**op, "map": {a: b for a, b in op["map"].items() if a != f}})
    for j, s in enumerate(plan["files"]):
        rest = lambda new: {**plan, "files": plan["files"][:j] + [new] + plan["files"][j + 1:]}
        for k, v in (("n", 3), ("p", 1), ("s", 1), ("t", 1), ("form", "array"), ("drop", []),
                     ("rename", {}), ("decoy", False), ("bad", None), ("dir", ""), ("ext", "")):
            if s.get(k) != v:
                yield rest({**s, k: v})
