"""C16 synthetic measurements carry exactly the requested noise, used consistently."""
import os
import pickle

import numpy as np

from .. import density
from ..common import close, pick, reset_globals, rs
from ..core import HarnessError, Violation
from ..draws import KINDS, Draws

RUNS = {"quick": 6000, "thorough": 80000}
CHUNK = 60
RULE = (
    "One run: 3-16 seeded calls that generate synthetic measurements or build inverse problems "
    "from them (noise on signals of any shape, spatio-temporal problems with repeated "
    "generation, the MUD and MAP wrappers with subsets and splits, linear weighted-mean-error "
    "maps and problems, example generators, dataset loaders), every normal draw delivered by the "
    "simulator (standard normal, zero, constant, one-hot, extreme, tiny or alternating), some "
    "draws failing. Each result is recomputed from the delivered draws. Non-trivial: at least "
    "one result was checked against them."
)
STEP = "one call"
MEASURE = "distinct event logs (calls, shapes, draw kinds and outcomes)"
REAL = ["mud.util, mud.funs, mud.base", "mud.examples.linear/simple/exp_decay/poisson/adcirc loaders"]
STUB = ["numpy's and scipy's normal generators, delivered by the simulator"]
ASSUMPTIONS = [
    "draws not taken through numpy's or scipy.stats.norm's interfaces are only checked for scale",
    "polynomial_1D_data returns the mean itself for one observation, as documented",
]
PROBES = ["2-D signal", "vector of deviations", "split", "subset of observations", "failed draw",
          "repeated generation", "masked problem", "repeated operator", "distinct operators",
          "log likelihood", "explicit reference"]


def generate(rng, i, tier):
    ops = []
    for _ in range(rng.choice([3, 6, 10] if tier == "quick" else [4, 8, 16])):
        op = {"op": pick(rng, {"add_noise": 3, "measure": 5, "problem": 4, "mud": 4, "map": 3, "wme": 2,
                               "transform": 3, "linear": 3, "noisy_linear": 1, "random_wme": 1,
                               "polynomial": 0.5, "exp_decay": 0.5, "loader": 0.7, "data_prob": 1}),
              "seed": rng.randrange(2**31), "kind": pick(rng, dict(zip(KINDS, (5, 1, 1, 2, 1, 1, 1)))),
              "sd": rng.choice([0.05, 0.05, 0.1, 0.3, 1.0, 2.5, 0.001])}
        if rng.random() < 0.12:
            op["fail"] = rng.choice([0, 0, 1])
        if op["op"] in ("add_noise", "measure") and rng.random() < 0.4:
            op["rseed"] = rng.choice([0, 1, 21, 2**31])
        ops.append(op)
    return {"ops": ops, "seed": rng.randrange(2**31)}


def size(r, small):
    """Up to `small`; now and then far beyond, where block-wise or truncating code would show."""
    return 1 + r.randint(small) if r.randint(14) else [33, 65, 100, 129, 300, 700][r.randint(6)]


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res
        self.st = None

    def run(self):
        self.checked = 0
        for n, op in enumerate(self.plan["ops"]):
            self.res.steps += 1
            self.res.ops[op["op"]] += 1
            self.n, self.op = n, op
            getattr(self, "do_" + op["op"])(op, rs(op["seed"]))
        self.res.nontrivial = self.checked > 0

    # ------------------------------------------------------------- delivery

    def call(self, fn):
        """fn() with the generator under the simulator: (result, draws)."""
        op = self.op
        d = Draws(op["kind"], op["seed"] ^ 0x5EED)
        d.fail_at = op.get("fail")
        err = out = None
        with d.mounted():
            try:
                out = fn()
            except MemoryError as e:
                if not d.failed:
                    raise
                err = e
        self.res.faults["delivered " + op["kind"]] += 1
        if d.failed:
            self.res.faults["failed draw"] += 1
            self.res.probes["failed draw"] += 1
            if err is None:
                raise Violation("draw-failure-hidden", f"step {self.n}: {op['op']} succeeded although "
                                "drawing its noise failed")
            self.res.event(self.n, op["op"], "failed draw")
            return None, None
        self.checked += 1
        return out, np.array(d.got)

    def bad(self, msg):
        raise Violation("wrong-noise", f"step {self.n}: {self.op['op']}: {msg}")

    def noise_is(self, what, resid, draws):
        """resid (one number per measurement) are distinct delivered draws."""
        resid = np.ravel(np.asarray(resid, float))
        if not np.all(np.isfinite(resid)):
            self.bad(f"{what} is not finite")
        if len(draws) >= resid.size:
            a, b = np.sort(resid), np.sort(draws)
            j = 0
            for x in a:
                while j < len(b) and b[j] < x - 1e-6 - 1e-6 * abs(x):
                    j += 1
                if j >= len(b) or abs(b[j] - x) > 1e-6 + 1e-6 * abs(x):
                    self.bad(f"{what} is {resid[:6].tolist()} for the draws {draws[:6].tolist()}")
                j += 1
            return
        if len(draws):
            self.bad(f"{resid.size} measurements were made from {len(draws)} draws")
        # drawn through something the simulator does not deliver
        if np.any(np.abs(resid) > 7) or (resid.size > 2 and np.ptp(resid) < 1e-6):
            self.bad(f"{what} is {resid[:6].tolist()}, not standard normal")
        if resid.size >= 30 and not 0.4 < np.std(resid) < 2:
            self.bad(f"{what} has standard deviation {np.std(resid)}")

    def sum_is(self, what, total, draws, idx, count):
        """total is the sum of the draws of the measurements in idx."""
        if len(draws) == 0:
            if abs(total) > 7 * np.sqrt(len(idx)):
                self.bad(f"{what} has noise {total} over {len(idx)} measurements")
            return
        if len(draws) < count:
            self.bad(f"{count} measurements were made from {len(draws)} draws")
        tol = 1e-6 * (1 + np.abs(draws).sum())
        if len(draws) == count:
            cand = [draws]
        else:
            cand = [draws[k:k + count] for k in range(len(draws) - count + 1)]
        if not any(abs(z[idx].sum() - total) < tol for z in cand):
            self.bad(f"{what} carries noise {total}, the draws of its {len(idx)} measurements sum "
                     f"to {draws[:count][idx].sum()}")

    # ---------------------------------------------------------------- noise

    def do_add_noise(self, op, r):
        from mud.util import add_noise

        form = r.randint(6)
        k = size(r, 12)
        shape = [(k,), (k,), (k, 1), (1, k), (3, k), (2, k, 2)][form]
        sig = r.normal(size=shape) * 3
        sd = op["sd"]
        if r.randint(5) == 0:
            sig = np.round(sig).astype(int)
        if r.randint(4) == 0 and form < 2:
            sd = np.round(r.uniform(0.1, 2, k), 3)
            self.res.probes["vector of deviations"] += 1
        elif r.randint(8) == 0:
            sd = 0
        given = sig.tolist() if r.randint(3) == 0 else sig
        self.res.probes["2-D signal"] += len(shape) > 1
        kw = {"seed": op["rseed"]} if "rseed" in op else {}
        out, z = self.call(lambda: add_noise(given, sd, **kw))
        if z is None:
            return
        out = np.asarray(out)
        if out.shape != shape:
            self.bad(f"noisy signal of shape {out.shape} for a signal of shape {shape}")
        if np.isscalar(sd) and sd == 0:
            if not close(out, sig, 0, 1e-12):
                self.bad("noise of standard deviation 0 changed the signal")
        else:
            self.noise_is("the noise over its standard deviation", (out - sig) / sd, z)
        if np.isscalar(sd) and r.randint(3) == 0:
            out, z = self.call(lambda: add_noise(given))
            if z is not None:
                self.noise_is("the noise over its default deviation", (np.asarray(out) - sig) / 0.05, z)
        self.res.event(self.n, "add_noise", shape, np.ndim(sd), op["kind"])

    # ------------------------------------------------------ spatio-temporal

    def setup(self, r):
        from mud.base import SpatioTemporalProblem

        n, p, s, t = 8 + r.randint(8), 1 + r.randint(2), 1 + r.randint(4), min(size(r, 4), 200)
        T = SpatioTemporalProblem()
        T.domain = np.array([[-1.0, 1.0]] * p)
        lam = r.uniform(-1, 1, (n, p))
        T.lam = lam
        T.sensors, T.times = r.uniform(size=(s, 2)), np.arange(float(t))
        B = r.normal(size=(p, s * t))
        data = lam @ B
        T.data = data.copy()
        st = {"T": T, "lam": lam, "data": data, "s": s, "t": t, "true": None, "std": None, "z": None}
        if r.randint(3):
            st["true"] = data[0].copy()  # the first sample is the truth
            T.true_vals = data[0].copy()
        if r.randint(3):
            st["std"] = 0.2
            T.std_dev = 0.2
        self.st, self.generated = st, 0

    def do_measure(self, op, r):
        if self.st is None or r.randint(5) == 0:
            self.setup(r)
        st, kw = self.st, {}
        T, k = st["T"], st["s"] * st["t"]
        ref, std = st["true"], st["std"]
        if ref is None or r.randint(3) == 0:
            ref = kw["ref"] = [st["data"][r.randint(len(st["data"]))], r.normal(size=k)][r.randint(2)].copy()
            self.res.probes["explicit reference"] += 1
            if r.randint(2):
                kw["ref"] = [ref.reshape(-1, 1), ref.tolist()][r.randint(2)]
        if std is None or r.randint(2):
            std = kw["std_dev"] = op["sd"]
            if r.randint(6) == 0:
                std = kw["std_dev"] = np.round(r.uniform(0.1, 2, k), 3)
                self.res.probes["vector of deviations"] += 1
        if "rseed" in op:
            kw["seed"] = op["rseed"]
        _, z = self.call(lambda: T.measurements_from_reference(**kw))
        if z is not None:
            st["true"], st["std"] = np.array(ref), std
            m = np.ravel(T.measurements)
            self.noise_is("the noise of the measurements", (m - ref) / std, z)
            st["meas"] = m.copy()
            st["z"] = (m - ref) / std
            self.generated += 1
            self.res.probes["repeated generation"] += self.generated > 1
        for a, v in (("true_vals", st["true"]), ("std_dev", st["std"]), ("measurements", st.get("meas"))):
            got = getattr(T, a)
            if v is None:
                if got is not None:
                    self.bad(f"{a} is {got} after a failed generation")
            elif not close(np.ravel(got), np.ravel(v), 1e-12, 1e-14):
                self.bad(f"{a} is {np.ravel(got)[:5]} after generation, expected {np.ravel(v)[:5]}")
        self.res.event(self.n, "measure", sorted(kw), op["kind"])

    def do_problem(self, op, r):
        st = self.st
        if st is None or st["z"] is None:
            return
        s, t, n = st["s"], st["t"], len(st["lam"])
        kw, xi, ti, si = {}, np.arange(s), np.arange(t), np.arange(n)
        if np.ndim(st["std"]) == 0:
            if r.randint(2):
                xi = r.permutation(s)[:1 + r.randint(s)]
                kw["sensors_mask"] = xi.tolist()
            if r.randint(2):
                ti = r.permutation(t)[:1 + r.randint(t)]
                kw["times_mask"] = ti.tolist()
            self.res.probes["masked problem"] += bool(kw)
        D = st["T"].mud_problem(method="wme", **kw)
        z = st["z"].reshape(s, t)[np.ix_(xi, ti)].ravel()
        sel = lambda a: a.reshape(-1, s, t)[np.ix_(np.arange(len(a)), xi, ti)].reshape(len(a), -1)
        mean = (sel(st["true"].reshape(1, -1)) - sel(st["data"])) / st["std"]
        want = (mean + z).sum(axis=1) / np.sqrt(len(z))
        if not close(np.ravel(D.y), want, 1e-6, 1e-7):
            self.bad(f"the weighted mean errors are {np.ravel(D.y)[:4]}, the measurements give {want[:4]}")
        self.density(D, st["lam"], st["T"].domain)
        self.res.event(self.n, "problem", sorted(kw))

    def density(self, D, lam, domain, weights=None, initial=None):
        """the problem answers for these residuals against a standard normal"""
        y = np.asarray(D.y, float)
        if y.ndim != 2 or len(lam) < y.shape[1] + 4:
            return
        if not close(D.X, lam, 1e-12, 1e-14):
            self.bad("the samples of the problem are not those given")
        m = density.Model(lam, y, np.asarray(domain, float))
        m.table = {"w": m.weights(weights, False), "i": initial}
        st = ("w", "i", density.UNSET, density.UNSET)
        try:
            v = m.values(st)
        except (np.linalg.LinAlgError, ValueError):
            return
        if not v["ok"] or not np.max(v["up"]) > 1e-200:
            return
        er, pt = D.expected_ratio(), D.mud_point()
        if not m.er_ok(st, er) or not m.mud_ok(st, pt):
            self.bad(f"expected ratio {er} and MUD point {np.ravel(pt)} do not belong to standard "
                     f"normal residuals (expected {v['er']}, {m.X[int(np.argmax(v['up']))]})")

    def do_data_prob(self, op, r):
        from mud.funs import data_prob

        from scipy.stats import norm

        n, k, sd = 12, 1 + r.randint(6), op["sd"]
        lam = r.uniform(0, 1, (n, 1))
        qoi = lam @ r.uniform(1, 2, (1, k))
        meas = qoi[r.randint(n)] + sd * r.normal(size=k)
        kw, init = {}, None
        if r.randint(2):
            init = norm(r.uniform(0, 1), r.uniform(0.1, 0.5))
            kw["init_dist"] = init
        try:
            D = data_prob(lam, qoi, measurements=meas, std_dev=sd, domain=[[0.0, 1.0]], **kw)
        except np.linalg.LinAlgError:
            return
        want = ((meas - qoi) / sd).sum(axis=1) / np.sqrt(k)
        if not close(np.ravel(D.y), want, 1e-6, 1e-7):
            self.bad("the wrapper's weighted mean errors are not those of its measurements")
        self.density(D, lam, [[0.0, 1.0]], initial=init)
        self.res.event(self.n, "data_prob", k)

    # ------------------------------------------------------------- wrappers

    def observations(self, op, r):
        n, p, k = 10 + r.randint(10), 1 + r.randint(2), size(r, 8)
        lam = r.uniform(-1, 1, (n, p))
        qoi = np.tanh(lam @ r.normal(size=(p, k))) + 0.1 * lam[:, :1]
        true = qoi[r.randint(n)].copy() if r.randint(2) else r.normal(size=k)
        num = [None, 1 + r.randint(k)][r.randint(2)]
        self.res.probes["subset of observations"] += num is not None and num < k
        return n, p, k, lam, qoi, true, num

    def do_mud(self, op, r):
        from mud.funs import mud_problem

        n, p, k, lam, qoi, true, num = self.observations(op, r)
        sd, m = op["sd"], num or k
        if r.randint(5) == 0:  # measured in a unit of another size
            unit = [1e-6, 1e-4, 1e3][r.randint(3)]
            qoi, true, sd = qoi * unit, true * unit, sd * unit
        kw = {} if num is None else {"num_obs": num}
        dom = np.array([[-1.0, 1.0]] * p)
        split, weights = None, None
        if r.randint(2) and k > 1:
            cut = 1 + r.randint(k - 1)
            order = r.permutation(k) if r.randint(2) else np.arange(k)
            split = [order[:cut], order[cut:]]
            if r.randint(4) == 0:
                split[1] = order[max(0, cut - 1):]  # a shared measurement
            if any((s < m).sum() == 0 for s in split):
                split = None
        if split:
            kw["split"] = split
            self.res.probes["split"] += 1
        if r.randint(3) == 0:
            weights = r.uniform(0.2, 2, n)
            kw["weights"] = weights.copy()
        gl = lam.ravel() if p == 1 and r.randint(2) else lam.copy()
        gq = qoi.ravel() if k == 1 and r.randint(2) else qoi.copy()
        gt = true.tolist() if r.randint(3) == 0 else true.copy()
        D, z = self.call(lambda: mud_problem(gl, gq, gt, dom, sd, **kw) if r.randint(2) else
                         mud_problem(gl, gq, gt, domain=dom, sd=sd, **kw))
        if z is None:
            return
        y = np.asarray(D.y, float)
        parts = [np.arange(m)] if split is None else [s[s < m] for s in split]
        if y.shape != (n, len(parts)):
            self.bad(f"observables of shape {y.shape}, expected {(n, len(parts))}")
        for c, idx in enumerate(parts):
            shift = ((qoi[:, idx] - true[idx]) / sd).sum(axis=1) / np.sqrt(len(idx)) - y[:, c]
            if np.ptp(shift) > 1e-6 * (1 + np.abs(y[:, c]).max()):
                self.bad(f"residuals of samples differ by more than the model does (split {c})")
            self.sum_is(f"residual {c}", shift.mean() * np.sqrt(len(idx)), z, idx, m)
        self.density(D, lam, dom, weights)
        for wrong in (0, k + 1, -1):
            try:
                mud_problem(lam, qoi, true, dom, sd, num_obs=wrong)
            except ValueError:
                continue
            self.bad(f"{wrong} of {k} observations were accepted")
        self.res.event(self.n, "mud", k, num, split is not None, op["kind"])

    def do_map(self, op, r):
        from scipy.stats import norm

        from mud.funs import map_problem

        n, p, k, lam, qoi, true, num = self.observations(op, r)
        sd, m, log = op["sd"], num or k, bool(r.randint(2))
        wide = max(0.08, 0.7 * sd / np.sqrt(m))
        if r.randint(5) == 0:  # measured in a unit of another size
            unit = [1e-6, 1e-4, 1e3][r.randint(3)]
            qoi, true, sd = qoi * unit, true * unit, sd * unit
        kw = {} if num is None else {"num_obs": num}
        if log:
            kw["log"] = True
            self.res.probes["log likelihood"] += 1
        dom = np.array([[-1.0, 1.0]] * p)
        gl = lam.ravel() if p == 1 and r.randint(2) else lam.copy()
        gq = qoi.ravel() if k == 1 and r.randint(2) else qoi.copy()
        B, z = self.call(lambda: map_problem(gl, gq, true.copy(), dom, sd, **kw))
        if z is None:
            return
        if not (close(B.y, qoi[:, :m], 1e-12, 1e-14) and close(B.X, lam, 1e-12, 1e-14)):
            self.bad("the Bayesian problem does not hold the observations asked for")
        if len(z) == 0:
            return
        if len(z) < m:
            self.bad(f"{m} measurements were made from {len(z)} draws")
        ok = []
        for s in range(len(z) - m + 1):
            ll = -0.5 * (((true[:m] + sd * z[s:s + m] - qoi[:, :m]) / sd) ** 2).sum(axis=1)
            if not log and abs(ll.max() - m * np.log(sd * np.sqrt(2 * np.pi))) > 600:
                return  # a product that no float holds, which is what `log` is for
            ok.append(ll)
        pt = np.ravel(B.map_point())
        i = np.nonzero(np.all(lam == pt, axis=1))[0]
        if not any(len(i) and ll[i[0]] >= ll.max() - 1e-6 * (1 + abs(ll.max())) for ll in ok):
            self.bad(f"MAP point {pt} is not the most likely sample for the measurements drawn")
        # against an informative prior the deviation of the likelihood matters
        loc, scale = r.uniform(-1, 1), wide
        B.set_prior(norm(loc=loc, scale=scale))
        lp = norm(loc=loc, scale=scale).logpdf(lam).sum(axis=1)
        if lp.min() > -690 and (log or all(ll[np.argmax(lp + ll)] - m * np.log(sd * np.sqrt(2 * np.pi)) + lp.min()
                                           > -600 for ll in ok)):
            pt = np.ravel(B.map_point())
            i = np.nonzero(np.all(lam == pt, axis=1))[0]
            if not any(len(i) and (ll + lp)[i[0]] >= (ll + lp).max() - 1e-6 * (1 + abs((ll + lp).max()))
                       for ll in ok):
                self.bad(f"MAP point {pt} under an informative prior is not the most likely sample: the "
                         "likelihood does not have the requested deviation")
        for wrong in (0, k + 1):
            try:
                map_problem(lam, qoi, true, dom, sd, num_obs=wrong)
            except ValueError:
                continue
            self.bad(f"{wrong} of {k} observations were accepted")
        self.res.event(self.n, "map", k, num, log, op["kind"])

    def do_wme(self, op, r):
        from mud.funs import wme

        n, k = size(r, 6), size(r, 7)
        sd = [op["sd"], None][r.randint(2)]
        pred, data = r.normal(size=(n, k)), r.normal(size=k)
        if sd is None and k == 1:
            sd = op["sd"]
        gp = pred[0] if n == 1 and r.randint(2) else pred
        gd = data.tolist() if r.randint(2) else data
        out = wme(gp, gd, sd) if sd is not None else wme(gp, gd)
        s = sd if sd is not None else np.std(data)
        want = (pred - data).sum(axis=1) / (s * np.sqrt(k))
        if not close(np.ravel(out), want, 1e-9, 1e-10):
            self.bad(f"{np.ravel(out)[:4]} instead of {want[:4]}")
        try:
            wme(pred, np.ones(k + 1), 1.0)
        except ValueError:
            pass
        else:
            self.bad("predictions and data of different sizes were accepted")
        self.checked += 1
        self.res.event(self.n, "wme", n, k, sd is None)

    # ------------------------------------------------------------ linear maps

    def linear_data(self, op, r):
        """operators, noisy data, deviations, truth and the draws used."""
        p, q = 1 + r.randint(3), 1 + r.randint(3)
        x = r.normal(size=p)
        ops, data, std, zs = [], [], [], []
        whole = r.randint(3) == 0
        s0 = op["sd"]
        for j in range(q):
            n, rep = size(r, 6), bool(r.randint(2))
            M = r.normal(size=(1 if rep else n, p))
            if M.shape[0] == 1:
                rep = True
            s = s0 if whole else float(np.round(r.uniform(0.05, 2), 3))
            sv = np.full(n, s)
            given = s
            if not rep and not whole and r.randint(2):
                sv = np.round(r.uniform(0.05, 2, n), 3)
                given = [sv.copy(), sv.tolist(), tuple(sv.tolist())][r.randint(3)]
                self.res.probes["vector of deviations"] += 1
            self.res.probes["repeated operator" if rep else "distinct operators"] += 1
            z = {"zeros": np.zeros(n), "ones": np.ones(n)}.get(op["kind"], r.normal(size=n))
            d = (M @ x) * np.ones(n) + sv * z
            data.append([d, d.reshape(-1, 1), d.tolist()][r.randint(3)])
            ops.append(M)
            std.append(given)
            zs.append(z)
        return ops, data, (s0 if whole else std), x, zs, q

    def do_transform(self, op, r):
        from mud.util import transform_linear_map, transform_linear_setup

        ops, data, std, x, zs, q = self.linear_data(op, r)
        A, b = transform_linear_setup(ops, data, std)
        want = [-z.sum() / np.sqrt(len(z)) for z in zs]
        got = np.ravel(np.asarray(A) @ x) + np.ravel(b)
        if not close(got, want, 1e-6, 1e-7):
            self.bad(f"residuals {got} at the truth, the noise gives {want}")
        j = r.randint(q)
        s = std if np.isscalar(std) else std[j]
        A1, b1 = transform_linear_map(ops[j], data[j], s)
        if not close(np.ravel(A1), np.ravel(A[j]), 1e-12, 1e-14) or not close(np.ravel(b1), np.ravel(b[j]), 1e-12, 1e-14):
            self.bad("the single map differs from the one of the setup")
        if not close(np.ravel(A1 @ x) + np.ravel(b1), [want[j]], 1e-6, 1e-7):
            self.bad("wrong residual of the single map")
        self.checked += 1
        self.res.event(self.n, "transform", [np.shape(o) for o in ops], op["kind"])


    def do_linear(self, op, r):
        from mud.base import LinearWMEProblem

        ops, data, std, x, zs, q = self.linear_data(op, r)
        P = LinearWMEProblem(ops, data, std)
        want = np.array([-z.sum() / np.sqrt(len(z)) for z in zs])
        got = np.ravel(P.A @ x) + np.ravel(P.b)
        if not close(got, want, 1e-6, 1e-7):
            self.bad(f"residuals {got} at the truth, the noise gives {want}")
        # unit-variance residual: moving the truth moves the map as the mean model does
        for j, (M, z) in enumerate(zip(ops, zs)):
            s = std if np.isscalar(std) else std[j]
            n = len(z)
            rows = np.broadcast_to(M, (n, M.shape[1]))
            row = (rows / (np.ones(n) * s)[:, None]).sum(axis=0) / np.sqrt(n)
            if not close(P.A[j], row, 1e-8, 1e-10):
                self.bad(f"row {j} of the map is {P.A[j]}, its operators and deviations give {row}")
        if not close(np.ravel(P.y), np.zeros(q), 0, 1e-12):
            self.bad("residuals are not compared with zero")
        if q <= len(x) and np.linalg.matrix_rank(P.A) == q and np.linalg.cond(P.A) < 1e5:
            mud = P.solve()
            if not close(np.ravel(P.A @ mud + P.b), np.zeros(q), 0, 1e-5 * (1 + np.abs(P.b).max())):
                self.bad("the MUD point does not reproduce the measurements")
        self.checked += 1
        self.res.event(self.n, "linear", [np.shape(o) for o in ops], op["kind"])

    # ------------------------------------------------------ example generators

    def do_noisy_linear(self, op, r):
        from mud.examples.linear import noisy_linear_data

        p, n, rep = 1 + r.randint(3), size(r, 6), r.randint(2)
        M, x = r.normal(size=(1 if rep else n, p)), r.normal(size=p)
        s = op["sd"] if r.randint(2) else np.round(r.uniform(0.1, 2, n), 3)
        out, z = self.call(lambda: noisy_linear_data(M, x.reshape(-1, 1) if r.randint(2) else x, s, n))
        if z is None:
            return
        clean = (M @ x) * np.ones(n)
        if np.shape(out) != (n,):
            self.bad(f"data of shape {np.shape(out)}, expected {(n,)}")
        self.noise_is("the noise", (out - clean) / s, z)
        self.res.event(self.n, "noisy_linear", rep, np.ndim(s))

    def do_random_wme(self, op, r):
        from mud.examples.linear import random_linear_wme_problem

        p, n = 1 + r.randint(3), size(r, 6)
        x = r.normal(size=p)
        q = 1 + r.randint(3)
        rep = q > 1 or bool(r.randint(2))
        s = [op["sd"]] * q if q > 1 or r.randint(2) else op["sd"]
        dist = ["normal", "uniform"][r.randint(2)]
        out, z = self.call(lambda: random_linear_wme_problem(
            x, s, num_qoi=q, num_observations=n, dist=dist, repeated=rep))
        if z is None:
            return
        ops, data, std = out
        for j in range(q):
            self.noise_is(f"the noise of quantity {j}", (data[j] - ops[j] @ x) / op["sd"], z)
            if len(data[j]) != n:
                self.bad(f"{len(data[j])} measurements instead of {n}")
        self.res.event(self.n, "random_wme", q, rep)

    def do_polynomial(self, op, r):
        from mud.examples.simple import polynomial_1D_data

        n, mu, p = 1 + size(r, 20), 0.5, 1 + r.randint(5)
        out, z = self.call(lambda: polynomial_1D_data(p=p, num_samples=7, mu=mu, sigma=op["sd"], N=n))
        if z is None:
            return
        lam, q, data = out
        if not close(q, lam**p, 1e-9, 1e-12) or np.shape(data) != (n,):
            self.bad("wrong model values")
        if op["sd"] != 1.0 and close(np.sort((data - mu) / op["sd"] ** 2), np.sort(z[:n]), 1e-6, 1e-6) \
                and op["kind"] != "zeros":
            self.res.known.append("polynomial_variance")
        else:
            self.noise_is("the noise", (data - mu) / op["sd"], z)
        one = polynomial_1D_data(p=p, num_samples=7, mu=mu, sigma=op["sd"])[2]
        if not close(one, [mu]):
            self.bad("a single observation is not the mean, as documented")
        self.res.event(self.n, "polynomial", n)

    def do_exp_decay(self, op, r):
        from mud.examples import exp_decay

        if r.randint(3) == 0:
            try:
                exp_decay.exp_decay_2D(num_samples=5)
            except TypeError as e:
                if "l2" not in str(e):
                    raise
                self.res.known.append("exp_decay_2D")
                return
            return
        u0, tr = 0.75, 0.4
        T = exp_decay.exp_decay_1D(u_0=u0, num_samples=9, lambda_true=tr, sampling_freq=2.0,
                                   std_dev=op["sd"])
        t = np.ravel(T.times)
        if not close(T.data, u0 * np.exp(-np.outer(np.ravel(T.lam), t)), 1e-9, 1e-12) or \
                not close(np.ravel(T.true_vals), u0 * np.exp(-tr * t), 1e-9, 1e-12):
            self.bad("wrong model values")
        _, z = self.call(lambda: T.measurements_from_reference())
        if z is not None:
            self.noise_is("the noise", np.ravel(T.measurements - T.true_vals) / op["sd"], z)
        self.res.event(self.n, "exp_decay")

    def do_loader(self, op, r):
        n, s, t = 6, 1 + r.randint(3), 1
        adcirc = bool(r.randint(2))
        if adcirc:
            from mud.examples.adcirc import load_adcirc_prob as load

            s, t = 1, 2 + r.randint(4)
        else:
            from mud.examples.poisson import load_poisson_prob as load
        data = r.normal(size=(n, s * t))
        ds = {"lam": r.uniform(-1, 1, (n, 2)), "data": data, "true_vals": data[:1].T.copy(),
              "domain": np.array([[-1.0, 1.0]] * 2), "sensors": r.uniform(size=(s, 2)),
              "times": np.arange(float(t)), "lam_ref": np.zeros(2)}
        with open("loader.pkl", "wb") as fp:
            pickle.dump(ds, fp)
        out, z = self.call(lambda: load("loader.pkl", std_dev=op["sd"]))
        if z is None:
            return
        T = out[1]
        resid = np.ravel(T.measurements) - data[0]
        if op["sd"] != 0.05 and T.std_dev == 0.05 and op["kind"] != "zeros":
            self.noise_is("the noise", resid / 0.05, z)
            self.res.known.append("example_noise_ignored")
            return
        self.noise_is("the noise", resid / op["sd"], z)
        if T.std_dev != op["sd"] and op["kind"] != "zeros":
            self.bad(f"the problem assumes a deviation of {T.std_dev}, asked for {op['sd']}")
        self.res.event(self.n, "loader", adcirc)


def execute(plan, res):
    reset_globals(plan["seed"])
    Sim(plan, res).run()


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        rest = lambda new: {**plan, "ops": plan["ops"][:i] + [new] + plan["ops"][i + 1:]}
        if "fail" in op:
            yield rest({a: b for a, b in op.items() if a != "fail"})
        if op["kind"] != "ones":
            yield rest({**op, "kind": "ones"})
