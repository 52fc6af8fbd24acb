"""Linear Gaussian helpers shared by C04, C05, C06, C07 and C08: seeded problems and
closed forms computed independently of the code under test."""
import numpy as np

from .common import rs

_solve, _inv, _lstsq, _cond = (np.linalg.solve, np.linalg.inv, np.linalg.lstsq, np.linalg.cond)


def spd(r, n, lo=0.4, hi=2.5):
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    m = q @ np.diag(r.uniform(lo, hi, n)) @ q.T
    return (m + m.T) / 2


def matrix(r, d, p):
    """A d x p matrix of full rank, moderately conditioned."""
    for _ in range(100):
        A = r.uniform(-2, 2, (d, p))
        if _cond(A) < 40:
            return A
    return np.eye(max(d, p))[:d, :p] + 0.1 * A


def gen_scale(rng):
    """Sometimes one of the matrices of a problem is of another order of magnitude."""
    if rng.random() < 0.8:
        return None
    return rng.choice([["cov_i", 1e-4], ["cov_i", 1e2], ["cov_o", 1e-2], ["cov_o", 1e2], ["A", 0.01], ["A", 8.0],
                       ["alpha", 1e-3], ["alpha", 100.0], ["y", 1e3], ["mean_i", 1e3], ["A", "ints"],
                       ["all", "ints"], ["all", "ints"]])


def gen_units(rng, d, p):
    """Sometimes outputs and parameters are measured in units of very different size."""
    if rng.random() < 0.85:
        return {}
    u, v = rng.choice([(1e-5, 1.0), (1e-3, 1.0), (1e3, 1.0), (1.0, 1e-4), (1.0, 1e3)])
    rows = [rng.choice([1.0, u]) for _ in range(d)]
    cols = [rng.choice([1.0, v]) for _ in range(p)]
    return {"rows": rows, "cols": cols}


def in_units(spec, out):
    """The same problem with every output and parameter in a unit of its own."""
    if not spec.get("rows"):
        return out
    u, v = (np.reshape(spec[k], (-1, 1)) for k in ("rows", "cols"))
    return {"A": u * out["A"] / v.T, "b": u * out["b"], "y": u * out["y"], "cov_o": u * out["cov_o"] * u.T,
            "mean_i": v * out["mean_i"], "cov_i": v * out["cov_i"] * v.T, "alpha": out["alpha"]}


def arrays(spec):
    return in_units(spec, scaled(spec))


def scaled(spec):
    out = _arrays(spec)
    f, by = spec.get("scale") or (None, None)
    if by == "ints":
        A = np.round(3 * out["A"])
        if all(_cond(A[:k]) < 100 for k in range(1, len(A) + 1)):
            out["A"] = A.astype(int)
        if f == "all":  # every array of whole numbers, typed as such
            for k, v in out.items():
                if k in ("b", "y", "mean_i"):
                    out[k] = np.round(3 * v).astype(int)
                elif k in ("cov_i", "cov_o"):
                    out[k] = (np.round(3 * v) + 2 * np.eye(len(v))).astype(int)
    elif f:
        out[f] = out[f] * by
    return out


def _arrays(spec):
    r = rs(spec["seed"])
    d, p = spec["d"], spec["p"]
    return {
        "A": matrix(r, d, p),
        "b": r.uniform(-1, 1, (d, 1)),
        "y": r.uniform(-1, 1, (d, 1)),
        "mean_i": r.uniform(-1, 1, (p, 1)),
        "cov_i": spd(r, p),
        "cov_o": spd(r, d, 0.2, 1.5),
        "alpha": float(np.round(r.uniform(0.3, 3.0), 3)),
    }


def defaults(st):
    d, p = st["A"].shape
    out = dict(st)
    if out.get("b") is None:
        out["b"] = np.zeros((d, 1))
    if out.get("y") is None:
        out["y"] = np.zeros((d, 1))
    if out.get("mean_i") is None:
        out["mean_i"] = np.zeros((p, 1))
    if out.get("cov_i") is None:
        out["cov_i"] = np.eye(p)
    if out.get("cov_o") is None:
        out["cov_o"] = np.eye(d)
    if out.get("alpha") is None:
        out["alpha"] = 1.0
    return out


def closed(st, method, od=None):
    """The solution of the problem `st` restricted to its first `od` outputs,
    and the covariance that belongs to it (or None)."""
    st = defaults(st)
    k = st["A"].shape[0] if od is None else od
    A, b, y = st["A"][:k], st["b"][:k], st["y"][:k]
    D, m = st["cov_o"][:k, :k], st["mean_i"]
    C = st["alpha"] * st["cov_i"]
    P = A @ C @ A.T
    z = y - b - A @ m
    if method == "mud":
        return m + C @ A.T @ _solve(P, z), None
    if method == "mud_alt":
        K = _solve(P, A @ C).T
        return m + K @ z, C - K @ (P - D) @ K.T
    if method == "map":
        S = P + D
        return m + C @ A.T @ _solve(S, z), C - C @ A.T @ _solve(S, A @ C)
    if method == "ls":
        return _lstsq(A, y - b, rcond=None)[0], None
    raise KeyError(method)


def rounding(st, method, od):
    """How much worse than usual rounding may be: the inverse matrices that a solution may be
    computed with can be ill-conditioned where the problem itself is not."""
    A, D, C = st["A"][:od], st["cov_o"][:od, :od], st["alpha"] * st["cov_i"]
    if not len(A):
        return 1.0
    c = _cond(A @ C @ A.T) if method.startswith("mud") else 1.0
    if method in ("map", "mud_alt"):
        c = max(c, _cond(A.T @ _solve(D, A) + _inv(C)), _cond(D), np.abs(A).max() ** 2 * np.abs(C).max()
                * np.abs(_inv(D)).max() * _cond(C))
    return max(1.0, 1e-7 * c)


def wme_row(op, data, std):
    """Row A and offset b of the weighted mean error map, from its definition:
    (1/sqrt n) sum_i (op_i x - d_i) / std_i."""
    data = np.asarray(data, float).ravel()
    n = len(data)
    op = np.atleast_2d(np.asarray(op, float))
    rows = np.repeat(op, n, axis=0) if op.shape[0] == 1 else op
    s = np.broadcast_to(np.asarray(std, float), (n,))
    A = (rows / s[:, None]).sum(axis=0) / np.sqrt(n)
    b = -(data / s).sum() / np.sqrt(n)
    return A, b
