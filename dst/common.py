"""Helpers shared by the property modules: data, distributions, seams."""
import contextlib
import os
import random
import sys

import numpy as np

from .core import REPO_SRC, HarnessError, Injected, Violation

MUD_DIR = os.path.join(os.path.realpath(REPO_SRC), "mud") + os.sep


def reset_globals(seed=12345):
    """Every run starts from the same process-wide state."""
    import matplotlib.pyplot as plt

    np.random.seed(seed)
    random.seed(seed)
    plt.close("all")


def rs(seed):
    return np.random.RandomState(seed % (2**32))


def close(a, b, rtol=1e-7, atol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def ashape(a, want):
    return tuple(np.shape(a)) == tuple(want)


def pick(rng, weighted):
    """Pick a key of {key: weight}."""
    keys = list(weighted)
    return rng.choices(keys, [weighted[k] for k in keys])[0]


def rnum(rng, lo, hi, digits=3):
    return round(rng.uniform(lo, hi), digits)


# ------------------------------------------------------------------ seams


class Trap:
    """Counts calls through a seam and raises at the chosen one."""

    def __init__(self):
        self.left = None
        self.error = None
        self.fired = 0
        self.calls = 0

    def arm(self, at, error):
        self.left, self.error = at, error

    def disarm(self):
        self.left = None

    def hit(self):
        self.calls += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left < 0:
            self.left = None
            self.fired += 1
            raise self.error


def error_of(kind):
    return {
        "injected": lambda: Injected("injected fault"),
        "memory": lambda: MemoryError("injected: allocation failed"),
        "linalg": lambda: np.linalg.LinAlgError("injected: no convergence"),
        "value": lambda: ValueError("injected: bad value"),
        "os": lambda: OSError(28, "injected: No space left on device"),
    }[kind]()


_seam_class = None


def seam_dist(frozen, trap):
    """The frozen distribution with its pdf/logpdf behind a trap."""
    global _seam_class
    if _seam_class is None:
        from scipy.stats import norm

        base = type(norm())

        class SeamDist(base):
            def pdf(self, x):
                self._trap.hit()
                return super().pdf(x)

            def logpdf(self, x):
                self._trap.hit()
                return super().logpdf(x)

        _seam_class = SeamDist
    d = _seam_class(frozen.dist, *frozen.args, **frozen.kwds)
    d._trap = trap
    return d


def make_dist(spec):
    from scipy import stats

    k = spec["k"]
    if k == "norm":
        return stats.norm(loc=np.array(spec["loc"]), scale=np.array(spec["scale"]))
    if k == "uniform":
        return stats.uniform(loc=np.array(spec["loc"]), scale=np.array(spec["scale"]))
    if k == "t":
        return stats.t(df=spec["df"], loc=np.array(spec["loc"]), scale=np.array(spec["scale"]))
    if k == "logistic":
        return stats.logistic(loc=np.array(spec["loc"]), scale=np.array(spec["scale"]))
    if k == "mvn":
        return stats.multivariate_normal(mean=spec["loc"], cov=np.diag(spec["scale"]))
    raise HarnessError(k)


def gen_dist(rng, dim, full=True, spread=(0.3, 2.0)):
    """A random distribution over `dim` dimensions, full support if asked."""
    k = pick(rng, {"norm": 4, "t": 1, "logistic": 1} if full else
             {"norm": 3, "uniform": 2, "logistic": 1})
    vec = dim > 1 and rng.random() < 0.6
    def num(lo, hi):
        return [rnum(rng, lo, hi) for _ in range(dim)] if vec else rnum(rng, lo, hi)
    if k == "uniform":
        return {"k": k, "loc": num(-1.0, 0.2), "scale": num(0.8, 3.0)}
    spec = {"k": k, "loc": num(-1.0, 1.0), "scale": num(*spread)}
    if k == "t":
        spec["df"] = rng.choice([3, 5, 9])
    return spec


def gen_unit(rng):
    """The unit of a quantity: sometimes far from one."""
    return 1.0 if rng.random() < 0.9 else rng.choice([1e9, 1e6, 1e-6])


def in_unit(spec, u):
    """The same distribution of a quantity measured in another unit."""
    if u == 1.0 or not spec:
        return spec
    def times(v, by):
        return [x * by for x in v] if isinstance(v, list) else v * by
    return {**spec, "loc": times(spec["loc"], u),
            "scale": times(spec["scale"], u * u if spec["k"] == "mvn" else u)}


@contextlib.contextmanager
def patched(obj, name, value):
    missing = object()
    own = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else missing
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield old
    finally:
        if own is missing and isinstance(obj, type):
            delattr(obj, name)
        else:
            setattr(obj, name, old)


@contextlib.contextmanager
def kde_trap(trap):
    """gaussian_kde with construction and evaluation behind a trap."""
    from scipy.stats import gaussian_kde

    init, ev = gaussian_kde.__init__, gaussian_kde.evaluate

    def new_init(self, *a, **k):
        trap.hit()
        return init(self, *a, **k)

    def new_ev(self, points):
        trap.hit()
        return ev(self, points)

    names = {n: gaussian_kde.__dict__[n] for n in ("__init__", "evaluate", "pdf", "__call__")}
    gaussian_kde.__init__ = new_init
    gaussian_kde.evaluate = new_ev
    gaussian_kde.__call__ = new_ev
    try:
        yield
    finally:
        for n, f in names.items():
            setattr(gaussian_kde, n, f)


@contextlib.contextmanager
def linalg_trap(trap, names=("inv", "pinv", "svd")):
    """numpy.linalg routines behind a trap."""
    old = {n: getattr(np.linalg, n) for n in names}

    def wrap(f):
        def call(*a, **k):
            trap.hit()
            return f(*a, **k)

        return call

    for n in names:
        setattr(np.linalg, n, wrap(old[n]))
    try:
        yield
    finally:
        for n in names:
            setattr(np.linalg, n, old[n])


class Interrupt(BaseException):
    """Asynchronous interruption (as KeyboardInterrupt) at one line."""


class interrupt_at:
    """Raise Interrupt at the n-th executed line of mud code."""

    def __init__(self, n):
        self.left, self.fired, self.where = n, False, None

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.left -= 1
            if self.left < 0:
                self.fired = True
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                sys.settrace(None)
                raise Interrupt(self.where)
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(MUD_DIR):
            return self._local
        return None

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, et, ev, tb):
        sys.settrace(self._old)
        return False


def rows_equal(X, point):
    """Indices of the rows of X equal to the point (nan-free)."""
    X = np.asarray(X, float)
    p = np.asarray(point, float).ravel()
    if p.shape[0] != X.shape[1]:
        return np.array([], int)
    return np.nonzero(np.all(X == p, axis=1))[0]


DRAWING = ("plot", "scatter", "contour", "contourf", "tricontour", "tricontourf", "annotate",
           "text", "set_xlabel")


@contextlib.contextmanager
def draw_trap(trap, names=DRAWING):
    """Axes drawing calls behind a trap (raises before drawing)."""
    from matplotlib.axes import Axes

    old = {}

    def wrap(f):
        def call(*a, **k):
            trap.hit()
            return f(*a, **k)

        return call

    for n in names:
        old[n] = Axes.__dict__.get(n)
        setattr(Axes, n, wrap(getattr(Axes, n)))
    try:
        yield
    finally:
        for n, f in old.items():
            if f is None:
                delattr(Axes, n)
            else:
                setattr(Axes, n, f)


def again(rng, ops, kinds):
    """Now and then a setting is given once more: the same object as before."""
    seen = {}
    for op in ops:
        if op["op"] in kinds and op.get("dist"):
            key = (op["o"], op["op"])
            if key in seen and rng.random() < 0.25:
                op["dist"] = dict(rng.choice(seen[key]))
            seen.setdefault(key, []).append(op["dist"])
    return ops
