"""C07 arrays and options passed in are never changed or aliased."""
import copy
import importlib
import inspect
import pkgutil

import numpy as np

from .. import linear
from ..common import (
    Interrupt, Trap, close, draw_trap, error_of, interrupt_at, kde_trap, linalg_trap, pick,
    reset_globals, rs, seam_dist,
)
from ..core import HarnessError, Violation

RUNS = {"quick": 1600, "thorough": 25000}
CHUNK = 20
RULE = (
    "One run: 4-24 seeded calls over the whole public API (constructors, setters, solves, plots, "
    "wrappers, helpers, examples) with caller-owned inputs as arrays, integer arrays, Fortran or "
    "strided or read-only arrays, lists and dicts, a third of the calls failing (failing "
    "factorisations, density estimates, distributions, drawing calls, bad shapes, interrupts), "
    "interleaved with callers scribbling over what they passed. Every input ever passed and "
    "every default argument is compared bit by bit after every step. Non-trivial: at least two "
    "calls completed."
)
STEP = "one call or one scribble"
MEASURE = "distinct event logs (calls, input forms, outcomes)"
REAL = ["mud.base, mud.funs, mud.util, mud.norm, mud.plot, mud.preprocessing",
        "mud.examples.simple/exp_decay/linear", "matplotlib (Agg)"]
STUB = ["distribution, gaussian_kde, numpy.linalg and Axes drawing seams that can raise"]
ASSUMPTIONS = [
    "SpatioTemporalProblem documents no snapshot: its inputs must stay unchanged, but may alias",
    "frozen scipy distributions are shared by design; their parameters must stay unchanged",
]
PROBES = ["scribbled over inputs in use", "call failed midway", "default arguments compared",
          "read-only input"]


def freeze(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", x.shape, tuple(freeze(v) for v in x.ravel()))
        return ("arr", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, list):
        return ("list", tuple(freeze(v) for v in x))
    if isinstance(x, tuple):
        return ("tuple", tuple(freeze(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    if hasattr(x, "dist") and hasattr(x, "kwds"):
        return ("frozen", freeze(x.args), freeze(x.kwds))
    return ("id", id(x))


def describe(a, b):
    return f"before {str(a)[:160]} after {str(b)[:160]}"


def mud_functions():
    """Every function and method defined in the package."""
    import mud

    seen = {}
    for info in sorted(pkgutil.walk_packages(mud.__path__, "mud."), key=lambda m: m.name):
        try:
            mod = importlib.import_module(info.name)
        except Exception:
            continue
        for name, obj in sorted(vars(mod).items()):
            if getattr(obj, "__module__", None) != info.name:
                continue
            if inspect.isfunction(obj):
                seen[f"{info.name}.{name}"] = obj
            elif inspect.isclass(obj):
                for attr, f in sorted(vars(obj).items()):
                    if inspect.isfunction(f):
                        seen[f"{info.name}.{name}.{attr}"] = f
    return seen


class Watch:
    """Everything the simulated caller owns."""

    def __init__(self, res):
        self.res = res
        self.items = []  # [label, object, frozen]
        self.form = "array"
        self.step = "start"
        self.defaults = [(n, f, freeze([f.__defaults__, f.__kwdefaults__]))
                         for n, f in mud_functions().items()
                         if f.__defaults__ or f.__kwdefaults__]

    def own(self, label, x):
        self.items.append([f"{label} of {self.step}", x, freeze(x)])
        return x

    def give(self, label, a, lists=True, ints=False):
        """An input in the form of this call."""
        a, f = np.array(a, float), self.form
        if f == "list" and lists:
            return self.own(label, a.tolist())
        if f == "int" and ints:
            return self.own(label, np.rint(a * 3).astype(int))
        if f == "fortran":
            return self.own(label, np.asfortranarray(a))
        if f == "strided":
            base = np.repeat(a, 2, axis=0)
            self.own(label + " (base)", base)
            return self.own(label, base[::2])
        x = a.copy()
        if f == "readonly":
            x.setflags(write=False)
            self.res.probes["read-only input"] += 1
        return self.own(label, x)

    def check(self, n):
        for label, x, was in self.items:
            now = freeze(x)
            if now != was:
                raise Violation("input-changed", f"step {n}: {label} changed: {describe(was, now)}")
        for name, f, was in self.defaults:
            if freeze([f.__defaults__, f.__kwdefaults__]) != was:
                raise Violation("defaults-changed", f"step {n}: default arguments of {name}: "
                                + describe(was, freeze([f.__defaults__, f.__kwdefaults__])))

    def refreeze(self, objs):
        ids = {id(o) for o in objs}
        for it in self.items:
            if id(it[1]) in ids or (isinstance(it[1], np.ndarray) and any(
                    isinstance(o, np.ndarray) and np.shares_memory(it[1], o) for o in objs)):
                it[2] = freeze(it[1])


# ------------------------------------------------------- one-shot call catalogue
# each entry: f(w, r, c) with w the watch, r a RandomState, c a context holding
# helpers; it builds inputs, registers them and calls mud.


class Ctx:
    def __init__(self, trap, bad):
        self.trap, self.bad = trap, bad

    def dist(self, r, dim=1, w=None):
        from scipy import stats

        d = seam_dist(stats.norm(loc=r.uniform(-0.3, 0.3, dim), scale=r.uniform(0.8, 2, dim)),
                      self.trap)
        return w.own("distribution", d) if w is not None else d

    def ax(self):
        import matplotlib.pyplot as plt

        return plt.subplots(1, 1)[1]


def samples(w, r, c, n=14, p=2, d=2):
    n = n if r.randint(12) else 250
    X = r.uniform(-1, 1, (n, p))
    y = X @ r.uniform(-1, 1, (p, d)) + r.normal(0, 0.3, (n, d))
    if c.bad:
        X = X[:-1]
    return w.give("X", X), w.give("y", y)


def dom(w, p=2):
    return w.give("domain", [[-1.0 - 0.5 * i, 1.0 + i] for i in range(p)], ints=True)


def opts(w, **k):
    return w.own("options", dict(k))


def density(w, r, c, p=2, d=2, settled=True):
    from mud.base import DensityProblem

    X, y = samples(w, r, c, p=p, d=d)
    D = DensityProblem(X, y, dom(w, p), weights=w.give("weights", r.uniform(0.2, 2, len(y))),
                       normalize=bool(r.randint(2)))
    if settled:
        D.set_initial(c.dist(r, p, w))
        D.set_observed(c.dist(r, d, w))
    return D


def k_density(w, r, c):
    D = density(w, r, c, p=r.randint(1, 3), d=r.randint(1, 3))
    n = D.y.shape[0]
    D.set_weights(w.give("weights", r.uniform(0.2, 1.5, (2, n))), normalize=True)
    if r.randint(2):
        D.set_predicted(weights=w.give("weights", r.uniform(0.2, 1.5, n)))
    D.fit()
    D.mud_point(), D.expected_ratio(), D.estimate()


def k_density_plots(w, r, c):
    p, d = r.randint(1, 3), r.randint(1, 3)
    D = density(w, r, c, p=p, d=d)
    kw = {}
    if r.randint(2):
        kw["x_range"] = dom(w, p)
    if r.randint(2):
        kw.update(in_opts=opts(w, color="g"), up_opts=opts(w, linewidth=2), win_opts=opts(w, linewidth=3),
                  mud_opts=opts(w, linestyle=":"), true_opts=opts(w, linestyle="-"))
    kw["true_val"] = w.give("true_val", r.uniform(-1, 1, p))
    D.plot_param_space(param_idx=r.randint(p), aff=12, **kw)
    kw = {}
    if r.randint(2):
        kw["y_range"] = dom(w, d)
    if r.randint(2):
        kw.update(ob_opts=opts(w, color="g"), pr_opts=opts(w, linewidth=2), pf_opts=opts(w, linewidth=3))
    D.plot_obs_space(obs_idx=r.randint(d), aff=12, ax=c.ax(), **kw)
    if d > 1:
        D.plot_qoi(**opts(w, color="r"))
    if p > 1:
        D.plot_params_2d(contours=bool(r.randint(2)), **opts(w, marker="x"))
    D.expected_ratio()


def bayes(w, r, c, p=2, d=2):
    from mud.base import BayesProblem

    X, y = samples(w, r, c, p=p, d=d)
    B = BayesProblem(X, y, dom(w, p))
    B.set_prior(c.dist(r, p, w))
    B.set_likelihood(c.dist(r, d, w), log=bool(r.randint(2)))
    return B


def k_bayes(w, r, c):
    B = bayes(w, r, c, p=r.randint(1, 3), d=r.randint(1, 3))
    B.fit(), B.map_point(), B.estimate()


def k_bayes_plots(w, r, c):
    p, d = r.randint(1, 3), r.randint(1, 3)
    B = bayes(w, r, c, p=p, d=d)
    kw = {"true_val": w.give("true_val", r.uniform(-1, 1, p))}
    if r.randint(2):
        kw["x_range"] = dom(w, p)
    if r.randint(2):
        kw.update(pr_opts=opts(w, color="g"), ps_opts=opts(w, linewidth=2), map_opts=opts(w, linestyle=":"),
                  true_opts=opts(w, linestyle="-"))
    B.plot_param_space(param_idx=r.randint(p), aff=12, **kw)
    kw = {}
    if r.randint(2):
        kw["y_range"] = dom(w, d)
    if r.randint(2):
        kw.update(ll_opts=opts(w, color="g"), pf_opts=opts(w, linewidth=2))
    B.plot_obs_space(obs_idx=r.randint(d), aff=12, **kw)
    B.estimate()


def lin_args(w, r, c, d=None, p=2):
    st = linear.arrays({"seed": r.randint(2**31), "d": d or r.randint(1, 3), "p": p})
    out = {k: w.give(k, st[k]) for k in ("A", "b", "y", "mean_i", "cov_i", "cov_o")}
    if c.bad:
        out["y"] = w.give("y", np.zeros((7, 1)))
    out["alpha"] = st["alpha"]
    return out, st


def k_linear(w, r, c):
    from mud.base import LinearGaussianProblem

    kw, st = lin_args(w, r, c)
    L = LinearGaussianProblem(**kw)
    for m in ("all", "mud_alt", "map"):
        L.solve(m)
    L.solve("mud", output_dim=1)
    L.compute_functionals(w.give("X", r.uniform(-1, 1, (5, 2)), lists=False))
    L.updated_cov(A=w.give("A", st["A"], lists=False), init_cov=w.give("C", st["cov_i"], lists=False),
                  data_cov=w.give("D", st["cov_o"], lists=False))


def k_linear_plots(w, r, c):
    from mud.base import LinearGaussianProblem

    kw, st = lin_args(w, r, c)
    L = LinearGaussianProblem(**kw)
    kw = {}
    if r.randint(2):
        kw = {"pt_opts": opts(w, color="g", label="mine"), "ln_opts": opts(w, linewidth=2),
              "annotate_opts": opts(w, fontsize=9), "label": "here",
              "note_loc": w.own("note_loc", [0.1, 0.2])}
    L.plot_sol(point=["mud", "map", "ls", "initial"][r.randint(4)], **kw)
    kw = {}
    if r.randint(2):
        kw = {"ref": w.give("ref", r.uniform(-1, 1, (2, 1))),
              "subset": w.own("subset", [0]), "plot_opts": opts(w, color="r"),
              "annotate_opts": opts(w, fontsize=8), "annotate": True}
    L.plot_contours(**kw)
    g = np.linspace(0, 1, 6)
    mesh = np.array([[a, b] for a in g for b in g])
    L.plot_fun_contours(mesh=w.give("mesh", mesh, lists=False), N=6, terms="bayes")


def wme_args(w, r, c, p=2):
    ops, data, std = [], [], []
    for _ in range(r.randint(1, 4)):
        n = r.randint(2, 6)
        rep = r.randint(2)
        ops.append(w.give("operator", r.uniform(-2, 2, (1 if rep else n, p)), lists=False))
        data.append(w.give("data", r.uniform(-1, 1, n + (3 if c.bad and not rep else 0))))
        std.append(float(r.uniform(0.1, 1)) if rep or r.randint(2)
                   else w.give("std", r.uniform(0.1, 1, n)))
    return (w.own("operators", ops), w.own("data list", data), w.own("std list", std))


def k_wme(w, r, c):
    from mud.base import LinearWMEProblem
    from mud.util import transform_linear_map, transform_linear_setup

    ops, data, std = wme_args(w, r, c)
    W = LinearWMEProblem(ops, data, std, cov_i=w.give("cov_i", linear.spd(r, 2)),
                         mean_i=w.give("mean_i", r.uniform(-1, 1, 2)))
    W.solve("all")
    transform_linear_setup(ops, data, std)
    transform_linear_map(ops[0], data[0], std[0])


def iter_args(w, r, c, p=2):
    d = r.randint(2, 5)
    return {
        "A": w.give("A", r.uniform(0.3, 1.5, (d, p))), "b": w.give("b", r.uniform(-1, 1, (d, 1))),
        "y": w.give("y", r.uniform(-1, 1, (d, 1))), "mu_i": w.give("mu_i", r.uniform(-1, 1, (p, 1))),
        "cov": w.give("cov", linear.spd(r, p)),
        "data_cov": w.give("data_cov", np.diag(r.uniform(0.2, 1.5, d))),
        "idx_order": w.own("idx_order", [int(i) for i in r.permutation(d)]
                           + ([99] if c.bad else [])),
    }


def k_iter(w, r, c):
    from mud.base import IterativeLinearProblem

    Q = IterativeLinearProblem(**iter_args(w, r, c))
    Q.solve(num_epochs=2)
    ref = w.give("ref", r.uniform(-1, 1, (2, 1)))
    Q.get_errors(ref)
    ax = c.ax()
    Q.plot_chain(ref, ax=ax)
    Q.plot_chain_error(ref, ax=ax)
    Q.solve()


def k_iter_funs(w, r, c):
    from mud import funs

    a = iter_args(w, r, c)
    funs.iter_lin_solve(a["A"], a["b"], y=a["y"], mean=a["mu_i"], cov=a["cov"],
                        data_cov=a["data_cov"], idx_order=a["idx_order"], num_epochs=2)
    A, b, y = (np.asarray(a[k], float) for k in ("A", "b", "y"))
    for k, v in (("A", A), ("b", b), ("y", y)):
        w.own(k, v)
    funs.iterate(A, b, y, a["mu_i"], a["cov"], num_epochs=2, idx=a["idx_order"])
    funs.performEpoch(A, b, y, a["mu_i"], a["cov"], idx=a["idx_order"])


def k_lin_funs(w, r, c):
    from mud import funs

    kw, st = lin_args(w, r, c)
    a = (kw["A"], kw["b"])
    k = dict(y=kw["y"], mean=kw["mean_i"], cov=kw["cov_i"], data_cov=kw["cov_o"])
    funs.mud_sol(*a, **k)
    funs.mud_sol_with_cov(*a, **k)
    funs.map_sol(*a, w=0.5, **k)
    funs.map_sol_with_cov(*a, **k)
    funs.updated_cov(w.give("A", st["A"], lists=False), w.give("C", st["cov_i"], lists=False),
                     w.give("D", st["cov_o"], lists=False))


def st_data(w, r, c, sensors=3, times=4, n=10, p=2):
    lam = r.uniform(-0.9, 0.9, (n, p))
    data = r.normal(size=(n, sensors * times))
    ds = {"lam": w.give("lam", lam), "data": w.give("data", data, lists=False),
          "domain": w.give("domain", [[-1.0, 1.0]] * p),
          "sensors": w.give("sensors", r.uniform(0, 1, (sensors, 2)), lists=False),
          "times": w.give("times", np.arange(times) / 4.0, lists=False),
          "true_vals": w.give("true_vals", r.normal(size=sensors * times)),
          "measurements": w.give("measurements", r.normal(size=sensors * times)),
          "std_dev": 0.1, "sample_dist": "u", "lam_ref": w.give("lam_ref", [0.1] * p)}
    if c.bad:
        ds["data"] = w.give("data", data[:, :-1], lists=False)
    return w.own("dataset", ds)


def masks(w, r):
    def m(n, k):
        f = r.randint(3)
        if f == 0:
            return None
        idx = [int(i) for i in r.permutation(n)[:k]]
        return w.own("mask", idx if f == 1 else np.array(idx))

    return m(10, 7), m(4, 3), m(3, 2)


def k_st(w, r, c):
    from mud.base import SpatioTemporalProblem

    ds = st_data(w, r, c)
    S = SpatioTemporalProblem()
    S.load(ds, **({} if r.randint(2) else {"sensors": ds["sensors"], "lam_ref": None}))
    s, t, q = masks(w, r)
    S.sample_data(s, t, q)
    S.get_closest_to_measurements(s, t, q)
    S.get_closest_to_true_vals()
    nt, ns = (4 if t is None else 3), (3 if q is None else 2)
    for method in ("wme", "pca", "svd"):
        kw = {}
        if r.randint(2):
            kw["data_weights"] = w.give("data_weights", r.uniform(0.5, 2, nt * ns))
        if r.randint(2):
            kw["sample_weights"] = w.give("weights", r.uniform(0.5, 2, 10 if s is None else 7))
        D = S.mud_problem(method=method, samples_mask=s, times_mask=t, sensors_mask=q, **kw)
        D.set_observed(c.dist(r, D.n_features))
        D.expected_ratio()
    S.measurements_from_reference(ref=w.give("ref", r.normal(size=12)), std_dev=0.2, seed=3)
    if r.randint(2):
        S.lam = w.give("lam", r.uniform(-0.5, 0.5, (10, 2)))
        S.domain = w.give("domain", [[-2.0, 2.0]] * 2)
        S.true_vals = w.give("true_vals", r.normal(size=12))
        S.measurements = w.give("measurements", r.normal(size=(3, 4)))


def k_st_plots(w, r, c):
    from mud.base import SpatioTemporalProblem

    S = SpatioTemporalProblem(st_data(w, r, c, sensors=6, times=1))
    S.sensor_scatter_plot(mask=w.own("mask", [0, 2, 4]), colorbar=True,
                          **opts(w, c=w.give("c", [1.0, 2.0, 3.0])))
    S.sensor_contour_plot(c_vals=w.give("c_vals", r.normal(size=6), lists=False),
                          fill=bool(r.randint(2)))
    T = SpatioTemporalProblem(st_data(w, r, c, sensors=2, times=6))
    T.plot_ts(meas_kwargs=opts(w, s=4), samples_kwargs=opts(w, linewidth=1), max_plot=3)
    T.plot_ts(max_plot=3)


def k_funs(w, r, c):
    from mud import funs

    X = w.give("lam", r.uniform(-1, 1, (12, 2)), lists=False)
    Q = w.give("qoi", r.normal(size=(12, 6)), lists=False)
    t = w.give("qoi_true", r.normal(size=6 if not c.bad else 3), lists=False)
    funs.wme(Q, w.give("data", r.normal(size=6)), sd=None if r.randint(2) else 0.1)
    funs.wme(w.give("one", r.normal(size=(12, 1)), lists=False), w.give("datum", r.normal(size=1)), sd=0.1)
    split = w.own("split", [np.array([2, 0, 1]), np.array([3, 5, 4])])
    D = funs.mud_problem(X, Q, t, dom(w), sd=0.1, split=split if r.randint(2) else None,
                         weights=w.give("weights", r.uniform(0.2, 1, 12)))
    D.expected_ratio()
    B = funs.map_problem(X, Q, t, dom(w), sd=0.1, num_obs=4, log=True)
    B.estimate()
    D = funs.data_prob(X, Q, measurements=w.give("meas", r.normal(size=6)), std_dev=0.1,
                       domain=dom(w), lam_ref=w.give("lam_ref", [0.1, 0.1]),
                       sensors=w.give("sensors", r.uniform(0, 1, (2, 2)), lists=False),
                       times=w.give("times", np.arange(3.0), lists=False),
                       init_dist=c.dist(r, 2, w))
    D.expected_ratio()


def k_util(w, r, c):
    from mud import norm, util
    from mud.preprocessing import pca, svd

    util.fit_domain(w.give("x", r.uniform(-1, 1, (5, 2)), lists=False, ints=True), pad_ratio=0.5)
    util.fit_domain(min_max_bounds=dom(w), pad_ratio=1)
    util.null_space(w.give("A", r.normal(size=(2, 4))))
    util.add_noise(w.give("signal", r.normal(size=6)), sd=0.1, seed=1)
    util.rank_decomposition(w.give("A", r.normal(size=(3, 3))))
    util.set_shape(w.give("v", r.normal(size=4), lists=False), (1, -1))
    A, m, C = r.normal(size=(2, 2)), r.normal(size=(2, 1)), linear.spd(r, 2)
    g = lambda n, a: w.give(n, a, lists=False)
    norm.full_functional(g("A", A), g("X", r.normal(size=(5, 2))), g("d", r.normal(size=(2, 1))),
                         g("m", m), g("C", C), g("om", r.normal(size=(1, 2))), g("oc", C))
    norm.inner_product(g("X", r.normal(size=(2, 5))), g("C", C))
    norm.norm_input(g("X", r.normal(size=(5, 2))), g("m", m), 0.5)
    data = w.give("data", r.normal(size=(8, 4) if not c.bad else (2, 2, 2)))
    pca(data, n_components=2, **opts(w, whiten=False))
    svd(data)


def k_plot(w, r, c):
    from mud import plot

    plot.plot_1D_vecs(w.give("vecs", r.normal(size=(2, 5))), markers=w.own("markers", ["o", "x"]))
    plot.build_nd_mesh_grid(dom(w), aff=5)
    plot.plot_dist(c.dist(r, 2, w), dom(w), idx=1, source="pdf", aff=10, ax=c.ax())
    plot.plot_vert_line(c.ax(), 0.5, **opts(w, color="r"))
    chain = w.own("chain", [w.give("point", r.normal(size=(2, 1)), lists=False) for _ in range(4)])
    plot.plotChain(chain, w.give("ref", r.normal(size=(2, 1))))
    plot.plot_contours(w.give("A", r.normal(size=(2, 2)), lists=False),
                       w.give("ref", r.normal(size=2)), subset=w.own("subset", [1, 0]))


def k_examples(w, r, c):
    from mud.examples import exp_decay, linear as lin, simple

    D = simple.identity_1D_density_prob(
        20, 5, domain=w.own("domain", [0, 1]), weights=w.give("weights", r.uniform(0.2, 1, 20)),
        analytical_pred=bool(r.randint(2)))
    D.expected_ratio()
    D.plot_param_space(aff=10)
    simple.identity_1D_bayes_prob(20, 5, domain=w.own("domain", [[0, 1]])).estimate()
    simple.polynomial_1D_data(p=3, num_samples=9, domain=w.own("domain", [[-1, 1]]), N=4)
    exp_decay.exp_decay_1D(time_range=w.own("range", [0, 1.0]), domain=w.own("domain", [0, 1]),
                           num_samples=6, sampling_freq=5.0)
    ref = w.give("ref", r.uniform(0, 1, 2))
    ops, data, std = lin.random_linear_wme_problem(
        ref, w.own("std", [0.1, 0.2]), num_qoi=2, num_observations=w.own("n", [4, 4]),
        repeated=True)
    lin.random_linear_problem(2, 2, mean_i=w.give("mean", r.normal(size=2)),
                              cov_i=w.give("cov", linear.spd(r, 2)), seed=2)
    lin.noisy_linear_data(w.give("M", r.normal(size=(3, 2)), lists=False),
                          w.give("ref", r.normal(size=(2, 1)), lists=False), 0.1)
    lin.rotation_map(4, b=w.give("b", r.normal(size=(4, 1)), lists=False),
                                   ref_param=w.give("ref", r.uniform(0, 1, (2, 1)), lists=False),
                                   seed=2)


CALLS = {
    "density": k_density, "density_plots": k_density_plots, "bayes": k_bayes,
    "bayes_plots": k_bayes_plots, "linear": k_linear, "linear_plots": k_linear_plots,
    "wme": k_wme, "iter": k_iter, "iter_funs": k_iter_funs, "lin_funs": k_lin_funs,
    "st": k_st, "st_plots": k_st_plots, "funs": k_funs, "util": k_util, "plot": k_plot,
    "examples": k_examples,
}
CAN_BE_BAD = {"density", "bayes", "linear", "wme", "iter", "st", "funs", "util", "lin_funs",
              "density_plots"}
FORMS = {"array": 4, "list": 3, "int": 2, "fortran": 1, "strided": 2, "readonly": 2}


# ------------------------------------------------------------ aliasing twins


class Twin:
    """One object built from inputs its caller keeps scribbling on, and one
    built from private copies of the same values."""

    def __init__(self, w, kind, seed, form):
        self.kind, self.r, self.asked = kind, rs(seed), False
        w.form = form
        r = self.r
        c = Ctx(Trap(), False)
        p = int(r.randint(1, 3)) if kind in ("density", "bayes") else 2
        self.p = p
        mark = len(w.items)
        if kind in ("density", "bayes"):
            X, y = samples(w, r, c, p=p, d=int(r.choice([1, 1, 2, 3])))
            args = {"X": X, "y": y, "domain": dom(w, p)}
            if kind == "density":
                n = len(y)
                args["weights"] = w.give("weights", r.uniform(0.2, 2, n if r.randint(2) else (2, n)))
        elif kind == "linear":
            args, _ = lin_args(w, r, c)
        elif kind == "wme":
            o, d, s = wme_args(w, r, c)
            args = {"operators": o, "data": d, "sigma": s, "y": w.give("y", np.zeros(len(d))),
                    "mean_i": w.give("mean_i", r.uniform(-1, 1, 2)),
                    "cov_i": w.give("cov_i", linear.spd(r, 2)),
                    "cov_o": w.give("cov_o", linear.spd(r, len(d)))}
        else:
            args = iter_args(w, r, c)
        self.owned = [it[1] for it in w.items[mark:]]
        private = copy.deepcopy(args)
        self.pair = [self.build(args), self.build(private)]

    def build(self, args):
        from mud import base
        from scipy import stats

        kind = self.kind
        cls = {"density": base.DensityProblem, "bayes": base.BayesProblem,
               "linear": base.LinearGaussianProblem, "wme": base.LinearWMEProblem,
               "iter": base.IterativeLinearProblem}[kind]
        obj = cls(**args)
        if kind == "density":
            obj.set_observed(stats.norm(0.1, 0.9))
        elif kind == "bayes":
            obj.set_likelihood(stats.norm(0.1, 0.9))
            obj.set_prior()
        return obj

    def scribble(self, w, seed):
        r = rs(seed)
        todo = list(self.owned)
        while todo:
            x = todo.pop()
            if isinstance(x, np.ndarray):
                if x.flags.writeable and x.size:
                    if x.dtype == object:
                        continue
                    x[...] = (x + r.uniform(0.5, 3, x.shape)).astype(x.dtype)
                    if r.randint(2):
                        x.flat[r.randint(x.size)] = 0
            elif isinstance(x, list) and x:
                todo += [v for v in x if isinstance(v, (list, np.ndarray))]
                plain = [i for i, v in enumerate(x) if isinstance(v, (int, float))]
                if plain:
                    i = plain[r.randint(len(plain))]
                    x[i] = type(x[i])(x[i] + 1)
                if r.randint(3) == 0:
                    x.reverse() if r.randint(2) else x.append(x[0])
        w.refreeze(self.owned + [v for x in self.owned if isinstance(x, list) for v in x])

    def set_weights(self, w, seed):
        r = rs(seed)
        n = self.pair[0].y.shape[0]
        a = w.give("weights", r.uniform(0.2, 2, n if r.randint(2) else (3, n)))
        b = copy.deepcopy(a)
        self.owned.append(a)
        how = r.randint(3)
        for obj, x in zip(self.pair, (a, b)):
            if how == 0:
                obj.set_predicted(weights=x)
            else:
                obj.set_weights(x, normalize=how == 1)

    def queries(self):
        return {
            "density": ["mud", "expected", "plot_param", "plot_obs", "initial"],
            "bayes": ["map", "plot_param", "plot_obs", "prior"],
            "linear": ["mud", "map", "ls", "mud_alt", "fun", "cov", "plot"],
            "wme": ["mud", "map", "ls", "mud_alt", "cov"],
            "iter": ["solve", "solve2", "errors", "plot"],
        }[self.kind]

    def ask(self, obj, q):
        import matplotlib.pyplot as plt

        kind = self.kind
        if kind == "density" and not self.asked and q.startswith("plot"):
            q = "mud"  # a plot may insist on distributions that were never set
        if q in ("plot_param", "plot_obs", "plot"):
            ax = plt.subplots(1, 1)[1]
            if kind == "density":
                (obj.plot_param_space if q == "plot_param" else obj.plot_obs_space)(ax=ax, aff=10)
            elif kind == "bayes":
                (obj.plot_param_space if q == "plot_param" else obj.plot_obs_space)(ax=ax, aff=10)
            elif kind == "linear":
                obj.plot_sol(ax=ax)
                obj.plot_contours(ax=ax)
            else:
                obj.plot_chain([0.3, 0.4], ax=ax)
            out = [np.asarray(line.get_xydata(), float).ravel() for line in ax.lines]
            plt.close("all")
            return np.concatenate(out) if out else np.zeros(0)
        if kind == "density":
            if q == "initial":
                obj.set_initial()
                return np.zeros(1)
            if q == "mud":
                return np.array(obj.mud_point())
            return np.array([obj.expected_ratio()])
        if kind == "bayes":
            if q == "prior":
                obj.set_prior()
                return np.zeros(1)
            return np.array(obj.map_point())
        if kind in ("linear", "wme"):
            if q == "fun":
                return np.array(obj.compute_functionals(np.array([[0.1, 0.2], [0.5, -1.0]]), "dc"))
            if q == "cov":
                return np.array(obj.updated_cov())
            return np.array(obj.solve(q))
        if q == "errors":
            return np.array(obj.get_errors(np.array([[0.3], [0.4]])))
        return np.array(obj.solve(2 if q == "solve2" else 1))


KINDS = {"density": 4, "bayes": 2, "linear": 2, "wme": 2, "iter": 2}


def generate(rng, i, tier):
    twins = [{"kind": pick(rng, KINDS), "seed": rng.randrange(2**31), "form": pick(rng, FORMS)}
             for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([4, 8, 12] if tier == "quick" else [8, 16, 24])):
        kind = pick(rng, {"call": 5, "ask": 5, "scribble": 3, "weights": 1})
        op = {"op": kind}
        if kind == "call":
            op["f"] = pick(rng, {k: (1 if k == "examples" else 2) for k in CALLS})
            op["form"] = pick(rng, FORMS)
            op["bad"] = op["f"] in CAN_BE_BAD and rng.random() < 0.12
            if rng.random() < 0.35:
                op["fault"] = gen_fault(rng)
        else:
            op["t"] = rng.randrange(len(twins))
            if kind == "ask":
                op["q"] = rng.randrange(100)
                if rng.random() < 0.25:
                    op["fault"] = gen_fault(rng)
            if kind == "weights":
                op["form"] = pick(rng, FORMS)
        op["seed"] = rng.randrange(2**31)
        ops.append(op)
    return {"twins": twins, "ops": ops}


def gen_fault(rng):
    kind = pick(rng, {"linalg": 2, "kde": 2, "draw": 2, "dist": 2, "interrupt": 3})
    return {"kind": kind, "at": rng.randrange(150 if kind == "interrupt" else 8),
            "error": rng.choice(["injected", "memory", "value", "os"])}


class Sim:
    def __init__(self, plan, res):
        self.plan, self.res = plan, res

    def run(self):
        self.w = w = Watch(self.res)
        self.done = 0
        self.twins = []
        for j, t in enumerate(self.plan["twins"]):
            w.step = f"twin {j}"
            self.twins.append(Twin(w, t["kind"], t["seed"], t["form"]))
        w.check("construction")
        for n, op in enumerate(self.plan["ops"]):
            if op.get("t", 0) >= len(self.twins):
                continue
            self.res.steps += 1
            self.res.ops[op.get("f", op["op"])] += 1
            w.step = f"step {n} ({op.get('f', op['op'])})"
            getattr(self, op["op"])(n, op)
            w.check(n)
        for j, t in enumerate(self.twins):
            for q in t.queries():
                self.compare("end", j, t, q)
        w.check("end")
        self.res.probes["default arguments compared"] += 1
        self.res.nontrivial = self.done > 1

    def under(self, fault, fn):
        """Run fn under a fault; returns (value, the exception if it fired)."""
        trap = Trap()
        if fault is None:
            return fn(trap), None
        if fault["kind"] == "interrupt":
            hit = interrupt_at(fault["at"])
            try:
                with hit:
                    return fn(trap), None
            except Interrupt as e:
                self.res.faults["interrupt at a line"] += 1
                return None, e
        other = Trap()
        seam = {"linalg": linalg_trap, "kde": kde_trap, "draw": draw_trap}.get(fault["kind"])
        target = trap if fault["kind"] == "dist" else other
        target.arm(fault["at"], error_of(fault["error"]))
        try:
            if seam is None:
                return fn(trap), None
            with seam(other):
                return fn(trap), None
        except Exception as e:
            if not target.fired:
                raise
            self.res.faults[f"{fault['kind']} failure"] += 1
            self.res.probes["call failed midway"] += 1
            return None, e
        finally:
            target.disarm()

    def call(self, n, op):
        import matplotlib.pyplot as plt

        self.w.form = op["form"]
        outcome = "ok"

        def fn(trap):
            CALLS[op["f"]](self.w, rs(op["seed"]), Ctx(trap, op.get("bad")))

        try:
            np.random.seed(op["seed"] % 2**32)
            _, failed = self.under(op.get("fault"), fn)
            if failed is not None:
                outcome = type(failed).__name__
            else:
                self.done += 1
        except (ValueError, AssertionError, AttributeError, IndexError, TypeError) as e:
            if not op.get("bad"):
                raise
            outcome = f"rejected {type(e).__name__}"
            self.res.faults["bad shapes"] += 1
        finally:
            plt.close("all")
        self.res.event(n, op["f"], op["form"], bool(op.get("bad")), outcome)

    def scribble(self, n, op):
        self.twins[op["t"]].scribble(self.w, op["seed"])
        self.res.probes["scribbled over inputs in use"] += 1
        self.res.event(n, "scribble", op["t"])

    def weights(self, n, op):
        t = self.twins[op["t"]]
        if t.kind != "density":
            return
        self.w.form = op["form"]
        t.set_weights(self.w, op["seed"])
        self.res.event(n, "weights", op["t"], op["form"])

    def ask(self, n, op):
        import matplotlib.pyplot as plt

        t = self.twins[op["t"]]
        q = t.queries()[op["q"] % len(t.queries())]
        if op.get("fault") and q not in ("solve", "solve2"):
            _, failed = self.under(op["fault"], lambda trap: t.ask(t.pair[0], q))
            plt.close("all")
            self.res.event(n, "ask", op["t"], q, "under fault", type(failed).__name__)
        self.compare(n, op["t"], t, q)
        self.done += 1

    def compare(self, n, j, t, q):
        a, b = (t.ask(obj, q) for obj in t.pair)
        t.asked = True
        if not close(a, b, rtol=1e-9, atol=1e-12):
            raise Violation("aliased", f"step {n}: {t.kind} problem {j} answers {q} with "
                            f"{np.round(a.ravel()[:6], 5).tolist()}, its twin built from private "
                            f"copies with {np.round(b.ravel()[:6], 5).tolist()}")
        self.res.event(n, "ask", j, q, a.shape)


def execute(plan, res):
    reset_globals()
    Sim(plan, res).run()


def warm_up():
    mud_functions()


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if op.get("fault"):
            new = {a: b for a, b in op.items() if a != "fault"}
            yield {**plan, "ops": plan["ops"][:i] + [new] + plan["ops"][i + 1:]}
        if op.get("form") not in (None, "array"):
            yield {**plan, "ops": plan["ops"][:i] + [{**op, "form": "array"}] + plan["ops"][i + 1:]}
    if len(plan["twins"]) > 1 and all(op.get("t", 0) < len(plan["twins"]) - 1 for op in plan["ops"]):
        yield {**plan, "twins": plan["twins"][:-1]}
