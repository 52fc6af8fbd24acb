"""C01 density estimates always reflect the settings in force."""
from .. import density
from ..common import again

RUNS = {"quick": 5000, "thorough": 60000}
CHUNK = 50
RULE = (
    "One run: 1-3 density problems with seeded samples, data, domains and weights, driven "
    "through 4-40 seeded calls (setters, fits, estimates, plots, unrelated users) interleaved "
    "across objects. Non-trivial: at least one setting changed after an estimate. "
    "Distinct: by the sequence of calls, objects and outcomes."
)
STEP = "one call on a problem object"
MEASURE = "distinct event logs (call sequence over objects with outcomes)"
REAL = ["mud.base.DensityProblem", "mud.util", "mud.plot", "scipy.stats", "matplotlib (Agg)"]
STUB = ["distributions: scipy's frozen distributions behind a counting wrapper (values unchanged)"]
ASSUMPTIONS = [
    "scipy's densities and gaussian_kde are trusted as the definition of the densities",
    "settings whose densities underflow to 0/0 are skipped (counted as a probe)",
    "ties within 1e-7 relative are all accepted as maximisers",
]
PROBES = ["setting changed after an estimate", "several objects", "curves compared"]


def generate(rng, i, tier):
    objs = density.gen_objs(rng, rng.choice([1, 1, 2, 2, 3]))
    n = rng.choice([4, 8, 12, 20, 30] if tier == "quick" else [8, 15, 25, 40, 60])
    ops = again(rng, [density.gen_op(rng, objs) for _ in range(n)], ("set_initial", "set_observed"))
    return {"objs": objs, "ops": ops}


def execute(plan, res):
    seen, trivial = set(), True
    for op in plan["ops"]:
        if op["op"] in ("mud", "estimate", "expected", "plot_param", "plot_obs"):
            seen.add(op["o"])
        elif op["op"].startswith("set_") and op["o"] in seen:
            trivial = False
    res.nontrivial = not trivial
    res.probes["setting changed after an estimate"] += not trivial
    res.probes["several objects"] += len(plan["objs"]) > 1
    density.execute(plan, res)


simplify = density.simplify
