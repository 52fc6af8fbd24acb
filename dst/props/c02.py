"""C02 a failed or interrupted density update never mixes settings."""
from .. import density
from ..common import again

RUNS = {"quick": 4000, "thorough": 60000}
CHUNK = 50
RULE = (
    "One run: the workload of C01 with about a third of the calls hit by a fault: an exception "
    "(error, MemoryError, LinAlgError) out of the k-th density evaluation or kernel estimate of "
    "the call, invalid weights, a kernel estimate that fails on degenerate data, or an "
    "asynchronous interruption at the n-th executed line of mud code. Non-trivial: a fault fired."
)
STEP = "one call on a problem object"
MEASURE = "distinct event logs (call sequence over objects with faults and outcomes)"
REAL = ["mud.base.DensityProblem", "mud.util", "mud.plot", "scipy.stats", "matplotlib (Agg)"]
STUB = ["distributions and gaussian_kde wrapped so that the k-th evaluation can raise"]
ASSUMPTIONS = [
    "after a failed call every combination of old, new and (predicted only) default settings "
    "the property allows is accepted; later estimates must all fit one of them",
    "an interrupted call is repeated at once, as the property says",
]
PROBES = ["ambiguity resolved by an estimate", "failed set_predicted", "failed mud",
          "interrupted in fit", "interrupted in set_weights", "interrupted in set_predicted", "curves compared"]

OPS = dict(density.OPS, fit=3, plot_param=1, plot_obs=1)


def generate(rng, i, tier):
    objs = density.gen_objs(rng, rng.choice([1, 1, 2]))
    for o in objs:
        if rng.random() < 0.06:
            o["constant_y"] = True
    n = rng.choice([5, 10, 16, 24] if tier == "quick" else [8, 16, 30, 45])
    ops = again(rng, [density.gen_op(rng, objs, OPS) for _ in range(n)], ("set_initial", "set_observed"))
    for op in ops:
        if op["op"] == "noise" or rng.random() > 0.4:
            continue
        r = rng.random()
        if r < 0.45:
            op["fault"] = {"kind": "error", "at": rng.choice([0, 0, 0, 1, 1, 2, 3, 5]),
                           "error": rng.choice(["injected", "memory", "linalg", "value"]),
                           "retry": rng.random() < 0.4}
            if op["op"].startswith("set_") and rng.random() < 0.5:
                look = ["expected", "plot_obs", "plot_param", "mud"]
                rng.shuffle(look)
                op["fault"]["look"] = look[:rng.choice([2, 3, 4])]
        elif r < 0.6 and op["op"] in ("set_weights", "set_predicted", "fit"):
            if op["op"] == "fit":
                op.setdefault("dist", None)
            op["fault"] = {"kind": "weights", "extra": rng.choice([1, -1, 5, 0]),
                           "seed": rng.randrange(2**31)}
        else:
            op["fault"] = {"kind": "interrupt", "at": rng.randrange(0, 40)}
    return {"objs": objs, "ops": ops, "strict": tier == "thorough"}


def execute(plan, res):
    density.execute(plan, res)
    res.nontrivial = bool(res.faults)


simplify = density.simplify
