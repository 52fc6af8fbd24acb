"""Run one seeded target in this new interpreter: python -m dst.fresh PLAN OUT"""
import json
import pickle
import sys

from . import core


def main():
    with open(sys.argv[1]) as fp:
        plan = json.load(fp)
    core.quiet_env()
    core.import_mud()
    from . import targets

    targets.DATA.update(plan["data"])
    seed = plan["key"]
    if plan["numpy_seed"]:
        import numpy as np

        seed = np.int64(seed)
    out = targets.run(plan["target"], seed)
    with open(sys.argv[2], "wb") as fp:
        pickle.dump(out, fp)


if __name__ == "__main__":
    main()
