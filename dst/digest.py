"""Print the event-log digest of run I of a property, running its chunk afresh."""
import os
import shutil
import sys
import tempfile

from . import core


def main():
    pid, tier, seed, i, count = sys.argv[1], sys.argv[2], *map(int, sys.argv[3:6])
    scratch = tempfile.mkdtemp(prefix="mudsim.")
    try:
        os.chdir(scratch)
        core.quiet_env()
        prop = core.load_prop(pid)
        if getattr(prop, "IMPORT_MUD", True):
            core.import_mud()
            getattr(prop, "warm_up", lambda: None)()
        s = core.Search(pid, tier, seed, scratch, workers=1, count=count)
        plans = s.chunk_plans(i // s.chunk)[: i % s.chunk + 1]
        kind, out = core.session(pid, plans, os.path.join(scratch, "d"))
        print(out[-1]["digest"] if kind == "ok" else kind)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
