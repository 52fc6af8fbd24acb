"""Replay a file: python -m dst.replay FILE   (exit 1: reproduced exactly,
0: the property holds now, 2: it fails differently)"""
import json
import os
import shutil
import sys
import tempfile

from . import core


def main():
    path = os.path.abspath(sys.argv[1])
    with open(path) as fp:
        doc = json.load(fp)
    pid = doc["property"]
    scratch = tempfile.mkdtemp(prefix="mudsim.")
    try:
        os.chdir(scratch)
        core.quiet_env()
        prop = core.load_prop(pid)
        if getattr(prop, "IMPORT_MUD", True):
            core.import_mud()
            getattr(prop, "warm_up", lambda: None)()
        kind, out = core.session(pid, doc["session"], os.path.join(scratch, "r"))
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    want = doc["violation"]["class"]
    if core.same(kind, out, want):
        exact = kind == "hang" or out[-1]["digest"] == doc["digest"]
        msg = out[-1]["violation"][1] if kind == "ok" else "hang"
        print(f"reproduced {want}: {msg}")
        print("event log identical" if exact else "event log differs in detail")
        for line in out[-1]["tail"] if kind == "ok" else []:
            print("   ", line[:300])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if kind == "ok" and out and not out[-1]["violation"]:
        print("the property holds on this replay")
        return 0
    print("fails differently:", kind, out[-1]["violation"] if out and kind == "ok" else out)
    return 2


if __name__ == "__main__":
    sys.exit(main())
