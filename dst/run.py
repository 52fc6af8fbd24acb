"""Check one property: python -m dst.run C01   (VERIF_SEED, VERIF_TIER)"""
import json
import os
import shutil
import sys
import tempfile
import time

from . import core


def evidence(pid, tier, seed, prop, s, wall, violations, extra):
    rate = 3600.0 / max(s.search_s, 1e-9)
    cov = {
        "evaluations": s.runs,
        "distinct_nontrivial": len(s.shapes),
        "rule": prop.RULE,
        "samples": s.samples,
        "simulated_runs_per_hour": int(s.runs * rate),
        "seeds_per_hour": int(s.runs * rate),
        "simulated_time": f"{s.steps} logical steps ({prop.STEP})",
        "faults_injected": dict(sorted(s.faults.items())),
        "operations": dict(sorted(s.ops.items())),
        "probes": dict(sorted(s.probes.items())),
        "distinct_measure": prop.MEASURE,
        "real_components": prop.REAL,
        "stub_components": prop.STUB,
        "runs_planned": s.count,
        "cut_by_budget": s.cut,
    }
    cov.update(extra)
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    os.makedirs(os.path.join(core.HERE, "evidence"), exist_ok=True)
    path = os.path.join(core.HERE, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as fp:
        json.dump(doc, fp, indent=1, default=str)
        fp.write("\n")
    os.replace(path + ".tmp", path)


def determinism(pid, s, scratch):
    """Re-run sampled chunks in fresh interpreters with other hash seeds and
    compare event-log digests with those of the search."""
    import subprocess

    wanted = sorted(s.digests)[:: max(1, len(s.digests) // 4)][:4]
    checked = diverged = 0
    for n, i in enumerate(wanted):
        env = dict(
            os.environ, PYTHONHASHSEED=str(101 + n), PYTHONPATH=core.HERE
        )
        p = subprocess.run(
            [
                core.PYTHON, "-m", "dst.digest", pid, s.tier, str(s.seed), str(i),
                str(s.count),
            ],
            cwd=core.HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            text=True,
        )
        checked += 1
        if p.stdout.strip() != s.digests[i]:
            diverged += 1
    return {"replayed_in_fresh_interpreters": checked, "diverged": diverged}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    print(f"{pid}: VERIF_SEED={seed} tier={tier}", flush=True)
    scratch = tempfile.mkdtemp(prefix="mudsim.")
    code = 2
    try:
        os.chdir(scratch)
        core.quiet_env()
        prop = core.load_prop(pid)
        if getattr(prop, "IMPORT_MUD", True):
            core.import_mud()
            getattr(prop, "warm_up", lambda: None)()
        count = int(os.environ["MUDSIM_RUNS"]) if os.environ.get("MUDSIM_RUNS") else None
        workers = int(os.environ.get("MUDSIM_WORKERS", "8"))
        s = core.Search(pid, tier, seed, scratch, workers=workers, count=count)
        for i in (0, s.count // 2):
            s.samples.append(s.plan(i))
        found = s.run()
        listed = core.known_findings(pid)
        unlisted = [k for k in s.known if k not in listed]
        for k in sorted(s.known):
            if k in listed:
                print(f"KNOWN-FINDING: property={pid} {k}: {listed[k]}", flush=True)
        if s.errors and not found:
            print(f"{pid}: harness error:\n" + "\n".join(s.errors), file=sys.stderr)
            evidence(pid, tier, seed, prop, s, time.monotonic() - t0, 0,
                     {"harness_errors": s.errors[:3]})
            return 2
        if found:
            code = report(pid, s, found, scratch)
            evidence(pid, tier, seed, prop, s, time.monotonic() - t0, 1, {})
            return code
        assert not unlisted, unlisted
        det = determinism(pid, s, scratch)
        extra = {"determinism": det}
        extra.update(getattr(prop, "extra_coverage", lambda: {})())
        missing = [p for p in getattr(prop, "PROBES", []) if not s.probes.get(p)]
        if missing:
            extra["probes_never_hit"] = missing
        evidence(pid, tier, seed, prop, s, time.monotonic() - t0, 0, extra)
        print(
            f"{pid}: held on {s.runs} simulated runs ({len(s.shapes)} distinct),"
            f" faults {dict(s.faults)}, {s.steps} steps,"
            f" {time.monotonic() - t0:.1f} s, determinism {det}",
            flush=True,
        )
        if missing:
            print(f"{pid}: probes never hit: {missing}")
        if s.runs == 0:
            return 2
        code = 0
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def report(pid, s, found, scratch):
    c, j, plans, packed = found
    if plans is None:
        plans = s.chunk_plans(c)[: j + 1]
        cls = packed["violation"][0]
    else:  # the whole chunk hung
        cls = "no-progress"
        for n in range(len(plans)):
            d = os.path.join(scratch, f"h{n}")
            kind, out = core.session(pid, [plans[n]], d)
            if kind == "hang" or core.same(kind, out, cls):
                plans = [plans[n]]
                break
    heavy = getattr(s.prop, "MINIMISE", (90.0, 400))
    m = core.Minimiser(pid, cls, scratch, *heavy)
    small = m.minimise(plans) if cls != "no-progress" else plans[-1:]
    kind, out = core.session(pid, small, os.path.join(scratch, "final"))
    if not core.same(kind, out, cls):
        small = plans
        kind, out = core.session(pid, small, os.path.join(scratch, "final2"))
    if kind == "ok" and out and out[-1]["violation"]:
        packed = out[-1]
    if packed is None:
        packed = {"violation": [cls, "run hangs", None], "digest": "", "tail": []}
    path = os.path.join(core.HERE, "replays", f"{pid}-seed{s.seed}-run{small[-1]['run']}.json")
    core.write_replay(pid, small, packed, path)
    try:
        rc, text = core.replay_fresh(path)
    except Exception as e:  # a hanging replay is its own confirmation
        rc, text = 1, str(e)
    print(f"{pid}: {packed['violation'][0]}: {packed['violation'][1]}")
    n = len(small[-1].get("ops", []))
    print(f"{pid}: minimised to {len(small)} run(s), {n} operation(s) in {m.tried} trials; "
          f"replay in a fresh process {'reproduces it' if rc == 1 else 'gave exit %d' % rc}")
    for line in packed["tail"]:
        print("   ", line[:300])
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
