"""python -m dst check ID | replay FILE | selftest [ID ...] | run ID INDEX | list"""
import argparse
import importlib
import json
import os
import pkgutil
import subprocess
import sys
import time
import traceback

from . import core, env, faults

def registry():
    from . import props

    env.load()
    out = {}
    for m in pkgutil.iter_modules(props.__path__):
        mod = importlib.import_module("dst.props." + m.name)
        for p in getattr(mod, "PROPERTIES", []):
            out[p.id] = p
    return out


def seam_for(pid):
    """Properties about recordings and configuration files run on the simulated disk."""
    if pid[0] in "DCEP":
        faults.ensure_preloaded(sys.argv[1:])


def cores():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception:
        return 4


def known_findings():
    """[(property, match text)] of recorded, unrepaired findings (there may be none)."""
    out = []
    path = os.path.join(env.VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                out.append(d)
    return out


def evidence(prop, tier, master, total, wall, nviol, extra):
    st = total["stats"]
    fault_counts = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("probe:")}
    counts = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("count:")}
    stuck = sorted(p for p in getattr(prop, "expected_probes", ()) if not probes.get(p))
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(total["sigs"]),
        "rule": prop.rule,
        "samples": sorted(total["samples"], key=lambda s: s["index"])[:2],
        "seeds": total["runs"],
        "simulated_runs_per_hour": int(total["runs"] / max(wall, 1e-3) * 3600),
        "simulated_seconds_covered": round(total["sim_ms"] / 1000.0, 3),
        "oracle_checks": st.get("checks", 0),
        "faults_injected": fault_counts,
        "probes": probes,
        "probes_never_hit": stuck,
        "counters": counts,
        "distinct_states": len(total["states"]),
        "distinct_states_measure": "hash of the model state reached after an operation (property-specific), over all runs",
        "distinct_interleavings_measure": "distinct_nontrivial counts distinct (operation, schedule, fault) signatures among runs in which a fault fired or a preemption happened",
        "runs_discarded": st.get("discarded", 0),
        "real_code": prop.real,
        "stubs": prop.stubs,
        "workers": extra.get("workers"),
    }
    cov.update(extra.get("coverage", {}))
    d = {"property": prop.id, "tier": tier, "seed": master, "level": getattr(prop, "level", "exploration"), "coverage": cov,
         "wall_s": round(wall, 2), "violations": nviol, "assumptions": list(prop.assumptions)}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(env.VERIF, "evidence", prop.id + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
    os.replace(path + ".tmp", path)


def matches_finding(f, pid, kind, detail):
    return f["property"] == pid and f["kind"] == kind and f.get("contains", "") in detail


def settle(prop, master, tier, i, nw, kind, detail):
    """(replay file, whether it replays, detail) of a violation seen in run i."""
    plan = core.make_plan(prop, master, i, tier)
    name = "%s-seed%d-run%d" % (prop.id, master, i)

    def alone():
        path = core.write_replay(prop, plan, kind, detail, name + ".json")
        try:
            small, execs = core.minimise(prop, plan, kind, budget_s=45 if tier == "quick" else 120)
            run, v = prop.run_plan(small)
            if v and v[0] == kind:
                mp = core.write_replay(prop, small, kind, v[1], name + "-min.json")
                ok, out = core.replay_in_fresh_process(mp)
                print("minimised in %d executions, replays in a fresh process: %s" % (execs, ok))
                if ok:
                    return mp, True, v[1]
        except core.HarnessError:
            traceback.print_exc()
        ok, out = core.replay_in_fresh_process(path)
        print("unminimised replay in a fresh process: %s" % ok)
        if not ok:
            print(out)
        return path, ok, detail

    path, ok, why = core.in_child(alone) or ("", False, detail)
    if ok:
        return path, ok, why
    # alone it does not happen: something an earlier run left in the process is part of it
    got = core.history_for(prop, master, tier, i, nw, plan)
    if got is None:
        return path, False, detail
    hist, k, d = got
    path = core.in_child(lambda: core.write_replay(prop, plan, k, d, name + "-history.json", hist)) or path
    ok, out = core.replay_in_fresh_process(path)
    print("after %d earlier runs in the same process, replays in a fresh process: %s" % (len(hist), ok))
    return path, ok, d


def check(pid, tier, master, runs=None, wall=None, workers=None, confirm=True):
    seam_for(pid)
    prop = registry()[pid]
    t0 = time.time()
    nw = workers or cores()
    nruns = runs or (prop.quick_runs if tier == "quick" else prop.thorough_runs)
    budget = wall or (prop.quick_wall if tier == "quick" else prop.thorough_wall)
    prop.before_batch()
    print("seed=%d property=%s tier=%s runs<=%d wall<=%ds workers=%d" % (master, pid, tier, nruns, budget, nw))
    sys.stdout.flush()
    total = core.run_batch(prop, master, tier, nruns, budget, nw)
    findings = known_findings()
    fresh, seen = [], set()
    for i, kind, detail in sorted(total["violations"]):
        hit = [f for f in findings if matches_finding(f, pid, kind, detail)]
        if hit:
            for f in hit:
                if f["what"] not in seen:
                    seen.add(f["what"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        else:
            fresh.append((i, kind, detail))
    wall_s = time.time() - t0
    extra = {"workers": nw}
    status = 0
    if fresh:
        i, kind, detail = fresh[0]
        print("violation in run %d: %s\n%s" % (i, kind, core.short(detail, 1500)))
        sys.stdout.flush()
        path, confirmed, detail = settle(prop, master, tier, i, nw, kind, detail)
        wall_s = time.time() - t0
        evidence(prop, tier, master, total, wall_s, len(fresh), extra)
        if not confirmed and confirm:
            print("HARNESS-ERROR: violation of %s does not replay; not reported" % pid)
            return 2
        print("detail: " + core.short(detail, 1200))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    evidence(prop, tier, master, total, wall_s, 0, extra)
    if total["errors"]:
        for e in total["errors"][:3]:
            print("HARNESS-ERROR run %s: %s" % (e[0], core.short(e[1], 3000)))
        return 2
    if total["runs"] == 0:
        print("HARNESS-ERROR: no run finished")
        return 2
    st = total["stats"]
    print("ok property=%s runs=%d distinct=%d discarded=%d checks=%d wall=%.1fs" % (
        pid, total["runs"], len(total["sigs"]), st.get("discarded", 0), st.get("checks", 0), wall_s))
    print("  " + " ".join("%s=%d" % (k, v) for k, v in sorted(st.items()) if k.startswith(("fault:", "probe:"))))
    return status


def replay(path):
    d = json.load(open(path))
    seam_for(d["property"])
    prop = registry()[d["property"]]
    for h in d.get("history", ()):
        prop.run_plan(h)
    run, v = prop.run_plan(d["plan"], record=True)
    same = run.h.hexdigest() == d["digest"]
    if v is None:
        print("replay: no violation (recorded: %s)" % d["kind"])
        return 0
    print("replay: %s\n%s\nsame event log as recorded: %s" % (v[0], core.short(v[1], 1500), same))
    if v[0] != d["kind"]:
        print("replay: a different violation than the recorded %s" % d["kind"])
        return 3
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def digests(pid, master, n, workers):
    seam_for(pid)
    prop = registry()[pid]
    prop.before_batch()
    total = core.run_batch(prop, master, "quick", n, 600, workers, keep_digests=range(n))
    print(json.dumps({"digests": total["digests"], "errors": total["errors"],
                      "violations": total["violations"]}))
    return 0


def selftest(ids, n, master):
    """Determinism: the same seeds in several interpreters, hash seeds and worker counts."""
    reg = registry()
    bad = 0
    for pid in ids or sorted(reg):
        seen = None
        for hs, w in (("0", 1), ("1", 3), ("777", 8), ("random", 5)):
            e = dict(os.environ, PYTHONHASHSEED=hs)
            p = subprocess.run([sys.executable, "-m", "dst", "digests", pid, "--n", str(n), "--workers", str(w),
                                "--seed", str(master)], cwd=env.VERIF, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
            try:
                d = json.loads(p.stdout.decode().strip().splitlines()[-1])
            except Exception:
                print("selftest %s: no output: %s" % (pid, p.stderr.decode()[-1500:]))
                bad += 1
                break
            if d["errors"]:
                print("selftest %s: errors %s" % (pid, core.short(d["errors"], 1500)))
                bad += 1
            g = d["digests"]
            if seen is None:
                seen = g
            elif g != seen:
                diff = [k for k in seen if g.get(k) != seen[k]]
                print("selftest %s: NOT deterministic (hashseed %s, %d workers): runs %s" % (pid, hs, w, diff[:10]))
                bad += 1
        else:
            print("selftest %s: %d runs identical in 4 interpreters / worker counts / hash seeds" % (pid, len(seen)))
        sys.stdout.flush()
    return 1 if bad else 0


def main(argv):
    ap = argparse.ArgumentParser(prog="dst")
    sub = ap.add_subparsers(dest="cmd")
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier", default=None)
    c.add_argument("--seed", type=int, default=None)
    c.add_argument("--runs", type=int)
    c.add_argument("--wall", type=float)
    c.add_argument("--workers", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    d = sub.add_parser("digests")
    d.add_argument("id")
    d.add_argument("--n", type=int, default=40)
    d.add_argument("--workers", type=int, default=4)
    d.add_argument("--seed", type=int, default=1)
    s = sub.add_parser("selftest")
    s.add_argument("ids", nargs="*")
    s.add_argument("--n", type=int, default=40)
    s.add_argument("--seed", type=int, default=1)
    o = sub.add_parser("run")
    o.add_argument("id")
    o.add_argument("index", type=int)
    o.add_argument("--seed", type=int, default=1)
    o.add_argument("--tier", default="quick")
    sub.add_parser("list")
    sub.add_parser("setup")
    a = ap.parse_args(argv)
    os.makedirs(env.REPLAYS, exist_ok=True)
    os.makedirs(env.BUILD, exist_ok=True)
    try:
        if a.cmd == "check":
            tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
            seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
            return check(a.id, tier, seed, a.runs, a.wall, a.workers)
        if a.cmd == "replay":
            return replay(a.file)
        if a.cmd == "digests":
            return digests(a.id, a.seed, a.n, a.workers)
        if a.cmd == "selftest":
            return selftest(a.ids, a.n, a.seed)
        if a.cmd == "run":
            seam_for(a.id)
            prop = registry()[a.id]
            plan = core.make_plan(prop, a.seed, a.index, a.tier)
            print(json.dumps(plan))
            run, v = prop.run_plan(plan, record=True)
            print("\n".join(run.log))
            print(dict(run.stats))
            print(v)
            return 1 if v else 0
        if a.cmd == "setup":
            print(faults.build_shim())
            print("%d checks" % len(registry()))
            return 0
        if a.cmd == "list":
            for k, p in sorted(registry().items()):
                print(k, (p.__doc__ or "").strip().split("\n")[0])
            return 0
    except core.HarnessError:
        traceback.print_exc()
        return 2
    ap.print_help()
    return 2
