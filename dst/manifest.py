"""python -m dst.manifest: writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os

from . import cli, env

TECH = "deterministic simulation with fault injection: seeded search over "
WHAT = {
    "M01": "operation histories with restarts and rejected calls, against a reference model",
    "M02": "operation histories with failing allocations, against a reference model",
    "M03": "thread schedules (random and PCT) preempting at source lines",
    "M04": "operation histories with crashes and overwritten storage, against a reference model",
    "M05": "operation histories with looks, failing allocations and interrupted reads, gradients against difference quotients of the plain history",
    "F01": "operation histories with restarts and rejected calls, against a reference model",
    "F02": "operation histories with failing allocations and interruptions, against a reference model",
    "F04": "histories of frames and the maps cut from them with failing allocations and interruptions, against a reference model",
    "F03": "thread schedules (random and PCT) preempting at source lines",
    "D01": "simulated sensor clocks and message faults, association rules checked on the recorded history",
    "D02": "loader histories, worker crashes and thread schedules on a simulated disk, against the recorded ground truth",
    "D03": "disk error placements on a simulated disk, against the recorded ground truth",
    "D04": "recorder crash points and torn files, against the surviving bytes",
    "D05": "directory orders of a simulated disk",
    "D06": "simulated sensor clocks, message faults and disk errors, association rules checked on the recorded history",
    "S01": "crash points and resumptions of whole mapping sessions, refinement against the uninterrupted session",
    "S02": "sensor faults in batched sessions, refinement against single sessions",
    "S03": "thread schedules and step interleavings of sessions sharing a mapper, refinement against separate sessions",
    "S04": "allocation failures and crash points inside a mapping step, bitwise comparison of inputs",
    "S05": "sensor fault sequences, step-by-step refinement against a float64 reference model of the fusion rule",
    "S06": "sensor fault sequences, history check of map and poses against the recorded frames",
    "S07": "sensor outage sequences, invariants during and bounded recovery after the outage",
    "S08": "re-anchoring histories of sessions with sensor faults and restarts, refinement against the session left in its frame",
    "S09": "pose disturbances, outages and restarts in tracked sessions, bounded recovery once the view is good",
    "S10": "session histories with failing allocations, crashes, looks and cuts, gradients against difference quotients of the plain session",
    "S11": "frame forms over whole sessions with failing allocations, crashes and restores, refinement against the plain session",
    "O01": "call histories with failing allocations, crashes and restarts, refinement against single calls on new providers",
    "E01": "interleavings of mapping processes with disk errors, crash points and restarts over simulated recordings, against the simulated room",
    "V01": "histories of operations and exports with failing allocations, crashes and thread schedules, against a reference model",
    "P02": "helper calls under fault injection, thread schedules and call histories in forked processes, refinement against each call made alone in a fresh process and against a numpy model",
    "P01": "process histories: runs of the other properties, faults included, before and after one another in forked processes, refinement against a process that did nothing else",
    "C01": "operation histories with disk errors, damaged files, crashes and thread schedules, against a reference model",
}
NOTE = {
    "S": "Real mapper, odometry, map and frame code on a simulated camera; comparisons at float32 tolerance, and a disagreement counts only if the "
         "reference result survives perturbations far below sensor precision.",
    "O": "Real providers and solvers on simulated views; single calls of the same code as reference, tied decisions set aside; error of the result judged in float64.",
    "M": "Real map code; values compared with a float64 model at float32/float64 tolerance after every operation.",
    "F": "Real frame code; values compared with a float64 model; normals only where well conditioned.",
    "D": "Real loaders reading real files through an interposed disk; expected data computed from the simulated recording, not from the loaders.",
    "E": "Real loaders, DataLoader, frame, map and mapper code on a recording of a simulated room; the truth is the room's geometry, not another run of the code.",
    "V": "Real export code and image codec; open3d replaced by a holder of the arrays it is given; images compared within what compression loses.",
    "P": "Runs of the other properties with their real code and stubs; event logs compared exactly, process-wide settings by value.",
    "C": "Real configuration code, files read through the interposed disk; type-exact comparison with a model after every operation.",
}
NA = {
    "N01": "pure functions of their arguments: no concurrency, time, I/O, state or other party whose nondeterminism a simulator could control; this family has nothing to decide there",
    "N02": "pure functions of their arguments; nothing for a simulator to schedule or fail (their effect inside sessions is covered by M01, F01, S05 and S06, single calls in histories by P02)",
    "N03": "a numerical property of a pure function of two point sets; sessions built on it are checked by S01-S03, S06 and S07",
}


def main():
    reg = cli.registry()
    checks = []
    for pid in sorted(reg):
        checks.append({
            "property": pid,
            "quick_cmd": "/opt/venv/bin/python -m dst check %s --tier quick" % pid,
            "thorough_cmd": "/opt/venv/bin/python -m dst check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TECH + WHAT[pid],
            "level": getattr(reg[pid], "level", "exploration"),
            "level_note": "Sampled, not exhaustive: holds on every simulated run explored. " + NOTE[pid[0]],
        })
    d = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m dst setup",
        "hooks": {"guard": "none", "enable": "no hooks were needed in /repo: seams are torch's dispatcher, sys.settrace, an LD_PRELOAD disk shim and threading.Lock",
                  "source_commits": []},
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
        "notes": "Every check imports gradslam from /repo's working tree. Replay a failure: /opt/venv/bin/python -m dst replay FILE. Determinism: python -m dst selftest.",
    }
    with open(os.path.join(env.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
