#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": SIM + "seeded arrival schedules of delayed measurements against the exact conditional Gaussian",
    "C02": SIM + "seeded schedules of the whole fusion node, refinement of an executable estimator model",
    "C03": SIM + "seeded clock, timer, stall and crash faults on the fusion node, progress and stamp invariants",
    "C04": SIM + "seeded message corruption, paired runs with and without corrupt messages, recovery",
    "C05": SIM + "seeded schedules, covariance invariants per output and paired runs with more and fewer measurements",
    "C06": SIM + "seeded schedules, every use of a measurement accounted for against a batch estimator",
    "C07": SIM + "seeded transform and initial-pose schedules, hypothesis tracking against an estimator model",
    "C08": SIM + "seeded schedules simulated on two maps, equivariance of the outputs",
    "C09": SIM + "seeded thread interleavings and message faults on the mapping node, map against a reference",
    "C10": SIM + "injected system call failures and power loss during map saving, recovery read against the map",
    "C11": SIM + "seeded delivery schedules on the localization node, pairing and prior choice against replays in fresh nodes",
    "C12": SIM + "seeded thread interleavings at every lock operation, linearizability against a sequential model",
    "C13": SIM + "seeded scan streams under message faults, output contract and paired runs",
    "C14": SIM + "seeded pose streams, crashes and late joiners on the path generator, history against a reference",
    "C15": SIM + "seeded start orders, restarts and bad files, late joiner contract",
    "C16": SIM + "whole system wired as launched under seeded network, stall and crash faults, bounded recovery",
    "C17": SIM + "seeded scan streams through the extraction node against an independent reference of the rules",
    "C18": SIM + "seeded streams of clouds in random layouts through the Python converter node, compared with what "
           "the generator put into them",
}
NOTE = {
    "default": "seeded random search over schedules and faults of the real node code on a simulated ROS 2; "
               "a clean batch is evidence, not proof",
}
NOT_APPLICABLE = {
    "C19": "closed formulas without state, time, concurrency or I/O: nothing for a simulator to schedule or to fault",
    "C20": "a pure function of its argument list without state, time, concurrency or I/O; no node of the repository "
           "runs it",
}


def main():
    import sys
    sys.path.insert(0, os.path.join(V, "checks"))
    import run_check
    checks = []
    for cid in sorted(CHECKS):
        if not os.path.exists(os.path.join(V, "checks", run_check.CHECKS[cid][0])):
            continue
        checks.append({
            "property": cid,
            "quick_cmd": "python3 checks/run_check.py %s quick" % cid,
            "thorough_cmd": "python3 checks/run_check.py %s thorough" % cid,
            "technique": CHECKS[cid],
            "level": "exploration",
            "level_note": NOTE.get(cid, NOTE["default"]),
        })
    na = [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())]
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks")


if __name__ == "__main__":
    main()
