"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TECH = {
    "C01": "deterministic simulation: seeded worker schedules against a sequential reference model",
    "C02": "deterministic simulation with fault injection in workers, IPC and the caller",
    "C03": "deterministic simulation with fault injection, state comparison and retry",
    "C04": "deterministic simulation: interruption at seeded points, then continuation to convergence",
    "C05": "deterministic simulation with faults; conservation invariants at every iteration",
    "C06": "deterministic simulation with faults; energies recomputed from state at every iteration",
    "C07": "deterministic simulation with faults; mirror invariants at every iteration, undeclared twin run",
    "C08": "deterministic simulation of several caller threads with line-level preemption and faults",
    "C09": "deterministic simulation of inversions with solver faults and histories; independent residuals",
    "C10": "deterministic simulation with stalls and option histories; bounded termination and own convergence measure",
    "C11": "deterministic simulation with interrupts and faults at every crossing and line; world fingerprints",
    "C12": "deterministic simulation of operation histories with worker faults against dense diagonalisation",
    "C13": "deterministic simulation of git (processes, pipes, file system) with fault injection at every call",
    "C14": "deterministic simulation of files and conda with fault injection at every operation",
    "C15": "deterministic simulation of run histories with faults; potentials recomputed at every iteration",
}
NOTE = {
    "exploration": "Seeded search over schedules, histories and faults; a clean batch is evidence, not proof. ",
    "fault_enumeration": "Seeded search with one or two faults at crossings the workload really has; a clean batch is evidence, not proof. ",
}
PURE = "a pure function of its input: no schedule, clock, fault or history for a simulation to decide anything about"
NA = {
    "N01": f"Operators and quadrature are {PURE}.",
    "N02": f"The Hartree potential is {PURE}.",
    "N03": f"An exchange-correlation potential is {PURE} (and the real libxc is not installed here).",
    "N04": f"Option validation is {PURE}.",
    "N05": f"Grid convergence is {PURE}; it would be numerical analysis over grids, not over executions.",
    "N06": f"The response matrix is {PURE}.",
}


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
            m = importlib.import_module("props." + pid.lower())
            checks.append({
                "property": pid,
                "quick_cmd": f"bin/check {pid} --tier quick",
                "thorough_cmd": f"bin/check {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH[pid],
                "level": m.LEVEL,
                "level_note": NOTE[m.LEVEL] + getattr(m, "LEVEL_NOTE", "") + "Assumes: " + "; ".join(m.ASSUME) + ".",
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "Check not built yet.")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: every seam is an imported library that the simulator replaces before the package is imported."},
                  f, indent=1)
        f.write("\n")


main()
