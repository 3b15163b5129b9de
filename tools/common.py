"""Shared by the orchestrating checks: evidence, verdicts, replay files."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.path.join(ROOT, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()


def write_evidence(pid, coverage, violations, assumptions=()):
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(
            {
                "property": pid,
                "tier": "thorough" if TIER == "thorough" else "quick",
                "seed": SEED,
                "level": "exploration",
                "coverage": coverage,
                "assumptions": list(assumptions),
                "wall_s": round(time.time() - T0, 3),
                "violations": violations,
            },
            f,
            indent=1,
        )
        f.write("\n")


def violation(pid, name, text):
    d = os.path.join(EV, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{SEED}-{name}.txt")
    with open(path, "w") as f:
        f.write(text + "\n")
    print(f"VIOLATION property={pid} replay={path}")
    print("   " + text[:1500].replace("\n", "\n   "))
    sys.stdout.flush()
