#!/usr/bin/env python3
"""Runtime monitors for the Python port (C31-C33). Usage: run.py ID [--case N]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYS = ["/opt/vp/venv/bin/python", "/opt/veriftools/pyvenv/bin/python", "/usr/bin/python3"]


def reexec():
    import subprocess

    for p in PYS:
        if os.path.exists(p) and subprocess.run([p, "-c", "import numpy"], capture_output=True).returncode == 0:
            env = dict(os.environ, ELLMON_PY="1", PYTHONPATH=os.path.join(REPO, "python_ai"),
                       PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            os.execve(p, [p, os.path.abspath(__file__)] + sys.argv[1:], env)
    print("no python with numpy")
    sys.exit(2)


if os.environ.get("ELLMON_PY") != "1":
    reexec()

sys.path.insert(0, os.path.join(os.path.dirname(HERE), "tools"))
sys.path.insert(0, HERE)
import faulthandler  # noqa: E402
import random  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

import common  # noqa: E402


class Case:
    def __init__(self, pid, idx, seed, tot):
        self.rng = random.Random(f"{pid}/{seed}/{idx}")
        self.idx = idx
        self.tot = tot
        self.viol = []

    def ev(self, k, n=1):
        self.tot["events"][k] = self.tot["events"].get(k, 0) + n

    def eval(self, key):
        self.tot["evals"] += 1
        if len(self.tot["sigs"]) < 2_000_000:
            self.tot["sigs"].add(hash(key))

    def check(self, ok, msg):
        if not ok:
            self.viol.append(msg() if callable(msg) else msg)
        return ok

    def sample(self, f):
        if len(self.tot["samples"]) < 4 and self.idx % 7 == 0:
            self.tot["samples"].append(f())

    def known(self, key, msg):
        self.tot["known"].setdefault(key, [0, msg])[0] += 1


def load_known(pid):
    out = {}
    p = os.environ.get("VERIF_KNOWN", os.path.join(os.path.dirname(HERE), "known_findings.txt"))
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={pid} key="):
                rest = line.split("key=", 1)[1]
                k, _, d = rest.strip().partition(" ")
                out[k] = d
    return out


def main():
    pid = sys.argv[1]
    only = int(sys.argv[sys.argv.index("--case") + 1]) if "--case" in sys.argv else None
    faulthandler.dump_traceback_later(840, exit=True)
    thorough = common.TIER == "thorough"
    try:
        import monitors
    except Exception:
        # the port does not import: nothing can be decided
        traceback.print_exc()
        sys.exit(2)
    m = monitors.SPECS[pid]
    n = m["thorough"] if thorough else m["quick"]
    cap = 700 if thorough else 240
    tot = dict(evals=0, sigs=set(), events={}, samples=[], known={})
    bad = []
    done = 0
    for idx in range(n) if only is None else [only]:
        if time.time() - common.T0 > cap:
            break
        c = Case(pid, idx, common.SEED, tot)
        try:
            m["f"](c)
        except Exception:
            c.viol.append("unexpected exception:\n" + traceback.format_exc())
        done += 1
        for v in c.viol[:1]:
            bad.append((idx, v))
        if len(bad) >= 5:
            break
    rc = 0
    listed = load_known(pid)
    for k, (cnt, msg) in sorted(tot["known"].items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {k}: {listed[k]} (observed {cnt} times; e.g. {msg[:300]})")
        else:
            bad.append((k, msg))
    nkn = sum(c for k, (c, _) in tot["known"].items() if k in listed)
    for idx, v in bad:
        common.violation(pid, str(idx), f"case {idx} (replay: VERIF_SEED={common.SEED} bash check.sh {pid} --case {idx})\n{v}")
        rc = 1
    if rc == 0 and only is None:
        for k, need in m["need"]:
            if tot["events"].get(k, 0) < need:
                print(f"INCONCLUSIVE {pid}: event {k} observed {tot['events'].get(k, 0)} times, need {need}")
                rc = 3
    common.write_evidence(pid, dict(
        evaluations=tot["evals"], distinct_nontrivial=len(tot["sigs"]), rule=m["rule"], samples=tot["samples"] or ["-"],
        cases=done, cases_planned=n, events_observed=tot["events"], known_finding_observations=nkn,
        interpreter=sys.executable), len(bad), m["assumptions"])
    print(f"{pid}: {done} cases, {tot['evals']} evaluations, {len(tot['sigs'])} distinct, {len(bad)} violations")
    sys.exit(rc)


main()
