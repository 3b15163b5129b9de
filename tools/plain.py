"""Second pass of a monitor in the build a user ships (no debug assertions, no overflow checks), on fresh seeds,
so that what only the optimised build does is observed too. Its counts are added to the property's evidence."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.path.join(ROOT, "evidence")
pid = sys.argv[1]
scale = sys.argv[2]
b = subprocess.run(
    ["cargo", "build", "--profile", "plain", "--offline", "--locked"],
    cwd=os.path.join(ROOT, "harness"), capture_output=True, text=True)
if b.returncode:
    print("\n".join(l for l in b.stderr.splitlines() if l.startswith("error"))[:3000])
    print(f"BUILD FAILED for {pid} (plain profile)")
    sys.exit(2)
out = os.path.join("evidence", "plain")
os.makedirs(os.path.join(ROOT, out), exist_ok=True)
env = dict(os.environ, VERIF_SEED=str(int(os.environ.get("VERIF_SEED", "1")) + 7_000_000), MON_CAP_S="150")
r = subprocess.run(["./harness/target/plain/ellmon", pid, "--scale", scale, "--out", out], cwd=ROOT, env=env,
                   capture_output=True, text=True)
lines = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN-FINDING")]
print("plain build:")
print("\n".join(l for l in lines if not l.startswith("   observed")))
try:
    with open(os.path.join(EV, pid + ".json")) as f:
        main = json.load(f)
    with open(os.path.join(ROOT, out, pid + ".json")) as f:
        p = json.load(f)
    main["coverage"]["plain_build"] = {k: p["coverage"][k] for k in ("evaluations", "distinct_nontrivial", "cases", "observed_events")}
    main["violations"] += p["violations"]
    main["wall_s"] = round(main["wall_s"] + p["wall_s"], 3)
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(main, f, indent=1, ensure_ascii=False)
        f.write("\n")
except (OSError, KeyError, ValueError) as e:
    print("evidence not merged:", e)
sys.exit(r.returncode if r.returncode >= 0 else 3)
