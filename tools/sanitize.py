"""C29: the determinism monitors, then the same workloads under AddressSanitizer and Miri."""
import json
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import EV, ROOT, SEED, TIER, violation

H = os.path.join(ROOT, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
thorough = TIER == "thorough"


def main():
    exe = os.path.join(H, "target/release/ellmon")
    r = subprocess.run([exe, "C29", "--out", EV, *sys.argv[1:]])
    if r.returncode != 0 or "--case" in sys.argv:
        return r.returncode
    notes, bad = {}, 0

    # AddressSanitizer (and leaks) over the monitors' workloads of every property
    env = dict(os.environ, RUSTFLAGS="-Zsanitizer=address", ASAN_OPTIONS="exitcode=97:detect_leaks=1:halt_on_error=1")
    b = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--locked", "--target", TRIPLE, "--target-dir", "target-asan"], cwd=H, env=env, capture_output=True, text=True)
    if b.returncode != 0:
        notes["address sanitizer"] = "not run: " + b.stderr[-300:]
    else:
        asan = os.path.join(H, "target-asan", TRIPLE, "release/ellmon")
        k = 2_000_000 if thorough else 40_000
        r = subprocess.run([asan, "digest", str(SEED), "0", str(k), "0", "8"], env=env, capture_output=True, text=True)
        plain = subprocess.run([exe, "digest", str(SEED), "0", str(k), "0", "8"], capture_output=True, text=True)
        if r.returncode == 97 or "AddressSanitizer" in r.stderr or "LeakSanitizer" in r.stderr:
            bad += 1
            violation("C29", "asan", f"AddressSanitizer report on: digest {SEED} 0 {k} 0 8\n{r.stderr[-6000:]}")
        elif r.returncode != 0:
            bad += 1
            violation("C29", "asan", f"the sanitized run ended with {r.returncode}\n{r.stderr[-3000:]}")
        elif r.stdout != plain.stdout:
            bad += 1
            d = [(x, y) for x, y in zip(r.stdout.split("\n"), plain.stdout.split("\n")) if x != y][:3]
            violation("C29", "asan-digest", f"the sanitized run computed different results: {d}")
        notes["address sanitizer"] = f"{k} pieces of work, 8 threads, no report" if not bad else "violation"
        # the scripted drivers and the array monitors, whose workloads the digests do not contain
        for pid in ("C08", "C10", "C15", "C17", "C18", "C28"):
            r = subprocess.run([asan, pid, "--scale", "0.3" if thorough else "0.01", "--out", os.path.join(EV, "asan")], env=env, capture_output=True, text=True)
            if r.returncode == 97 or "AddressSanitizer" in r.stderr:
                bad += 1
                violation("C29", f"asan-{pid}", f"AddressSanitizer report in the workload of {pid}\n{r.stderr[-6000:]}")

    # Miri: undefined behaviour and data races, small workloads, two threads
    env = dict(os.environ, MIRIFLAGS="-Zmiri-disable-isolation")
    k = 460 if thorough else 46
    try:
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--target-dir", "target-miri", "--", "digest", str(SEED), "0", str(k), "1", "2"], cwd=H, env=env, capture_output=True, text=True, timeout=400 if thorough else 240)
        lines = [l for l in r.stdout.split("\n") if re.match(r"^\d+ \d+ ", l)]
        if "Undefined Behavior" in r.stderr or "Data race" in r.stderr or "memory leaked" in r.stderr:
            bad += 1
            violation("C29", "miri", f"Miri report on: digest {SEED} 0 {k} 1 2\n{r.stderr[-6000:]}")
        elif r.returncode != 0 or len(lines) != k:
            notes["miri"] = "not run: " + r.stderr[-300:]
        else:
            notes["miri"] = f"{len(lines)} pieces of work interpreted on 2 threads, no undefined behaviour or data race"
    except subprocess.TimeoutExpired:
        notes["miri"] = "not finished in the time allowed"

    p = os.path.join(EV, "C29.json")
    e = json.load(open(p))
    e["coverage"]["sanitizers"] = notes
    e["violations"] += bad
    json.dump(e, open(p, "w"), indent=1)
    for n, t in notes.items():
        print(f"   {n}: {t}")
    return 1 if bad else 0


sys.exit(main())
