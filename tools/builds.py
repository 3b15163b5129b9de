"""C30: the same workload in every build configuration, compared case by case and bit by bit."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import EV, ROOT, SEED, TIER, violation, write_evidence

H = os.path.join(ROOT, "harness")
CONFIGS = [
    # name, cargo arguments, binary, share of the workload
    ("release with debug assertions and overflow checks", ["--release"], "target/release", 1.0),
    ("release (opt-level 3, no checks)", ["--profile", "plain"], "target/plain", 1.0),
    ("debug (opt-level 0)", [], "target/debug", 0.25),
    ("release without the std feature", ["--profile", "plain", "--no-default-features", "--target-dir", "target-nostd"], "target-nostd/plain", 1.0),
    ("debug without the std feature", ["--no-default-features", "--target-dir", "target-nostd"], "target-nostd/debug", 0.25),
    ("size-optimised, one codegen unit, LTO", ["--profile", "small"], "target/small", 1.0),
]
COUNT = 4_000_000 if TIER == "thorough" else 200_000
for i, a in enumerate(sys.argv):
    if a == "--case":
        COUNT = None
        CASE = int(sys.argv[i + 1])


def main():
    built = []
    for name, args, binary, share in CONFIGS:
        r = subprocess.run(["cargo", "build", "--offline", "--locked", *args], cwd=H, capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stderr[-3000:])
            print(f"BUILD FAILED: {name}")
            return 2
        built.append((name, os.path.join(H, binary, "ellmon"), share))
    start, total = (CASE, 1) if COUNT is None else (0, COUNT)
    chunk = 200_000
    seen, distinct, bad, runs, values = 0, set(), 0, {n: 0 for n, _, _ in built}, 0
    samples = []
    at = start
    while at < start + total and bad == 0:
        n = min(chunk, start + total - at)
        ref = None
        for name, exe, share in built:
            k = n if total == 1 else max(1, int(n * share))
            r = subprocess.run([exe, "digest", str(SEED), str(at), str(k), "0", "8"], capture_output=True, text=True)
            lines = r.stdout.split("\n")[:-1]
            if r.returncode != 0 or len(lines) != k:
                violation("C30", f"abort-{at}", f"configuration '{name}' ended with {r.returncode} after {len(lines)} of {k} cases from {at}\n{r.stderr[-1500:]}")
                bad += 1
                continue
            runs[name] += k
            if ref is None:
                ref = lines
                distinct.update(l.split(" ")[2] for l in lines if len(distinct) < 5_000_000)
                values += sum(int(l.split(" ")[3]) for l in lines if "panic" not in l)
                if not samples:
                    samples = lines[:5]
            for a, b in zip(ref, lines):
                seen += 1
                if a != b or " panic " in b:
                    bad += 1
                    if bad <= 3:
                        idx = b.split(" ")[0]
                        violation(
                            "C30",
                            idx,
                            f"case {idx} (kind {b.split(' ')[1]}): '{built[0][0]}' gave {a!r}, '{name}' gave {b!r}\n"
                            f"replay: VERIF_SEED={SEED} bash check.sh C30 --case {idx}; or {exe} digest {SEED} {idx} 1 0 1",
                        )
        at += n
    write_evidence(
        "C30",
        {
            "evaluations": seen,
            "distinct_nontrivial": len(distinct),
            "rule": "random pieces of work over every public part of the library (23 kinds, nine of them on ties, whole numbers, degenerate sizes and refused calls), each run in six build configurations; an evaluation is one piece of work in one configuration whose every result bit was hashed and compared with the first configuration; distinct by digest",
            "runs_per_configuration": runs,
            "result_values_hashed_in_the_first_configuration": values,
            "samples": samples,
        },
        bad,
        ["NaN payloads are not compared, nor signs of zeros in the work on ties; the packaged filter levels are compared to 12 digits"],
    )
    print(f"C30: {seen} comparisons over {len(built)} configurations, {len(distinct)} distinct digests, {bad} violations")
    return 1 if bad else 0


sys.exit(main())
