"""Runs a slice of every property twice, with other worker counts and hash seeds, and compares the digest of all runs.

    python -m sim.determinism [C01 ...] [--scale F]
The digest covers every run's trace, verdict and (part of) the numbers the library returned.
"""

import json
import os
import re
import subprocess
import sys

from sim import boot


def once(pid, workers, hashseed, scale):
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    cmd = [sys.executable, "-m", "sim.harness", pid, "--workers", workers, "--scale", scale, "--no-evidence"]
    r = subprocess.run(cmd, cwd=boot.VERIF, env=env, capture_output=True, text=True)
    m = re.search(r"(\d+) runs in .* log (\w+)", r.stdout)
    return m.groups() if m and r.returncode == 0 else (r.returncode, r.stdout[-300:])


def main():
    args = sys.argv[1:]
    scale = args[args.index("--scale") + 1] if "--scale" in args else "0.1"
    pids = [a for a in args if re.fullmatch(r"C\d\d", a)]
    if not pids:
        pids = [c["property"] for c in json.load(open(os.path.join(boot.VERIF, "MANIFEST.json")))["checks"]]
    bad = 0
    for pid in pids:
        a = once(pid, "8", "0", scale)
        b = once(pid, "3", "12345", scale)
        bad += a != b
        print(pid, *a, "same" if a == b else f"DIFFERENT: {b}", flush=True)
    return bad


if __name__ == "__main__":
    sys.exit(main())
