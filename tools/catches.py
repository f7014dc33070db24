#!/usr/bin/env python3
"""catches.py [ID…]: apply each planted bug to /repo, run its property's quick check, take the bug out again."""
import json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")


def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)


if git("status", "--porcelain").stdout.strip():
    sys.exit("/repo is not clean")
for i in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if git("apply", d + "/patch.diff").returncode:
        print(f"{i} {prop} does not apply", flush=True)
        continue
    t0 = time.time()
    try:
        r = subprocess.run([ROOT + "/bin/check", prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        git("checkout", "--", ".")
    out = r.stdout + r.stderr
    how = re.search(r"(?m)^.*?: (.*?): TLC: (\w+) is violated.* at event (\d+)", out)
    print(i, prop, f"rc={r.returncode} {time.time() - t0:.0f}s", how.groups() if how else out[-300:], flush=True)
