#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property on a patched copy of
/repo, and rewrites the table of DESIGN.md (between the seeds markers).

usage: tools/seeds.py [ID...]     (IDs: only these, the table is left alone)
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seeds_copy"


def run(d):
    m = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    subprocess.run(["git", "apply", f"{HERE}/seeded/{d}/patch.diff"], cwd=W, check=True)
    r = subprocess.run(["timeout", "900", f"{HERE}/bin/check", m["property"], "--tier", "quick"], capture_output=True, text=True,
                       env=dict(os.environ, PYBGL_SRC=W + "/src"))
    shutil.rmtree(W, ignore_errors=True)
    hit = re.search(r"^counterexample: (\w+)\(", r.stdout + r.stderr, re.M)
    ok = r.returncode == 1 and f"VIOLATION property={m['property']} " in r.stdout
    return m, ok, hit.group(1) if hit else ""


def main():
    ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
    rows = []
    for d in ids:
        m, ok, job = run(d)
        print(d, m["property"], "caught by " + job if ok else "MISSED", flush=True)
        rows.append((m["property"], d, m["needs"], job if ok else "**missed**"))
    if sys.argv[1:]:
        return
    rows.sort()
    t = "\n".join(["| property | planted change | needs | caught by (job of the quick check) |", "|---|---|---|---|"] +
                  [f"| {p} | `{d}` | {n} | {j} |" for p, d, n, j in rows])
    f = HERE + "/DESIGN.md"
    s = open(f).read()
    a, b = "<!-- seeds -->", "<!-- end seeds -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(f, "w").write(s[:i] + "\n" + t + "\n" + s[j:])


main()
