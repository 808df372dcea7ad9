#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and stores them in seeded/.

usage: tools/plant.py SPECS.py [ID...]   (SPECS.py defines BUGS, a list of dicts:
       id, prop, edits=[(file, old, new)], demo (Python), needs, breaks)
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    sh(f"cp -a /repo {W}")
    sh("git checkout -q -- . && git clean -fdq", cwd=W)


def tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", W)
    t = t.replace("export HOME", f"export PYTHONPATH={W}/src; export HOME", 1)
    open("/tmp/plant_test.sh", "w").write(t)
    r = sh("bash /tmp/plant_test.sh /tmp/plant_out.json")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    res = json.load(open("/tmp/plant_out.json"))
    good = set(res.get("passed", []))
    return sorted(stable - good), r.stdout[-300:]


def demo(d, where):
    return sh(f"timeout 300 sh {d}/demo.sh", cwd=where)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        if os.path.exists(d) and not only:
            continue
        fresh()
        try:
            for f, old, new in b["edits"]:
                p = f"{W}/src/pybgl/{f}"
                s = open(p).read()
                assert s.count(old) == 1, f"{f}: {s.count(old)} occurrences of {old!r}"
                open(p, "w").write(s.replace(old, new))
        except AssertionError as e:
            print(b["id"], "EDIT", e)
            continue
        own = []
        for f in {f for f, _, _ in b["edits"]}:
            base = sh(f"git show 16f1e39:src/pybgl/{f}", cwd="/repo").stdout.split("\n")
            gone = [l[1:] for l in sh(f"git diff -U0 src/pybgl/{f}", cwd=W).stdout.split("\n") if l.startswith("-") and not l.startswith("---")]
            own += [l for l in gone if l not in base]
        if own:
            print(b["id"], "note: touches lines of a fix:", own[:2])
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.sh", "w").write('#!/bin/sh\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout 60 python3 "$(dirname "$0")/demo.py"\n')
        open(f"{d}/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        lost, out = tests()
        r0, r1 = demo(d, "/repo"), demo(d, W)
        ok = not lost and r0.returncode == 0 and r1.returncode != 0
        if not ok:
            print(b["id"], "REJECTED lost", lost[:3], "demo", r0.returncode, r1.returncode, r0.stderr[-300:])
            shutil.rmtree(d)
            continue
        c = sh(f"PYBGL_SRC={W}/src bin/check {b['prop']} --tier quick", cwd=HERE)
        caught = c.returncode == 1 and f"VIOLATION property={b['prop']}" in c.stdout
        print(b["id"], b["prop"], "CAUGHT" if caught else f"MISSED exit {c.returncode}", (re.findall(r"counterexample: (.*)", c.stdout) or [c.stdout[-300:]])[0][:140], flush=True)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    main()
