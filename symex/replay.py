"""Replay a recorded counterexample on the real code with plain values.

usage: python3-vt -m symex.replay FILE     exit 1 (and FAIL lines): reproduced
"""
import importlib
import json
import resource
import sys


def load(rec):
    return getattr(importlib.import_module(rec["module"]), rec["harness"])


def main():
    from symex import runner, engine
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    sys.path.insert(0, runner.REPO_SRC)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(3000)
    func = load(rec)
    # calls made before, where the failure needs them
    for r in rec.get("before", ()):
        engine.run_concrete(load(r), r["params"], r["inputs"], path_s=5)
    st, msgs, obs = engine.run_concrete(func, rec["params"], rec["inputs"], path_s=20)
    if st == "ok":
        st, msgs, obs = engine.run_concrete(func, rec["params"], rec["inputs"], path_s=20)
    print("status:", st)
    for n, v in obs:
        print("observed:", n, "=", repr(v)[:500])
    if st in ("fail", "exception", "timeout"):
        for m in msgs:
            print("FAIL", m.replace("\n", " "))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
