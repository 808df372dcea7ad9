"""Scheduler and command line: explore the jobs of one property on all cores,
confirm every counterexample on the real code in a fresh process, write the
evidence file."""
import argparse
import collections
import json
import multiprocessing as mp
import os
import queue
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("PYBGL_SRC", "/repo/src")

# time for the jobs whose inputs had to be made concrete (see fall_back)
EAGER_S = 240

# how a job is run: KEEP leaves the state of the package alone, RESET puts it
# back before each path, EAGER makes the inputs concrete as well
KEEP, RESET, EAGER = range(3)

JOBS = {}       # property -> [Job]


class Job:
    def __init__(self, prop, func, params, opts):
        self.prop = prop
        self.func = func
        self.params = params
        self.covers = opts.get("covers", ())
        self.eager_ok = opts.get("eager_ok", True)
        self.eager_only = opts.get("eager_only", False)
        self.reset = opts.get("reset", False)
        self.path_s = opts.get("path_s", 10)
        self.decisions = opts.get("decisions", 4000)
        self.values = opts.get("values", 64)
        self.bound = opts.get("bound", "")

    @property
    def name(self):
        ps = ",".join(f"{k}={v}" for k, v in self.params.items())
        return f"{self.func.__name__}({ps})"

    def limits(self):
        return dict(path_s=self.path_s, decisions=self.decisions, values=self.values)


def job(prop, quick=({},), thorough=None, **opts):
    """Register a harness: one job per parameter set of the selected tier."""
    def deco(f):
        JOBS.setdefault(prop, []).append((f, list(quick), list(thorough if thorough is not None else quick), opts))
        return f
    return deco


def build_jobs(prop, tier):
    out = []
    for f, q, t, opts in JOBS.get(prop, []):
        for p in (q if tier == "quick" else t):
            out.append(Job(prop, f, p, opts))
    return out


# ------------------------------------------------------------------ workers
_W = {}


def _init_worker(jobs):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import engine
    signal.signal(signal.SIGVTALRM, engine._alarm)
    sys.setrecursionlimit(3000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    _W["jobs"] = jobs
    _W["solver"] = engine.SolverStack()
    _W["nvalid"] = {}
    from .state import Snapshot
    _W["state"] = Snapshot()
    _W["first"] = []                                # some earlier inputs of this process
    _W["last"] = collections.deque(maxlen=8)


def _profile_to(fset):
    src = os.path.realpath(REPO_SRC)

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(src) or os.path.realpath(fn).startswith(src):
                fset.add(f"{os.path.basename(fn)[:-3]}.{co.co_qualname}")
    return prof


def _explore_slice(task):
    """Explore from the given work items for a time slice."""
    from . import engine
    from .values import Unsupported
    jid, items, slice_s, mode, max_valid = task
    job = _W["jobs"][jid]
    ctx = engine.SymCtx(_W["solver"], job.limits())
    ctx.eager = mode == EAGER or job.eager_only
    state = _W["state"]
    work = list(items)
    found, errors = [], []
    t0 = time.perf_counter()
    nv = _W["nvalid"].setdefault(jid, 0)
    while work:
        prefix, model = work.pop()
        ctx.work = []
        if mode == KEEP:
            state.clear_caches()
        else:
            state.restore()
        try:
            st = engine.run_path(ctx, job.func, job.params, prefix, model)
        except (Unsupported, engine.Inconclusive, engine.Divergence) as e:
            errors.append(f"{type(e).__name__}: {e}")
            if isinstance(e, (Unsupported, engine.Divergence)):
                found.append((type(e).__name__.lower(), [f"{e}"], ctx.export(ctx.M), _history()))
            work.extend(ctx.work)
            if len(errors) > 3:
                break
            if time.perf_counter() - t0 > slice_s:
                break
            continue
        except MemoryError:
            errors.append("MemoryError in the engine")
            break
        work.extend(ctx.work)
        if ctx.found:
            found.extend((*f, _history()) for f in ctx.found)
            if len(found) >= 4:
                break
        elif st == "ok" and (nv < 3 or (ctx.stats.paths % 40 == 1 and nv < max_valid)):
            nv += 1
            # concolic validation: the same path on plain values
            vals = ctx.export(ctx.M)
            memo_obs = ctx.observed(ctx.M)
            fs = set()
            if mode != KEEP:
                state.restore()
            cst, msgs, obs = engine.run_concrete(job.func, job.params, vals, path_s=20,
                                                 profile=_profile_to(fs))
            ctx.stats.functions |= fs
            if cst == "ok" and obs == memo_obs:
                ctx.stats.validated += 1
                if len(ctx.stats.samples) < 2:
                    ctx.stats.samples.append(dict(job=job.name, decisions=len(ctx.trace),
                                                  inputs=_short(vals), observed=_short(repr(obs))))
            elif cst in ("fail", "exception", "timeout"):
                found.append(("check", [f"(found while validating a path) {m}" for m in msgs], vals, _history()))
            else:
                errors.append(f"trace validation mismatch: {cst} {msgs} symbolic={memo_obs!r:.300} concrete={obs!r:.300} inputs={vals!r:.300}")
        if st == "ok":
            _remember(jid, ctx.export(ctx.M))
        if time.perf_counter() - t0 > slice_s:
            break
    _W["nvalid"][jid] = nv
    # keep the term table bounded
    from . import terms
    if len(terms._TAB) > 1_500_000:
        _reset_terms()
    return jid, mode, ctx.stats, work, found, errors


def _remember(jid, vals):
    (_W["first"] if len(_W["first"]) < 6 else _W["last"]).append((jid, vals))


def _history():
    return [*_W["first"], *_W["last"]]


def _reset_terms():
    from . import engine, terms
    keep = (terms.TRUE, terms.FALSE)
    terms._TAB.clear()
    for t in keep:
        terms._TAB[(t.op, t.args, t.sort)] = t
    _W["solver"] = engine.SolverStack()


def _short(v, n=400):
    s = v if isinstance(v, str) else json.dumps(v, default=str)
    return s if len(s) <= n else s[:n] + "..."


# -------------------------------------------------------------- coordinator
def confirm(job, kind, vals, tier, history=()):
    """Replay one candidate on the real code in a fresh interpreter: alone,
    then after earlier inputs of the process that found it."""
    path, out = _confirm(job, kind, vals)
    if path is None and history:
        path, out2 = _confirm(job, kind, vals, history)
        if path is not None:
            out = out2
    return path, out


def _confirm(job, kind, vals, history=()):
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    base = os.path.join(HERE, "out", f"{job.prop}-{os.getpid()}-{int(time.time()*1000)%10**9}.json")
    rec = dict(property=job.prop, harness=job.func.__name__, module=job.func.__module__,
               params=job.params, inputs=vals, kind=kind)
    if history:
        rec["before"] = [dict(harness=h.func.__name__, module=h.func.__module__, params=h.params, inputs=v)
                         for h, v in history]
    with open(base, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    limit = 60
    try:
        r = subprocess.run([sys.executable, "-m", "symex.replay", base], cwd=HERE,
                           capture_output=True, text=True, timeout=limit, env=dict(os.environ))
    except subprocess.TimeoutExpired:
        if kind == "timeout":
            rec["outcome"] = "the code did not terminate"
            with open(base, "w") as f:
                json.dump(rec, f, indent=1, default=str)
            return base, ["does not terminate (replay exceeded 60 s)"]
        os.unlink(base)
        return None, ["replay exceeded 60 s"]
    if r.returncode == 1:
        msgs = [l[len("FAIL "):] for l in r.stdout.splitlines() if l.startswith("FAIL ")]
        rec["outcome"] = msgs
        with open(base, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        return base, msgs
    try:
        os.unlink(base)
    except OSError:
        pass
    return None, [f"replay exit {r.returncode}: {r.stdout[-300:]} {r.stderr[-300:]}"]


def run_property(prop, tier, seed, workers, budget, verbose=False):
    from . import engine
    t0 = time.time()
    jobs = build_jobs(prop, tier)
    if not jobs:
        print(f"no job for {prop}", file=sys.stderr)
        return 2
    pool = mp.get_context("fork").Pool(workers, _init_worker, (jobs,))
    n = len(jobs)
    stats = [engine.Stats() for _ in jobs]
    queues = [[((), {})] for _ in jobs]
    inflight = [0] * n
    modes = [RESET if jb.reset else KEEP for jb in jobs]
    unrelated = [0] * n     # confirmations that used a history in vain
    slow = [False] * n      # the content of the containers is enumerated
    errors = [[] for _ in jobs]
    candidates = [[] for _ in jobs]
    jobtime = [0.0] * n
    dead = [False] * n
    confirmed = None
    done_q = queue.Queue()
    results = 0
    rr = 0
    total_inflight = 0
    max_valid = 12 if tier == "quick" else 40
    status = "ok"
    deadline = t0 + budget
    rng = random.Random(seed)

    def may_fall_back(j):
        return modes[j] == KEEP or modes[j] == RESET and jobs[j].eager_ok

    def fall_back(j):
        """Paths depend on one another: start this job again, each path from a
        fresh state.  Then, when the proxies do not fit this code: concretise
        every input as soon as it is created, for a limited time."""
        nonlocal deadline
        modes[j] += 1
        if modes[j] == EAGER:
            slow[j] = True
        queues[j] = [((), {})]
        errors[j] = []
        candidates[j] = []
        dead[j] = False
        stats[j].__init__()
        if slow[j]:
            deadline = min(deadline, time.time() + EAGER_S)

    def submit(j):
        nonlocal total_inflight
        q = queues[j]
        if slow[j]:                     # spread over the whole space
            i = rng.randrange(len(q))
            q[i], q[-1] = q[-1], q[i]
        if stats[j].paths < 8 and not inflight[j]:
            take = 1
            sl = 0.05
        else:
            take = max(1, min(len(q) // (2 * workers), 40))
            sl = 0.5
        items = [q.pop() for _ in range(min(take, len(q)))]
        inflight[j] += 1
        total_inflight += 1
        pool.apply_async(_explore_slice, ((j, items, sl, modes[j], max_valid),),
                         callback=done_q.put, error_callback=lambda e, j=j, m=modes[j]: done_q.put((j, m, None, [], [], [f"worker: {e!r}"])))

    try:
        while True:
            for _ in range(n):
                j = rr % n
                rr += 1
                if queues[j] and not dead[j]:
                    while total_inflight < workers + 4 and queues[j] and inflight[j] < workers + 4:
                        submit(j)
                        if n > workers:
                            break
                if total_inflight >= workers + 4:
                    break
            if total_inflight == 0:
                if all(not q or d for q, d in zip(queues, dead)):
                    break
                continue
            try:
                j, mode, st, left, found, errs = done_q.get(timeout=1.0)
            except queue.Empty:
                if time.time() > deadline:
                    status = "budget"
                    break
                continue
            total_inflight -= 1
            inflight[j] -= 1
            stale = mode != modes[j]        # sent before the job was started again
            if stale:
                st, left, errs = st and type(st)(), [], []
            if st is not None:
                stats[j].merge(st)
                if st.unfit and not slow[j]:
                    slow[j] = True
                    deadline = min(deadline, time.time() + EAGER_S)
            else:
                dead[j] = True
            queues[j].extend(left)
            errors[j].extend(errs)
            if len(errors[j]) > 20 and not found:
                dead[j] = True
            for kind, msgs, vals, history in found:
                if len(candidates[j]) >= 12:
                    break
                if mode != KEEP or unrelated[j] >= 4:
                    history = ()
                path, out = confirm(jobs[j], kind, vals, tier, [(jobs[h], v) for h, v in history])
                unrelated[j] += bool(history)
                if path is not None:
                    confirmed = (j, path, out)
                    break
                if not stale:
                    candidates[j].append((kind, msgs, vals, out))
            if confirmed:
                break
            if len(candidates[j]) >= 3 and may_fall_back(j):
                fall_back(j)
            elif len(candidates[j]) >= 12:
                dead[j] = True
            # a job that ends with unconfirmed candidates gets the eager retry too
            if not queues[j] and not inflight[j] and (candidates[j] or any("Unsupported" in e for e in errors[j])) and may_fall_back(j):
                fall_back(j)
            if time.time() > deadline:
                status = "budget"
                break
    finally:
        pool.terminate()

    wall = time.time() - t0
    problems, notes = [], []
    for j, jb in enumerate(jobs):
        for e in errors[j][:3]:
            problems.append(f"{jb.name}: {e}")
        for kind, msgs, vals, out in candidates[j][:3]:
            problems.append(f"{jb.name}: unconfirmed {kind} {msgs} inputs={vals} ({out})")
        if not confirmed and status == "ok":
            # the situations a harness must reach, over all its parameter sets
            missing = set(jb.covers) - set().union(*[stats[i].covers for i in range(n) if jobs[i].func is jb.func])
            if missing:
                problems.append(f"{jb.name}: vacuous, never reached: {sorted(missing)}")
            if stats[j].paths == 0:
                problems.append(f"{jb.name}: no feasible path")
        if status == "budget" and (queues[j] or inflight[j]):
            msg = f"{jb.name}: time budget exhausted after {stats[j].paths} paths, {len(queues[j])} pending"
            if any(slow) and stats[j].paths:
                # a partial answer: nothing wrong in what was explored
                notes.append(msg)
            else:
                problems.append(msg)
    write_evidence(prop, tier, seed, jobs, stats, slow, wall, confirmed, problems, notes)
    tot = engine.Stats()
    for s in stats:
        tot.merge(s)
    for j, jb in enumerate(jobs):
        s = stats[j]
        if verbose:
            print(f"  {jb.name}: paths={s.paths} infeasible={s.infeasible} branches={s.branches} queries={s.queries} "
                  f"checks={s.checks} solver={s.solver_s:.1f}s validated={s.validated} covers={sorted(s.covers)}"
                  f"{' EAGER' if slow[j] else ''}")
    print(f"{prop} [{tier}] jobs={n} paths={tot.paths} branches={tot.branches} queries={tot.queries} "
          f"(sat {tot.sat}, unsat {tot.unsat}) checks={tot.checks} check-queries={tot.check_queries} "
          f"validated={tot.validated} solver={tot.solver_s:.1f}s wall={wall:.1f}s")
    if confirmed:
        j, path, out = confirmed
        print(f"counterexample: {jobs[j].name}: {out[:3]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for p in notes:
        print("NOTE", p)
    if problems:
        for p in problems[:10]:
            print("ERROR", p[:1500])
        return 2
    return 0


def write_evidence(prop, tier, seed, jobs, stats, eager, wall, confirmed, problems, notes=()):
    from . import engine
    tot = engine.Stats()
    for s in stats:
        tot.merge(s)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=max(1, tot.paths),
            transitions=tot.branches,
            traces_validated_against_impl=tot.validated,
            samples=tot.samples[:10],
            functions_encoded=sorted(tot.functions),
            bounds=[dict(harness=j.name, bound=j.bound or (j.func.__doc__ or "").strip()) for j in jobs],
            jobs=[dict(harness=j.name, paths=s.paths, infeasible_paths=s.infeasible, branches=s.branches,
                       forced_branches=s.forced, solver_queries=s.queries, sat=s.sat, unsat=s.unsat,
                       independent_branches=s.independent,
                       checks=s.checks, checks_decided_syntactically=s.trivial_checks,
                       check_queries=s.check_queries, solver_s=round(s.solver_s, 3),
                       covers_reached=sorted(s.covers), eager_inputs=bool(e or j.eager_only))
                  for j, s, e in zip(jobs, stats, eager)],
            solver="z3 " + __import__("z3").get_version_string(),
            queries=tot.queries, solver_s=round(tot.solver_s, 3),
            exhaustive_within_bounds=not problems and not confirmed and not notes,
            not_exhausted=list(notes),
        ),
        assumptions=[
            "Only inputs within the listed bounds are covered; see DESIGN.md.",
            "PYTHONHASHSEED=0; exact rational arithmetic stands for Python numbers.",
        ],
        wall_s=round(wall, 2),
        violations=1 if confirmed else 0,
    )
    if confirmed:
        ev["counterexample"] = dict(replay=confirmed[1], messages=confirmed[2][:5])
    if problems:
        ev["problems"] = problems[:10]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def load_harnesses():
    import importlib
    import pkgutil
    sys.path.insert(0, REPO_SRC)
    from . import symre
    try:
        symre.install()
    except Exception:
        traceback.print_exc()
    import harness
    failed = []
    for m in pkgutil.iter_modules(harness.__path__):
        try:
            importlib.import_module(f"harness.{m.name}")
        except Exception:
            failed.append((m.name, traceback.format_exc()))
    return failed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    failed = load_harnesses()
    if failed and a.prop not in JOBS:
        for n, tb in failed:
            print(f"harness.{n}: {tb}", file=sys.stderr)
        return 2
    budget = a.budget or (780 if tier == "quick" else 6 * 3600)
    return run_property(a.prop, tier, seed, a.workers, budget, a.v)


if __name__ == "__main__":
    from symex import runner      # one module object, not __main__
    sys.exit(runner.main())
