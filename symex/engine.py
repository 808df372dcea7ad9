"""Path-exhaustive symbolic execution of the real CPython code.

A harness is an ordinary function `h(ctx, **params)`.  It asks `ctx` for
inputs (symbolic while exploring, plain Python values while replaying), calls
the real pybgl code imported from /repo/src, and states conditions with
`ctx.check`.  `explore` enumerates the *path conditions* of the run (a tree of
solver-decided branches), and on each path asks the solver whether the checked
conditions can be false for any input satisfying the path condition.
"""
import os
import signal
import sys
import time
from fractions import Fraction

from . import terms as tm
from .values import (
    Engine, SymBool, SymNum, SymSym, SymWord, Unsupported, decode_symbol,
    encode_symbol, lift, wrap_b, wrap_n, is_sym,
)

QUERY_TIMEOUT_MS = 60_000


class PathAbort(BaseException):
    """The path is infeasible (an assumption is unsatisfiable on it)."""


class PathTimeout(BaseException):
    """The run did not finish within its time / decision limit."""


class Inconclusive(BaseException):
    """The engine cannot decide something on this path."""


class Divergence(BaseException):
    """Replaying a prefix met another branch: the harness is not deterministic."""


class CheckFailed(Exception):
    """Raised by ConcreteCtx when a check is false."""

    def __init__(self, msgs):
        super().__init__("; ".join(msgs))
        self.msgs = msgs


class Stats:
    FIELDS = ("paths", "infeasible", "branches", "forced", "queries", "sat", "unsat",
              "checks", "check_queries", "trivial_checks", "validated", "decisions_replayed",
              "independent", "unfit")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.functions = set()
        self.covers = set()
        self.samples = []

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        self.functions |= o.functions
        self.covers |= o.covers
        self.samples.extend(o.samples[:max(0, 12 - len(self.samples))])


# ------------------------------------------------------------------ solver
class SolverStack:
    """One incremental z3 solver whose assertion stack follows the path."""

    def __init__(self):
        import z3
        self.z3 = z3
        self.s = z3.SolverFor("QF_LIRA") if False else z3.Solver()
        self.s.set("timeout", QUERY_TIMEOUT_MS)
        self.s.set("random_seed", 0)
        self.stack = []

    def sync(self, pc):
        n = 0
        st = self.stack
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for t in pc[n:]:
            self.s.push()
            self.s.add(tm.to_z3(t))
            st.append(t)

    def query(self, pc, extra, ctx):
        """sat?(pc and extra) -> model dict | False | None (unknown)."""
        t0 = time.perf_counter()
        self.sync(pc)
        self.s.push()
        try:
            self.s.add(tm.to_z3(extra))
            r = self.s.check()
            ctx.stats.queries += 1
            if ctx.dump is not None:
                ctx.dump(self.s, str(r))
            if r == self.z3.sat:
                ctx.stats.sat += 1
                return self._model(ctx)
            if r == self.z3.unsat:
                ctx.stats.unsat += 1
                return False
            return None
        finally:
            self.s.pop()
            ctx.stats.solver_s += time.perf_counter() - t0

    def _model(self, ctx):
        z3 = self.z3
        mod = self.s.model()
        out = dict(ctx.defaults)
        for d in mod.decls():
            n = d.name()
            if n not in ctx.defaults:
                continue
            v = mod[d]
            if z3.is_true(v):
                out[n] = True
            elif z3.is_false(v):
                out[n] = False
            elif z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                out[n] = int(f) if f.denominator == 1 else f
            else:
                raise Inconclusive(f"model value {v} for {n}")
        return out


class SymCtx:
    symbolic = True

    def __init__(self, solver, limits):
        self.solver = solver
        self.limits = limits
        self.eager = False
        self.stats = Stats()
        self.work = []           # [(prefix, model)]
        self.dump = None
        self.cover_hit = set()

    # ------------------------------------------------------------ path set-up
    def start(self, prefix, model):
        self.prefix = prefix
        self.ptr = 0
        self.trace = []           # decisions of this path: (hash, value)
        self.pc = []
        self.known = {}
        self.fixed = {}
        self.bound = {}
        self.touched = set()
        self.M = dict(model)
        self.memo = {}
        self.defaults = {}        # var name -> default value
        self.inputs = {}          # name -> meta
        self.pending = []
        self.cover_pending = []
        self.obs = []
        self.found = []
        self.ndec = 0
        self.naux = 0
        self.dom = {}             # small integer domains: name -> (lo, hi)

    # ---------------------------------------------------------------- inputs
    def _declare(self, name, meta, default):
        if name in self.inputs:
            raise AssertionError(f"duplicate input {name}")
        self.inputs[name] = meta
        self.defaults[name] = default
        if name not in self.M:
            self.M[name] = default

    def bool(self, name):
        self._declare(name, ("bool",), False)
        b = SymBool(tm.var(name, "B"))
        return bool(b) if self.eager else b

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (min(0, hi) if hi is not None else 0)
        self._declare(name, ("int",), d)
        v = tm.var(name, "I")
        if self.eager:
            lo, hi = window(lo, hi)
        self._range(v, lo, hi)
        return self.concretize(v) if self.eager else SymNum(v)

    def real(self, name, lo=None, hi=None):
        d = lo if lo is not None else (min(0, hi) if hi is not None else 0)
        self._declare(name, ("real",), d)
        v = tm.var(name, "R")
        if self.eager:
            lo, hi = window(lo, hi)
            i = tm.var(name + "#i", "I")
            self.defaults[name + "#i"] = d
            self.M.setdefault(name + "#i", d)
            self._range(i, lo, hi)
            self._assert(tm.eq(v, i))
            return self.concretize(i)
        self._range(v, lo, hi)
        return SymNum(v)

    def _range(self, v, lo, hi):
        if v.sort == "I" and lo is not None and hi is not None and hi - lo < 64:
            self.dom[v.args[1][1].args[0]] = (lo, hi)
        if lo is not None:
            self._assert(tm.le(tm.num(lo), v), touch=False)
        if hi is not None:
            self._assert(tm.le(v, tm.num(hi)), touch=False)

    def sym(self, name, alpha=None, size=None):
        """A symbolic letter: of the finite alphabet `alpha`, or of an
        unbounded one (then `size` may bound the number of letters)."""
        self._declare(name, ("sym", None if alpha is None else list(alpha)), 0)
        v = tm.var(name, "I")
        hi = (len(alpha) if alpha is not None else size)
        if self.eager and hi is None:
            hi = 3
        self._range(v, 0, None if hi is None else hi - 1)
        if self.eager:
            return decode_symbol(self.concretize(v), alpha)
        return SymSym(v, None if alpha is None else list(alpha))

    def word(self, name, length, alpha=None, size=None):
        cs = [self.sym(f"{name}[{i}]", alpha, size) for i in range(length)]
        if self.eager:
            return "".join(cs) if all(isinstance(c, str) and len(c) == 1 for c in cs) else tuple(cs)
        return SymWord(cs)

    def choice(self, name, options):
        """Fork over a finite list of concrete options."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        self._declare(name, ("choice",), 0)
        v = tm.var(name, "I")
        self._range(v, 0, len(options) - 1)
        return options[self.concretize(v)]

    def divide(self, a, b):
        self.naux += 1
        n = f"_q{self.naux}"
        if evaluate_ok(b, self.M, self.memo):
            d = Fraction(tm.evaluate(a, self.M, self.memo)) / tm.evaluate(b, self.M, self.memo)
        else:
            d = 0
        self.defaults[n] = d
        if n not in self.M:
            self.M[n] = d
        q = tm.var(n, "R")
        self._assert(tm.eq(tm.mul(q, tm.to_real(b)), tm.to_real(a)))
        return SymNum(q)

    # ------------------------------------------------------------- assertions
    def _assert(self, t, touch=True, known_only=False):
        if t is tm.TRUE:
            return
        if not known_only:
            self.pc.append(t)
        if touch:
            self.touched |= t.vs
        self._learn(t)

    def _learn(self, t):
        self.known[t] = True
        n = tm.not_(t)
        self.known[n] = False
        if t.op == "and":
            for x in t.args:
                self._learn(x)
        elif t.op == "not" and t.args[0].op == "or":
            for x in t.args[0].args:
                self._learn(tm.not_(x))
        elif t.op == "var":
            self.fixed[t.args[0]] = True
        elif t.op == "not" and t.args[0].op == "var":
            self.fixed[t.args[0].args[0]] = False
        elif t.op == "eq0":
            l = t.args[0]
            if len(l.args) == 2 and l.args[1][1].op == "var":
                self.fixed[l.args[1][1].args[0]] = Fraction(-l.args[0], 1) / l.args[1][0]

    def _implied(self, t):
        """Value of t if it follows syntactically from the path condition."""
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        k = self.known.get(t)
        if k is not None:
            return k
        f = self.fixed
        if t.vs and len(t.vs) <= 12 and all(v in f for v in t.vs):
            return tm.evaluate(t, self.M, self.memo)
        if t.op == "and":
            allt = True
            for x in t.args:
                v = self.known.get(x)
                if v is False:
                    return False
                if v is None:
                    allt = False
            if allt:
                return True
        elif t.op == "or":
            allf = True
            for x in t.args:
                v = self.known.get(x)
                if v is True:
                    return True
                if v is None:
                    allf = False
            if allf:
                return False
        return None

    def assume(self, c):
        """Restrict the inputs.  Checks stated before are decided first."""
        t = lift(c)
        if t is tm.TRUE:
            return
        self.flush()
        if t is tm.FALSE:
            raise PathAbort()
        k = self._implied(t)
        if k is True:
            return
        if k is False:
            raise PathAbort()
        if not tm.evaluate(t, self.M, self.memo):
            m = self.solver.query(self.pc, t, self)
            if m is None:
                raise Inconclusive("solver: unknown")
            if m is False:
                raise PathAbort()
            self.M = m
            self.memo = {}
        self._assert(t)

    # --------------------------------------------------------------- branches
    def _step(self):
        self.ndec += 1
        if self.ndec > self.limits["decisions"]:
            raise PathTimeout("too many decisions on one path")

    def branch(self, t):
        k = self._implied(t)
        if k is not None:
            return k
        self._step()
        if self.ptr < len(self.prefix):
            h, v, forced = self.prefix[self.ptr]
            if h != t.h:
                raise Divergence(f"decision {self.ptr}: {t}")
            self.ptr += 1
            self.stats.decisions_replayed += 1
        else:
            self.stats.branches += 1
            v = tm.evaluate(t, self.M, self.memo)
            other = tm.not_(t) if v else t
            forced = False
            name = None
            if t.op == "var":
                name = t.args[0]
            elif t.op == "not" and t.args[0].op == "var":
                name = t.args[0].args[0]
            only = self._free_domain(t)
            if name is not None and name not in self.touched:
                m = dict(self.M)
                m[name] = not m[name]
                self.stats.independent += 1
            elif only is not None:
                # one bounded variable the path condition says nothing else
                # about: its domain decides the branch
                self.stats.independent += 1
                m = False
                for x in range(self.dom[only][0], self.dom[only][1] + 1):
                    if tm.evaluate(other, {only: x}, {}):
                        m = dict(self.M)
                        m[only] = x
                        break
                if m is False:
                    forced = True
                    self.stats.forced += 1
            else:
                m = self.solver.query(self.pc, other, self)
                if m is None:
                    raise Inconclusive("solver: unknown on a branch")
                if m is False:
                    forced = True
                    self.stats.forced += 1
            if not forced:
                self.work.append((tuple(self.trace) + ((t.h, not v, False),), m))
        self.trace.append((t.h, v, forced))
        lit = t if v else tm.not_(t)
        self._assert(lit, known_only=forced)
        return v

    def _free_domain(self, t):
        """The only variable of t, if its small domain is all that the path
        condition says about it."""
        if len(t.vs) != 1:
            return None
        (n,) = t.vs
        return n if n in self.dom and n not in self.touched else None

    def concretize(self, t):
        """The concrete value of a number term; forks over all its values."""
        if tm.is_const(t):
            return tm.const_value(t)
        if t in self.bound:
            return self.bound[t]
        if all(v in self.fixed for v in t.vs):
            return tm.evaluate(t, self.M, self.memo)
        self._step()
        if self.ptr < len(self.prefix):
            h, v, forced = self.prefix[self.ptr]
            if h != t.h:
                raise Divergence(f"decision {self.ptr}: value of {t}")
            self.ptr += 1
            self.stats.decisions_replayed += 1
        else:
            self.stats.branches += 1
            v = tm.evaluate(t, self.M, self.memo)
            forced = True
            excl = [tm.not_(tm.eq(t, tm.num(v, t.sort)))]
            only = self._free_domain(t)
            if only is not None and self.dom[only][1] - self.dom[only][0] < self.limits["values"]:
                self.stats.independent += 1
                seen = {v}
                for x in range(self.dom[only][0], self.dom[only][1] + 1):
                    w = tm.evaluate(t, {only: x}, {})
                    if w not in seen:
                        seen.add(w)
                        m = dict(self.M)
                        m[only] = x
                        self.work.append((tuple(self.trace) + ((t.h, w, False),), m))
                        forced = False
            while only is None:
                m = self.solver.query(self.pc, tm.and_(*excl), self)
                if m is None:
                    raise Inconclusive("solver: unknown on a value")
                if m is False:
                    break
                forced = False
                w = tm.evaluate(t, m, {})
                self.work.append((tuple(self.trace) + ((t.h, w, False),), m))
                excl.append(tm.not_(tm.eq(t, tm.num(w, t.sort))))
                if len(excl) > self.limits["values"]:
                    raise Inconclusive(f"more than {self.limits['values']} values for {t}")
            if forced:
                self.stats.forced += 1
        self.trace.append((t.h, v, forced))
        self.bound[t] = v
        self._assert(tm.eq(t, tm.num(v, t.sort)), known_only=forced)
        return v

    # ----------------------------------------------------------------- checks
    def check(self, c, msg):
        self.stats.checks += 1
        t = lift(c)
        if t is tm.TRUE:
            self.stats.trivial_checks += 1
            return
        self.pending.append((t, msg))

    def fail(self, msg):
        self.check(False, msg)

    def flush(self):
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        todo = []
        for t, msg in pend:
            if not tm.evaluate(t, self.M, self.memo):
                self._violation(self.M, pend)
                return
            todo.append(t)
        if not todo:
            return
        self.stats.check_queries += 1
        m = self.solver.query(self.pc, tm.not_(tm.and_(*todo)), self)
        if m is None:
            raise Inconclusive("solver: unknown on a check")
        if m is not False:
            self._violation(m, pend)

    def _violation(self, m, pend):
        memo = {}
        msgs = []
        for t, msg in pend:
            if not tm.evaluate(t, m, memo):
                msgs.append(msg)
        self.found.append(("check", msgs[:5], self.export(m)))

    def export(self, m):
        """Model -> JSON-able values of the declared inputs."""
        out = {}
        for n in self.inputs:
            v = m.get(n, self.defaults[n])
            out[n] = str(v) if isinstance(v, Fraction) else v
        return out

    # -------------------------------------------------------- vacuity, traces
    def cover(self, name, c=True):
        if name in self.cover_hit:
            return
        t = lift(c)
        if t is tm.FALSE:
            return
        self.cover_pending.append((name, t, len(self.pc)))

    def end_covers(self):
        for name, t, _ in self.cover_pending:
            if name in self.cover_hit:
                continue
            if tm.evaluate(t, self.M, self.memo):
                self.cover_hit.add(name)
            elif self._implied(t) is None:
                m = self.solver.query(self.pc, t, self)
                if m not in (None, False):
                    self.cover_hit.add(name)
        self.stats.covers |= self.cover_hit

    def observe(self, name, value):
        self.obs.append((name, value))

    def observed(self, m):
        memo = {}
        return [(n, plain(v, m, memo)) for n, v in self.obs]


def window(lo, hi):
    """The small integer range used when inputs are concretised eagerly."""
    if lo is None and hi is None:
        return -2, 2
    if lo is None:
        return hi - 3, hi
    if hi is None:
        return lo, lo + 3
    return lo, min(hi, lo + 7)


def evaluate_ok(t, m, memo):
    try:
        return tm.evaluate(t, m, memo) != 0
    except Exception:
        return False


def plain(v, m, memo):
    """Evaluate a structure holding symbolic values under a model."""
    if isinstance(v, (SymBool, SymNum)):
        r = tm.evaluate(v.t, m, memo)
        return norm(r)
    if isinstance(v, SymSym):
        return decode_symbol(tm.evaluate(v.t, m, memo), v.alpha)
    if isinstance(v, SymWord):
        return "".join(plain(a, m, memo) for a in v.chars)
    if isinstance(v, tuple):
        return tuple(plain(x, m, memo) for x in v)
    if isinstance(v, list):
        return [plain(x, m, memo) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x, m, memo) for x in v), key=repr)
    if isinstance(v, dict):
        return sorted(((plain(k, m, memo), plain(x, m, memo)) for k, x in v.items()), key=repr)
    return norm(v)


def norm(v):
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else v
    if isinstance(v, bool):
        return v
    return v


class ConcreteCtx:
    """Gives the harness the plain Python values of a recorded input vector."""
    symbolic = False

    def __init__(self, values, raise_on_fail=True):
        self.values = values
        self.obs = []
        self.fails = []
        self.assumed = True
        self.raise_on_fail = raise_on_fail

    def bool(self, name):
        return bool(self.values.get(name, False))

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (min(0, hi) if hi is not None else 0)
        return int(self.values.get(name, d))

    def real(self, name, lo=None, hi=None):
        d = lo if lo is not None else (min(0, hi) if hi is not None else 0)
        # always a Fraction, so that a division stays exact
        return Fraction(self.values.get(name, d))

    def sym(self, name, alpha=None, size=None):
        return decode_symbol(int(self.values.get(name, 0)), alpha)

    def word(self, name, length, alpha=None, size=None):
        cs = [self.sym(f"{name}[{i}]", alpha, size) for i in range(length)]
        return "".join(cs) if all(isinstance(c, str) and len(c) == 1 for c in cs) else tuple(cs)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.values.get(name, 0))]

    def assume(self, c):
        if not c:
            raise PathAbort()

    def check(self, c, msg):
        if not c:
            self.fails.append(msg)

    def fail(self, msg):
        self.fails.append(msg)

    def cover(self, name, c=True):
        pass

    def observe(self, name, value):
        self.obs.append((name, value))

    def observed(self):
        return [(n, plain(v, {}, {})) for n, v in self.obs]

    def flush(self):
        pass


# ------------------------------------------------------------ path execution
def _alarm(signum, frame):
    raise PathTimeout("time limit on one path")


def run_path(ctx, func, params, prefix, model):
    """Run one path; findings are in ctx.found, alternatives in ctx.work."""
    ctx.start(prefix, model)
    Engine.cur = ctx
    status = "ok"
    signal.setitimer(signal.ITIMER_VIRTUAL, ctx.limits["path_s"])
    try:
        try:
            func(ctx, **params)
            ctx.flush()
            ctx.end_covers()
        except PathAbort:
            status = "infeasible"
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except PathTimeout as e:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            status = "timeout"
            ctx.found.append(("timeout", [str(e)], ctx.export(ctx.M)))
        except Exception as e:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            status = "exception"
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:]]
            ctx.found.append(("exception", [f"{type(e).__name__}: {e} at {' < '.join(reversed(where))}"],
                              ctx.export(ctx.M)))
            try:
                ctx.flush()
            except BaseException:
                pass
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        Engine.cur = None
    if status == "infeasible":
        ctx.stats.infeasible += 1
    else:
        ctx.stats.paths += 1
    return status


def run_concrete(func, params, values, path_s=20, profile=None):
    """Run the harness on plain values.  -> (status, messages, observations)"""
    ctx = ConcreteCtx(values)
    Engine.cur = None
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, path_s)
    try:
        if profile is not None:
            sys.setprofile(profile)
        try:
            func(ctx, **params)
        finally:
            if profile is not None:
                sys.setprofile(None)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except PathAbort:
        return ("aborted", ["assumption false"], [])
    except PathTimeout as e:
        return ("timeout", ["does not terminate within the time limit"], [])
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:]]
        return ("exception", [f"{type(e).__name__}: {e} at {' < '.join(reversed(where))}"] + ctx.fails, [])
    finally:
        signal.signal(signal.SIGVTALRM, old)
    if ctx.fails:
        return ("fail", ctx.fails, ctx.observed())
    return ("ok", [], ctx.observed())
