"""Path-exploring engine: every feasible path, decided by z3; when time is short the paths
followed are spread evenly over the symbolic variables."""
from __future__ import annotations

import random
import sys
import time

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

HASHED = [False]       # a symbolic value was hashed on this path: it may be a key of some dict or set


class Control(BaseException):
    """Base of engine control-flow; BaseException so that code under test
    cannot swallow it with ``except Exception``."""


class PathAbort(Control):
    """The current path leaves the stated bounds / violates an assumption."""


class StepLimit(Control):
    """The code under test executed more steps than the bound allows."""


class PropertyViolation(Control):
    def __init__(self, msg, record=None):
        super().__init__(msg)
        self.msg = msg
        self.record = record


class EngineError(Control):
    pass


class Entry:
    __slots__ = ("cond", "pol", "done", "kind", "expr", "const", "parent")

    def __init__(self, cond, pol, done, kind="br", expr=None, const=None, parent=None):
        self.cond, self.pol, self.done = cond, pol, done
        self.kind, self.expr, self.const = kind, expr, const  # expr: key
        self.parent = parent


def subject(cond):
    """The name of the first variable of a condition."""
    x = cond
    while True:
        if z3.is_const(x):
            return str(x) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else ""
        for i in range(x.num_args()):
            y = x.arg(i)
            if not z3.is_const(y) or y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                x = y
                break
        else:
            return ""


class Engine:
    """One symbolic exploration.  ``CUR`` is the engine in use (one per process)."""

    CUR: "Engine" = None  # type: ignore

    def __init__(self, max_paths=100000, max_time=60.0, max_steps=200000,
                 realize_cap=64, timeout_ms=20000, seed=1):
        self.solver = z3.SolverFor("QF_LIA")
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", seed)
        self.stack: list[Entry] = []      # the path followed, as asserted in the solver
        self.frontier: dict = {}          # subject -> decisions whose other side is unexplored
        self.served: dict = {}
        self.n_frontier = 0
        self.rng = random.Random(seed)
        self.pos = 0
        self.assign: dict = {}
        self.vars: dict = {}
        self.seen: dict = {}
        self.max_paths, self.max_time, self.max_steps = max_paths, max_time, max_steps
        self.realize_cap = realize_cap
        # statistics
        self.n_paths = self.n_aborted = self.n_branches = 0
        self.n_queries = self.n_sat = self.n_unsat = self.n_unknown = 0
        self.solver_s = 0.0
        self.n_asserts = 0
        self.exhaustive = True
        self.notes: dict = {}
        self.errors: list = []
        self.violations: list = []
        self.in_run = False
        self.steps = 0
        self.funcs: set = set()
        self.run_state: dict = {}

    # ---------------------------------------------------------------- notes
    def note(self, what, incomplete=False):
        self.notes[what] = self.notes.get(what, 0) + 1
        if incomplete:
            self.exhaustive = False

    # ------------------------------------------------------------- variables
    def fresh_name(self, name):
        n = self.run_state["names"]
        k = n.get(name, 0)
        n[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def int_var(self, name, lo=None, hi=None, default=None):
        name = self.fresh_name(name)
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Int(name)
        c = self.assign.get(name)
        if c is None:
            if self.n_paths and lo is not None and hi is not None and self.rng.random() < 0.7:
                c = self.rng.randint(lo, hi)
            else:
                c = default if default is not None else (lo if lo is not None else 0)
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self.constrain(z3.And(*cs) if len(cs) > 1 else cs[0])
        self.run_state["used"][name] = c
        return v, c

    def bool_var(self, name):
        name = self.fresh_name(name)
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Bool(name)
        c = self.assign.get(name)
        if c is None:
            c = bool(self.n_paths) and self.rng.random() < 0.4
        self.run_state["used"][name] = c
        return v, c

    # ---------------------------------------------------------------- trail
    def _record(self, cond, pol, done, kind="br", expr=None, const=None):
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e.pol != pol or not (e.cond is cond or e.cond.eq(cond)):
                raise EngineError(
                    f"divergence at {self.pos}: expected {e.cond}={e.pol}, got {cond}={pol}")
        else:
            e = Entry(cond, pol, done, kind, expr, const, self.stack[-1] if self.stack else None)
            self.stack.append(e)
            self.solver.push()
            self.solver.add(cond if pol else z3.Not(cond))
            self.n_branches += 1
            if not done:
                k = subject(cond)
                if k not in self.frontier:
                    self.frontier[k] = []
                    self.served[k] = min(self.served.values(), default=0)
                self.frontier[k].append(e)
                self.n_frontier += 1
        self.pos += 1
        self.seen[cond.get_id()] = (cond, pol)

    def constrain(self, cond):
        """Domain constraint: true by construction of the concrete witness."""
        self._record(cond, True, True, "dom")

    def branch(self, cond, truth):
        """Record that condition ``cond`` (z3) has concrete truth value ``truth``."""
        if not self.in_run:
            return truth
        if z3.is_true(cond) or z3.is_false(cond):
            if z3.is_true(cond) != truth:
                raise EngineError(f"constant condition {cond} but concrete {truth}")
            return truth
        s = self.seen.get(cond.get_id())
        if s is not None:
            if s[1] != truth:
                raise EngineError(f"inconsistent witness for {cond}")
            return truth
        self._record(cond, truth, False)
        return truth

    def realize(self, expr, concrete, mkcond):
        """Fork over the values of a symbolic quantity.

        ``mkcond(c)`` gives the z3 condition "the quantity equals c"; ``concrete``
        is its value in the current witness.  Complete when the domain is finite
        and smaller than ``realize_cap``."""
        if not self.in_run:
            return concrete
        key = expr.get_id() if hasattr(expr, "get_id") else expr
        n = 0
        while self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e.kind != "real" or e.expr != key:
                break
            truth = e.const == concrete
            self._record(e.cond, truth, False)
            n += 1
            if truth:
                return concrete
        cond = mkcond(concrete)
        if z3.is_true(cond):
            return concrete
        s = self.seen.get(cond.get_id())
        if s is not None and s[1]:
            return concrete
        done = False
        if n >= self.realize_cap:
            done = True
            self.note("realize cap reached", incomplete=True)
        self._record(cond, True, done, "real", key, concrete)
        return concrete

    def assume(self, cond):
        """cond: python bool or SymBool."""
        if not cond:
            raise PathAbort("assume")

    # ------------------------------------------------------------------ run
    def _check(self):
        t = time.time()
        r = self.solver.check()
        self.solver_s += time.time() - t
        self.n_queries += 1
        if r == z3.sat:
            self.n_sat += 1
        elif r == z3.unsat:
            self.n_unsat += 1
        else:
            self.n_unknown += 1
            self.exhaustive = False
            self.note("solver unknown")
        return r

    def _model_assign(self):
        m = self.solver.model()
        out = {}
        for name, v in self.vars.items():
            val = m.eval(v, model_completion=False)
            if z3.is_int_value(val):
                out[name] = val.as_long()
            elif z3.is_true(val):
                out[name] = True
            elif z3.is_false(val):
                out[name] = False
        return out

    def _pick(self):
        """An unexplored decision: the subjects take turns, at random among those of one."""
        k = min((k for k, v in self.frontier.items() if v), key=lambda k: self.served[k])
        self.served[k] += 1
        v = self.frontier[k]
        i = self.rng.randrange(len(v))
        v[i], v[-1] = v[-1], v[i]
        self.n_frontier -= 1
        return v.pop()

    def _go(self, path):
        """Make the solver's assertions those of the path."""
        n = 0
        while n < len(path) and n < len(self.stack) and path[n] is self.stack[n]:
            n += 1
        if len(self.stack) > n:
            self.solver.pop(len(self.stack) - n)
            del self.stack[n:]
        for e in path[n:]:
            self.solver.push()
            self.solver.add(e.cond if e.pol else z3.Not(e.cond))
            self.stack.append(e)

    def _next(self):
        """Go on to some unexplored feasible alternative."""
        while self.n_frontier:
            if time.time() > self.t_end:
                return True
            e = self._pick()
            path = [Entry(e.cond, not e.pol, True, e.kind, e.expr, e.const, e.parent)]
            x = e.parent
            while x is not None:
                path.append(x)
                x = x.parent
            path.reverse()
            self._go(path)
            if self._check() == z3.sat:
                self.assign = self._model_assign()
                return True
        return False

    def explore(self, fn, on_path=None, max_violations=3):
        """Run ``fn()`` over all feasible paths."""
        Engine.CUR = self
        t0 = time.time()
        self.t_end = t0 + self.max_time
        self.assign = {}
        while True:
            self.pos = 0
            self.seen = {}
            self.steps = 0
            HASHED[0] = False
            self.run_state = {"names": {}, "used": {}, "keep": [], "ids": {}, "data": {}}
            self.in_run = True
            status, info = "ok", None
            try:
                info = fn()
            except PathAbort as exc:
                status, info = "abort", str(exc)
                self.n_aborted += 1
            except PropertyViolation as exc:
                status, info = "violation", exc
                self.violations.append((exc.msg, exc.record))
            except StepLimit as exc:
                status, info = "steplimit", exc
                self.note("step limit reached", incomplete=True)
            except EngineError as exc:
                status, info = "error", exc
                self.errors.append(str(exc))
                self.exhaustive = False
            except RecursionError as exc:
                status, info = "error", exc
                self.errors.append("RecursionError in harness")
                self.exhaustive = False
            finally:
                self.in_run = False
            self.n_paths += 1
            if on_path is not None:
                on_path(status, info, self)
            # a run may be shorter than the prefix (e.g. divergence): trim
            while len(self.stack) > max(self.pos, 0):
                self.stack.pop()
                self.solver.pop()
            if len(self.violations) >= max_violations:
                self.exhaustive = False
                break
            if self.n_paths >= self.max_paths:
                if self._next():
                    self.exhaustive = False
                    self.note("path budget reached")
                break
            if time.time() - t0 > self.max_time:
                if self._next():
                    self.exhaustive = False
                    self.note("time budget reached")
                break
            if len(self.errors) > 50:
                break
            if not self._next():
                break
            if time.time() > self.t_end:
                self.exhaustive = False
                self.note("time budget reached")
                break
        self.wall = time.time() - t0
        return self

    def stats(self):
        return dict(paths=self.n_paths, aborted=self.n_aborted, branches=self.n_branches,
                    queries=self.n_queries, sat=self.n_sat, unsat=self.n_unsat,
                    unknown=self.n_unknown, solver_s=round(self.solver_s, 3),
                    asserts=self.n_asserts, exhaustive=self.exhaustive,
                    notes=dict(self.notes), errors=self.errors[:5],
                    wall_s=round(getattr(self, "wall", 0), 2),
                    functions=sorted(self.funcs))


def cur() -> Engine:
    return Engine.CUR


def step(where=None):
    e = Engine.CUR
    if e is None or not e.in_run:
        return
    e.steps += 1
    if e.steps > e.max_steps:
        raise StepLimit(f"more than {e.max_steps} steps")
