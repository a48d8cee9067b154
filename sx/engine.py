"""Path-forking symbolic execution engine (one path at a time, re-execution).

A *path* is one run of a harness over the instrumented source of /repo.  Every
time the run asks for the truth value of a symbolic condition, the solver (z3)
is asked which of the two answers is possible under the path condition.  If
both are, the run continues with one and the other is queued as a decision
prefix for a later run.  A property assertion is decided by asking the solver
whether its negation is satisfiable together with the path condition.
"""
import time

import z3


class PathControl(BaseException):
    """Base of everything that ends a path for a reason of the engine."""


class Infeasible(PathControl):
    """An assumption is unsatisfiable on this path."""


class Inconclusive(PathControl):
    """The engine cannot follow this path (unsupported, solver unknown)."""


class Violation(PathControl):
    """A property assertion can fail on this path."""

    def __init__(self, label, detail=""):
        super().__init__(label, detail)
        self.label = label
        self.detail = detail


class KnownPathEnd(PathControl):
    """The path ran into a listed known finding."""


WIDTH = 21          # bits of a code point / byte term


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.forced = 0
        self.proved = 0
        self.proved_concrete = 0
        self.concretised = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    """State of the path that is currently being executed."""

    def __init__(self):
        self.stats = Stats()
        self.functions = set()
        self.reset([])

    def reset(self, prefix):
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", 20000)
        self.pc = []
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.facts = {}
        self.keep = []
        self.model = None
        self.inputs = {}
        self.aborted = None
        self.conc_values = {}
        self.incomplete = []
        self.steps = 0
        self.max_steps = 400000
        self.deadline = None

    # -- solver ---------------------------------------------------------
    def _check(self, *conds):
        if self.deadline is not None and time.monotonic() > self.deadline:
            self.stop(Inconclusive("path time limit"))
        t = time.perf_counter()
        r = self.solver.check(*conds)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            self.model = self.solver.model()
            return True
        if r == z3.unsat:
            self.stats.unsat += 1
            return False
        self.stats.unknown += 1
        self.stop(Inconclusive("solver answered unknown"))

    def stop(self, exc):
        self.aborted = exc
        raise exc

    def add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)

    def _model_says(self, cond):
        """True/False if the last model is a model of the pc and decides cond."""
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def possible(self, cond):
        if self._model_says(cond) is True:
            return True
        keep = self.model
        ok = self._check(cond)
        if not ok:
            self.model = keep
        return ok

    # -- branching ------------------------------------------------------
    def branch(self, cond):
        """The truth value of `cond` (a z3 Bool) on this path."""
        if self.aborted is not None:
            raise self.aborted
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        fid = cond.get_id()
        known = self.facts.get(fid)
        if known is not None:
            return known
        self.keep.append(cond)
        pos = len(self.trace)
        neg = z3.Not(cond)
        if pos < len(self.prefix):
            value = bool(self.prefix[pos])
        else:
            can_true = self.possible(cond)
            if can_true:
                can_false = self.possible(neg)
            else:
                can_false = True
            if can_true and can_false:
                self.pending.append(self.trace + [0])
                self.stats.branches += 1
            else:
                self.stats.forced += 1
            value = can_true
        self.trace.append(1 if value else 0)
        lit = cond if value else neg
        self.add(lit)
        if self.model is not None and self._model_says(lit) is not True:
            self.model = None
        self.facts[fid] = value
        return value

    def fork(self, n):
        """A choice among n alternatives, all of them possible."""
        if self.aborted is not None:
            raise self.aborted
        pos = len(self.trace)
        if pos < len(self.prefix):
            value = self.prefix[pos]
        else:
            value = 0
            for alt in range(n - 1, 0, -1):
                self.pending.append(self.trace + [alt])
            self.stats.branches += n - 1
        self.trace.append(value)
        return value

    def choose(self, var, n):
        """Fork over the values 0..n-1 of the bit-vector `var`."""
        if n <= 1:
            self.add(var == 0)
            return 0
        value = self.fork(n)
        self.add(var == value)
        self.model = None
        return value

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                self.stop(Infeasible("assumption false"))
            return
        if self._model_says(cond) is not True:
            self.model = None
            if not self._check(cond):
                self.stop(Infeasible("assumption unsatisfiable"))
        self.add(cond)

    def prove(self, cond, label, detail=""):
        """Decide the assertion: unsat(pc and not cond) or a violation."""
        if self.aborted is not None:
            raise self.aborted
        if isinstance(cond, bool):
            self.stats.proved_concrete += 1
            if cond:
                return
            self.ensure_model()
            self.stop(Violation(label, detail))
        if z3.is_true(cond):
            self.stats.proved_concrete += 1
            return
        neg = z3.Not(cond)
        if self._model_says(neg) is True or self._check(neg):
            self.add(neg)
            self.stop(Violation(label, detail))
        self.stats.proved += 1

    def ensure_model(self):
        if self.model is None:
            if not self._check():
                self.stop(Infeasible("path condition unsatisfiable"))
        return self.model

    # -- concretisation -------------------------------------------------
    def concretise_terms(self, terms, limit=6, why="concretised"):
        """Fix every z3 term of `terms` to one value of a model; alternatives
        are explored too, at most `limit` per site and path."""
        terms = [t for t in terms if not isinstance(t, int)]
        if not terms:
            return {}
        self.stats.concretised += 1
        for attempt in range(limit + 1):
            # determinism under replay: the model is a function of the pc only
            # if the same queries were asked; so the value is stored in the
            # decision trace itself.
            pos = len(self.trace)
            if pos < len(self.prefix):
                vals = self.prefix[pos]
            else:
                self.ensure_model()
                vals = tuple(
                    self.model.eval(t, model_completion=True).as_long()
                    for t in terms)
            self.trace.append(vals)
            eq = z3.And([t == v for t, v in zip(terms, vals)])
            if attempt == limit:
                # give up on the alternatives
                self.add(eq)
                self.incomplete.append(why)
                return dict(zip((t.get_id() for t in terms), vals))
            if self.branch(eq):
                return dict(zip((t.get_id() for t in terms), vals))


E = Engine()
