"""
Path-exploring symbolic execution engine.

One Engine explores one harness.  The harness is ordinary Python run against the real (AST-instrumented)
dessia_common code; its inputs are symbolic proxies.  Every time a symbolic condition has to become a Python bool the
engine asks the solver which outcomes are feasible under the current path condition and forks by re-execution.
"""
import time
import zlib
from fractions import Fraction

import z3


class Stop(BaseException):
    """ Ends the current path. Code written in C may swallow it (looking up an OrderedDict does), so the last one is kept. """
    last = None

    def __init__(self, *args):
        super().__init__(*args)
        Stop.last = self

    @staticmethod
    def resume():
        """ Goes on stopping, if the path was to be stopped. """
        if Stop.last is not None:
            raise Stop.last


class PathAbort(Stop):
    """ Abandons the current path (infeasible assumption, or a path the engine cannot finish). """


class OtherShard(PathAbort):
    """ The path belongs to another worker. """


class Nondeterminism(Stop):
    """ Re-execution of a prefix took a different course. """


class BudgetExceeded(Stop):
    """ Time or path budget of the harness used up. """


class Entry:
    __slots__ = ("kind", "value", "alt", "scope", "fp", "expr")

    def __init__(self, kind, value, alt, scope, fp, expr=None):
        self.kind = kind
        self.value = value
        self.alt = alt
        self.scope = scope
        self.fp = fp
        self.expr = expr


ENGINE = None
_HASH_REAL = z3.Function("hash_float", z3.RealSort(), z3.IntSort())


def current():
    """ The engine exploring now, None in concrete runs. """
    return ENGINE


def set_current(engine):
    global ENGINE
    ENGINE = engine


class Engine:
    def __init__(self, query_timeout_ms=8000, max_paths=100000, deadline=None, realise_cap=6,
                 shard=(0, 1), shard_depth=9):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.trail = []
        self.pos = 0
        self.model = None
        self.max_paths = max_paths
        self.deadline = deadline
        self.realise_cap = realise_cap
        self.shard = shard
        self.shard_depth = shard_depth
        self.forks = 0
        self.inputs = {}
        self.int_bounds = {}
        self.range_cache = {}
        self.uf_apps = []
        self.hash_apps = []
        self.stats = {"paths": 0, "completed": 0, "aborted": 0, "queries": 0, "solver_s": 0.0, "checks": 0,
                      "checks_solver": 0, "unknown": 0, "realised": 0, "incomplete": 0, "branches": 0}
        self.notes = {}
        self.functions = set()
        self.counterexamples = []
        self.samples = []
        self.labels = {}
        self.texts = None
        self.counter = 0
        self.uuid = 0
        self.precise = False
        self.roots = []

    # ------------------------------------------------------------------ solver access
    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    def _check(self, *assumptions):
        start = time.time()
        res = self.solver.check(*assumptions)
        self.stats["queries"] += 1
        self._last = self.solver
        if res == z3.unknown:  # once more without incrementality, which lets z3 preprocess
            fresh = z3.Solver()
            fresh.set("timeout", 20000)
            fresh.add(*self.solver.assertions())
            fresh.add(*assumptions)
            res = fresh.check()
            self.stats["retries"] = self.stats.get("retries", 0) + 1
            self._last = fresh
        self.stats["solver_s"] += time.time() - start
        if res == z3.unknown:
            self.stats["unknown"] += 1
            self.note("solver returned unknown: " + self._last.reason_unknown())
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        return res

    def _model_says(self, expr):
        """ Truth of expr under the model kept for the current path condition (None if there is none). """
        if self.model is None:
            return None
        val = self.model.eval(expr, model_completion=True)
        if z3.is_true(val):
            return True
        if z3.is_false(val):
            return False
        return None

    def ensure_model(self):
        if self.model is None:
            res = self._check()
            if res == z3.sat:
                self.model = self._last.model()
            elif res == z3.unsat:
                raise PathAbort("infeasible path")
        return self.model

    # ------------------------------------------------------------------ decisions
    def branch(self, expr):
        """ Decide a symbolic condition, forking when both outcomes are feasible. """
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        fp = expr.hash()
        if self.pos < len(self.trail):
            entry = self.trail[self.pos]
            if entry.kind != "b" or entry.fp != fp:
                raise Nondeterminism(f"{entry.kind} {entry.expr} vs {expr}")
            self.pos += 1
            if entry.scope:
                self._forked()
            return entry.value
        self.stats["branches"] += 1
        negated = z3.Not(expr)
        says = self._model_says(expr)
        can_true = can_false = None
        model_true = model_false = None
        if says is True:
            can_true, model_true = True, self.model
        elif says is False:
            can_false, model_false = True, self.model
        if can_true is None:
            res = self._check(expr)
            can_true = res != z3.unsat
            model_true = self._last.model() if res == z3.sat else None
        if can_false is None:
            if not can_true:
                can_false = True
            else:
                res = self._check(negated)
                can_false = res != z3.unsat
                model_false = self._last.model() if res == z3.sat else None
        if can_true and can_false:
            self.solver.push()
            self.solver.add(expr)
            self.model = model_true
            self.trail.append(Entry("b", True, (negated, model_false), True, fp, expr))
            self.pos += 1
            self._forked()
            return True
        else:
            value = can_true
            if value and model_true is not None:
                self.model = model_true
            elif not value and model_false is not None:
                self.model = model_false
            self.trail.append(Entry("b", value, None, False, fp, expr))
        self.pos += 1
        return value

    def _forked(self):
        """ Work sharing: past the first forks of a path, only one shard goes on. """
        self.forks += 1
        if self.forks == self.shard_depth and self.shard[1] > 1:
            if not self._mine():
                raise OtherShard()

    def _mine(self):
        bits = "".join("1" if e.value else "0" for e in self.trail[:self.pos] if e.scope)
        return zlib.crc32(bits.encode()) % self.shard[1] == self.shard[0]

    def constrain(self, expr):
        """ Add a constraint that defines a fresh symbol or states an assumption. """
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        fp = expr.hash()
        if self.pos < len(self.trail):
            entry = self.trail[self.pos]
            if entry.kind != "a" or entry.fp != fp:
                raise Nondeterminism(f"{entry.kind} {entry.expr} vs assume {expr}")
            self.pos += 1
            if entry.value is False:
                raise PathAbort("assumption infeasible")
            return
        feasible = True
        if z3.is_false(expr):
            feasible = False
        elif self._model_says(expr) is not True:
            self.model = None
            res = self._check(expr)
            if res == z3.sat:
                self.model = self._last.model()
            feasible = res != z3.unsat
        if feasible:
            self.solver.add(expr)
        self.trail.append(Entry("a", feasible, None, False, fp, expr))
        self.pos += 1
        if not feasible:
            raise PathAbort("assumption infeasible")

    def pick(self, expr):
        """ Some value of expr feasible on this path (same value when the path is re-executed). """
        if self.pos < len(self.trail):
            entry = self.trail[self.pos]
            if entry.kind != "v":
                raise Nondeterminism("value")
            self.pos += 1
            return entry.value
        if self.ensure_model() is None:
            self.stats["incomplete"] += 1
            self.note("no model available to realise a value")
            raise PathAbort("no model")
        val = self.model.eval(expr, model_completion=True)
        self.trail.append(Entry("v", val, None, False, 0))
        self.pos += 1
        return val

    def realise(self, expr, why=""):
        """ Concretise expr, forking over its feasible values (complete when there are few enough). """
        self.stats["realised"] += 1
        for _ in range(self.realise_cap):
            val = self.pick(expr)
            if self.branch(expr == val):
                return val
        self.stats["incomplete"] += 1
        self.note(f"realisation capped: {why}")
        raise PathAbort("realisation cap")

    def backtrack(self):
        """ Move to the next unexplored alternative; False when the tree is exhausted. """
        while self.trail:
            entry = self.trail.pop()
            if entry.scope:
                self.solver.pop()
            if entry.alt is not None:
                negated, model = entry.alt
                self.solver.push()
                self.solver.add(negated)
                self.model = model
                self.trail.append(Entry("b", False, None, True, entry.fp, entry.expr))
                return True
        return False

    # ------------------------------------------------------------------ symbols
    def fresh(self, prefix, sort):
        """ Fresh auxiliary symbol, named deterministically within the path. """
        self.counter += 1
        return z3.Const(f"{prefix}!{self.counter}", sort)

    def _start_path(self):
        self.pos = 0
        self.forks = 0
        self.counter = 0
        self.uuid = 0
        self.precise = False
        self.roots = []
        self.inputs = {}
        self.int_bounds = {}
        self.range_cache = {}
        self.uf_apps = []
        self.hash_apps = []
        self.path_labels = []
        self.texts = None

    # ------------------------------------------------------------------ assertions
    def check(self, cond_expr, label, detail=""):
        """ Assert cond_expr on this path: the solver must refute its negation. """
        Stop.resume()
        self.stats["checks"] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        self.path_labels.append(label)
        expr = z3.simplify(cond_expr)
        if z3.is_true(expr):
            return True
        # In a replayed prefix the verdict is already known: the check was an 'a' entry.
        fp = expr.hash()
        if self.pos < len(self.trail):
            entry = self.trail[self.pos]
            if entry.kind != "c" or entry.fp != fp:
                raise Nondeterminism(f"{entry.kind} {entry.expr} vs check {label}")
            self.pos += 1
            if entry.value is False:
                raise PathAbort("check cannot hold")
            return True
        self.stats["checks_solver"] += 1
        negated = z3.Not(expr)
        says = self._model_says(expr)
        res = z3.sat if z3.is_false(expr) else self._check(negated)
        feasible_after = True
        if res == z3.sat:
            model = None
            if z3.is_false(expr):
                model = self.ensure_model()
                if model is None:
                    self.stats["incomplete"] += 1
                    self.note(f"check {label} fails on a path whose feasibility the solver cannot decide")
                    raise PathAbort("undecided path")
            else:
                model = self._last.model()
            self.record_counterexample(label, detail, negated, model)
            if z3.is_false(expr):
                feasible_after = False
            else:
                feasible_after = self._check(expr) != z3.unsat
                self.model = None
        elif res == z3.unknown:
            self.stats["incomplete"] += 1
            self.note(f"check {label}: solver unknown")
        if feasible_after and not z3.is_false(expr):
            self.solver.add(expr)
            if says is not True:
                self.model = None
        self.trail.append(Entry("c", feasible_after, None, False, fp, expr))
        self.pos += 1
        if not feasible_after:
            raise PathAbort("check failed for every value")
        return True

    def fail(self, label, detail=""):
        """ The path itself is a violation (an exception, say), for every value satisfying the path condition. """
        Stop.resume()
        self.stats["checks"] += 1
        self.path_labels.append(label)
        self.labels[label] = self.labels.get(label, 0) + 1
        model = self.ensure_model()
        if model is None:
            self.stats["incomplete"] += 1
            self.note(f"{label} on a path whose feasibility the solver cannot decide")
            raise PathAbort("undecided path")
        self.record_counterexample(label, detail, z3.BoolVal(True), model)

    def nice_models(self, extra):
        """ Models of the path condition and extra, preferring small dyadic values that floats represent exactly. """
        reals = [v[1] for v in self.inputs.values() if v[0] == "real"]
        ints = [v[1] for v in self.inputs.values() if v[0] == "int"]
        preferences = []
        small = [z3.And(r >= -64, r <= 64, z3.IsInt(r * 4)) for r in reals]
        small_i = [z3.And(i >= -50, i <= 50) for i in ints]
        if reals or ints:
            preferences.append(small + small_i)
            preferences.append([z3.IsInt(r * 1024) for r in reals] + small_i)
            preferences.append([z3.IsInt(r * 1024) for r in reals])
        preferences.append([])
        for pref in preferences:
            self.solver.push()
            self.solver.add(extra)
            for p in pref:
                self.solver.add(p)
            start = time.time()
            self.solver.set("timeout", 3000)
            res = self.solver.check()
            self.solver.set("timeout", 8000)
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - start
            model = self.solver.model() if res == z3.sat else None
            if model is not None and self.hash_apps:
                model = self.refine_hashes(model)
            self.solver.pop()
            if model is not None:
                yield model

    def refine_hashes(self, model):
        """ A model in which the hash of every hashed float and string is the one CPython computes. """
        facts = []
        for kind, arg in self.hash_apps:
            if kind == "real":
                value = model.eval(arg, model_completion=True)
                if not z3.is_rational_value(value):
                    continue
                number = float(Fraction(frac_of(value)))
                if number != int(number):
                    facts.append(z3.And(arg == value, _HASH_REAL(value) == hash(number)))
            else:
                chars = [c if isinstance(c, int) else int_of(model.eval(c, model_completion=True)) for c in arg]
                func = z3.Function(f"hash_str_{len(chars)}", *([z3.IntSort()] * (len(chars) + 1)))
                facts.append(z3.And(*([c == v for c, v in zip(arg, chars) if not isinstance(c, int)] +
                                      [func(*[z3.IntVal(v) for v in chars]) == hash("".join(map(chr, chars)))])))
        if not facts:
            return model
        self.solver.push()
        self.solver.add(*facts)
        res = self.solver.check()
        refined = self.solver.model() if res == z3.sat else model
        self.solver.pop()
        return refined

    def record_counterexample(self, label, detail, negated, model):
        same = sum(1 for c in self.counterexamples if c["label"] == label)
        if same >= 8:
            self.stats["ce_dropped"] = self.stats.get("ce_dropped", 0) + 1
            return
        assignments = []
        for nice in self.nice_models(negated):
            value = self.assignment(nice)
            if value not in assignments:
                assignments.append(value)
            if len(assignments) >= 3:
                break
        if not assignments and model is not None:
            assignments.append(self.assignment(model))
        self.counterexamples.append({"label": label, "detail": str(detail)[:2000], "assignments": assignments,
                                     "trace": list(self.path_labels)})

    # ------------------------------------------------------------------ models to inputs
    def assignment(self, model):
        """ Concrete inputs of the harness under model. """
        out = {}
        for name, (kind, expr) in self.inputs.items():
            if kind == "str":
                out[name] = ["str", [int_of(model.eval(c, model_completion=True)) if not isinstance(c, int) else c
                                     for c in expr]]
            elif kind == "real":
                out[name] = ["real", frac_of(model.eval(expr, model_completion=True))]
            elif kind == "int":
                out[name] = ["int", int_of(model.eval(expr, model_completion=True))]
            elif kind == "bool":
                out[name] = ["bool", z3.is_true(model.eval(expr, model_completion=True))]
        apps = []
        for name, args, kind, expr in self.uf_apps:
            vals = [val_of(model.eval(a, model_completion=True)) for a in args]
            res = model.eval(expr, model_completion=True)
            apps.append([name, vals, kind, frac_of(res) if kind == "real" else int_of(res)])
        return {"inputs": out, "uf": apps}

    # ------------------------------------------------------------------ main loop
    def explore(self, run, sample_every=1, max_samples=40):
        """ Run the harness on every feasible path. Returns True when the path tree was exhausted. """
        set_current(self)
        exhausted = False
        try:
            while True:
                if self.stats["paths"] >= self.max_paths:
                    break
                self.stats["paths"] += 1
                self._start_path()
                Stop.last = None
                try:
                    run()
                    Stop.resume()
                    if self.shard[1] > 1 and self.forks < self.shard_depth and not self._mine():
                        raise OtherShard()
                    self.stats["completed"] += 1
                    if self.stats["completed"] <= 8 or len(self.samples) < max_samples and \
                            self.stats["completed"] % sample_every == 0:
                        if self.ensure_model() is not None:
                            for nice in self.nice_models(z3.BoolVal(True)):
                                self.samples.append({"assignment": self.assignment(nice),
                                                     "trace": list(self.path_labels)})
                                break
                except OtherShard:
                    self.stats["paths"] -= 1
                except PathAbort:
                    self.stats["aborted"] += 1
                if self.deadline is not None and time.time() > self.deadline:
                    raise BudgetExceeded()
                if not self.backtrack():
                    exhausted = True
                    break
        except BudgetExceeded:
            self.note("time budget used up before the path tree was exhausted")
        finally:
            set_current(None)
        return exhausted


def int_of(val):
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        return int(Fraction(val.numerator_as_long(), val.denominator_as_long()))
    return 0


def frac_of(val):
    """ 'n/d' string of a numeric z3 value. """
    if z3.is_int_value(val):
        return str(val.as_long())
    if z3.is_rational_value(val):
        return f"{val.numerator_as_long()}/{val.denominator_as_long()}"
    if z3.is_algebraic_value(val):
        approx = val.approx(20)
        return f"{approx.numerator_as_long()}/{approx.denominator_as_long()}"
    return "0"


def val_of(val):
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    return frac_of(val)
