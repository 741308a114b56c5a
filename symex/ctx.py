"""
What a harness sees: named inputs, assumptions, assertions.  The same harness runs symbolically (SymCtx, instrumented
code) and concretely (ConcreteCtx, the untouched code in /repo) for replays.
"""
from fractions import Fraction
import random

REGISTRY = {}


def harness(prop, name=None, bounds="", budget=120, tiers=("quick", "thorough"), max_paths=200000, realise_cap=6,
            shards=1):
    """ Registers a harness function of a property. """
    def deco(func):
        entry = {"property": prop, "name": name or func.__name__, "func": func, "bounds": bounds, "budget": budget,
                 "tiers": tiers, "max_paths": max_paths, "doc": (func.__doc__ or "").strip(),
                 "realise_cap": realise_cap, "shards": shards}
        REGISTRY.setdefault(prop, {})[entry["name"]] = entry
        return func
    return deco


class Violation(Exception):
    """ A check failed in a concrete run. """

    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Skip(Exception):
    """ The concrete inputs do not satisfy an assumption. """


class BaseCtx:
    symbolic = False
    tier = "quick"

    def bound(self, quick, thorough):
        """ A bound that depends on the tier. """
        return thorough if self.tier == "thorough" else quick

    def precise(self):
        """ Square roots and the like are to be modelled exactly, at the cost of non-linear queries. """

    # structure ------------------------------------------------------------------------------
    def choice(self, name, options):
        """ One of the options; a symbolic selector decided by the solver. """
        options = list(options) if not isinstance(options, int) else list(range(options))
        i = self.select(name, len(options))
        return options[i]

    def flag(self, name):
        return self.select(name, 2) == 1

    def length(self, name, lo, hi):
        return lo + self.select(name, hi - lo + 1)

    # scripts ---------------------------------------------------------------------------------
    def scripts(self):
        """ From now on, texts of symbolic values are to be run as python code. """

    def run_script(self, script):
        """ Names defined by a script. """
        names = {}
        exec(compile(script, "<script>", "exec"), names)  # pylint: disable=exec-used
        return names

    def read(self, text):
        """ A text that comes from a script. """
        return text

    # oracle helpers ---------------------------------------------------------------------------
    def implies(self, a, b):
        return self.any_([self.not_(a), b])

    def iff(self, a, b):
        return self.not_(self.xor_(a, b))

    def same(self, a, b, loose_seq=True):
        """ Structural equality of two values, without using the repository's own equality. """
        return self.all_(list(self._same(a, b, loose_seq, 0)))

    def _same(self, a, b, loose, depth):
        if depth > 40:
            yield False
            return
        if a is b:
            yield True
            return
        ca, cb = a.__class__, b.__class__
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b) or (not loose and ca is not cb):
                yield False
                return
            for x, y in zip(a, b):
                yield from self._same(x, y, loose, depth + 1)
            return
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                yield False
                return
            for k, v in a.items():
                if k not in b:
                    yield False
                    return
                yield from self._same(v, b[k], loose, depth + 1)
            return
        if ca is not cb:
            yield False
            return
        if isinstance(a, (bool, int, float, str, bytes, type(None), type)):
            yield self.eq(a, b)
            return
        if hasattr(a, "__dict__"):
            yield from self._same(a.__dict__, b.__dict__, loose, depth + 1)
            return
        yield self.eq(a, b)


class ConcreteCtx(BaseCtx):
    """ Replays an assignment on the real code. """

    def __init__(self, assignment, tier="quick"):
        self.values = assignment.get("inputs", {})
        self.uf_table = {}
        for name, args, kind, res in assignment.get("uf", []):
            self.uf_table[(name, tuple(self._key(a) for a in args))] = self._num(kind, res)
        self.tier = tier
        self.trace = []

    @staticmethod
    def _num(kind, text):
        return float(Fraction(text)) if kind == "real" else int(text)

    @staticmethod
    def _key(a):
        if isinstance(a, bool):
            return Fraction(int(a))
        if isinstance(a, str):
            return Fraction(a)
        return Fraction(a)

    def select(self, name, n):
        kind, value = self.values.get(name, ("int", 0))
        return min(max(int(value), 0), n - 1)

    def int(self, name, lo=None, hi=None):
        kind, value = self.values.get(name, ("int", lo or 0))
        return int(value)

    def real(self, name, lo=None, hi=None):
        kind, value = self.values.get(name, ("real", "0"))
        return float(Fraction(value))

    def bool(self, name):
        kind, value = self.values.get(name, ("bool", False))
        return bool(value)

    def str(self, name, length, alphabet=None):
        kind, value = self.values.get(name, ("str", [97] * length))
        return "".join(map(chr, value))

    def uf(self, name, args, kind="int"):
        key = (name, tuple(Fraction(a) for a in args))
        if key in self.uf_table:
            return self.uf_table[key]
        res = random.Random(repr(key)).randrange(1, 10 ** 6)
        return float(res) if kind == "real" else res

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, detail=""):
        self.trace.append(label)
        if not cond:
            raise Violation(label, str(detail))

    def fail(self, label, detail=""):
        self.trace.append(label)
        raise Violation(label, str(detail))

    def prove_false(self, cond):
        return not cond

    @staticmethod
    def eq(a, b):
        return bool(a == b)

    @staticmethod
    def near(a, b):
        """ Equal, up to rounding. """
        return bool(a == b or abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)))

    @staticmethod
    def all_(xs):
        return all(xs)

    @staticmethod
    def any_(xs):
        return any(xs)

    @staticmethod
    def not_(x):
        return not x

    @staticmethod
    def xor_(a, b):
        return bool(a) != bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def is_symbolic(x):
        return False


def make_sym_ctx(engine, tier):
    """ SymCtx needs z3: imported only on the symbolic side. """
    import z3
    from symex import values

    class SymCtx(BaseCtx):
        symbolic = True

        def __init__(self):
            self.tier = tier
            self.engine = engine

        def precise(self):
            engine.precise = True

        def scripts(self):
            engine.texts = values.Texts()

        def run_script(self, script):
            names = dict(engine.texts.values)
            text = script if type(script) is str else engine.texts.write(script)
            names.update(engine.texts.values)
            exec(compile(text, "<script>", "exec"), names)  # pylint: disable=exec-used
            return names

        def read(self, text):
            return engine.texts.read(text) if isinstance(text, str) else text

        def _declare(self, name, kind, expr):
            if name in engine.inputs:
                raise ValueError(f"input {name} declared twice")
            engine.inputs[name] = (kind, expr)

        def select(self, name, n):
            var = z3.Int(name)
            self._declare(name, "int", var)
            if n == 1:
                engine.constrain(var == 0)
                return 0
            engine.constrain(z3.And(var >= 0, var < n))
            lo, hi = 0, n  # binary decisions
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if engine.branch(var < mid):
                    hi = mid
                else:
                    lo = mid
            return lo

        def int(self, name, lo=-10 ** 6, hi=10 ** 6):
            var = z3.Int(name)
            self._declare(name, "int", var)
            engine.constrain(z3.And(var >= lo, var <= hi))
            engine.int_bounds[name] = (lo, hi)
            return values.SymInt(var)

        def real(self, name, lo=-10 ** 6, hi=10 ** 6):
            var = z3.Real(name)
            self._declare(name, "real", var)
            engine.constrain(z3.And(var >= z3.RealVal(str(Fraction(lo))), var <= z3.RealVal(str(Fraction(hi)))))
            return values.SymReal(var)

        def bool(self, name):
            var = z3.Bool(name)
            self._declare(name, "bool", var)
            return values.SymBool(var)

        def str(self, name, length, alphabet=None):
            if alphabet is None:
                alphabet = [(32, 126)]
            chars = [z3.Int(f"{name}.{i}") for i in range(length)]
            self._declare(name, "str", chars)
            for c in chars:
                parts = []
                for item in alphabet:
                    if isinstance(item, tuple):
                        parts.append(z3.And(c >= item[0], c <= item[1]))
                    else:
                        parts.append(z3.Or(*[c == ord(x) for x in item]))
                engine.constrain(z3.Or(*parts))
            return values.SymStr(chars) if chars else ""

        def uf(self, name, args, kind="int"):
            """ Application of an uninterpreted function: an arbitrary pure function of its arguments. """
            exprs = [values.real_of(values.to_expr(a)) for a in args]
            sort = z3.RealSort() if kind == "real" else z3.IntSort()
            func = z3.Function(f"{name}/{len(args)}/{kind}", *([z3.RealSort()] * len(args) + [sort]))
            expr = func(*exprs) if exprs else z3.Const(f"{name}/0/{kind}", sort)
            engine.uf_apps.append((name, exprs, kind, expr))
            return values.SymReal(expr) if kind == "real" else values.SymInt(expr)

        def assume(self, cond):
            engine.constrain(values.bool_expr(cond))

        def check(self, cond, label, detail=""):
            engine.check(values.bool_expr(cond), label, detail)

        def fail(self, label, detail=""):
            engine.check(z3.BoolVal(False), label, detail)

        @staticmethod
        def eq(a, b):
            res = a == b
            if type(res) is values.SymBool:
                return res
            return bool(res)

        near = staticmethod(values.near)  # numbers are reals here: no rounding

        all_ = staticmethod(lambda xs: values.and_(*list(xs)))
        any_ = staticmethod(lambda xs: values.or_(*list(xs)))
        not_ = staticmethod(values.not_)
        ite = staticmethod(values.ite)
        is_symbolic = staticmethod(values.is_sym)

        @staticmethod
        def xor_(a, b):
            return values.wrap_bool(z3.Xor(values.bool_expr(a), values.bool_expr(b)))

    return SymCtx()
