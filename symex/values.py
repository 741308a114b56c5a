"""
Symbolic proxies for Python bool, int, float and str.

ints are mathematical integers (as in Python); floats are modelled as mathematical reals (no rounding, NaN or
infinities); strings are sequences of symbolic code points whose length is fixed on each path.
"""
import math
import numbers
from fractions import Fraction

import z3

from symex import engine as eng


class Unsupported(Exception):
    """ Operation the proxies do not model. """


class OpaqueStr(str):
    """ Text rendered from a symbolic value: usable in messages only. """


def cur():
    return eng.ENGINE


# ---------------------------------------------------------------------------------------------- numbers
def is_sym(x):
    return type(x) in SYM_TYPES


def is_num_like(x):
    return isinstance(x, numbers.Number) and not isinstance(x, complex) or type(x) in NUM_TYPES


def finite_float(x):
    return x == x and x not in (math.inf, -math.inf)


def to_expr(x):
    """ (expr, is_real) of a number-like value or None. """
    t = type(x)
    if t is SymInt:
        return x._sx_e, False
    if t is SymReal:
        return x._sx_e, True
    if t is SymBool:
        return z3.If(x._sx_e, z3.IntVal(1), z3.IntVal(0)), False
    if t is bool:
        return z3.IntVal(int(x)), False
    if t is int:
        return z3.IntVal(x), False
    if isinstance(x, float):
        if not finite_float(x):
            return None
        return z3.RealVal(str(Fraction(float(x)))), True
    if isinstance(x, int):
        return z3.IntVal(int(x)), False
    if isinstance(x, Fraction):
        return z3.RealVal(str(x)), True
    if hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "shape", None) == ():
        return to_expr(x.item())
    return None


def real_of(pair):
    return pair[0] if pair[1] else z3.ToReal(pair[0])


def both(a, b):
    """ Common-sort expressions. """
    if a[1] == b[1]:
        return a[0], b[0], a[1]
    return real_of(a), real_of(b), True


def mk(expr, real):
    return SymReal(expr) if real else SymInt(expr)


def wrap_bool(expr):
    expr = z3.simplify(expr)
    if z3.is_true(expr):
        return True
    if z3.is_false(expr):
        return False
    return SymBool(expr)


def bool_expr(x):
    """ z3 Bool of the truth value of x without forking. """
    t = type(x)
    if t is SymBool:
        return x._sx_e
    if t is SymInt or t is SymReal:
        return x._sx_e != 0
    if t is SymStr:
        return z3.BoolVal(len(x._sx_c) > 0)
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def floordiv_expr(a, b):
    """ Python floor division of Int expressions, b != 0. """
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


class SymBase:
    __slots__ = ()


def _arith(op, swap=False):
    def method(self, other):
        if isinstance(other, SymArrayTypes):
            return NotImplemented
        o = to_expr(other)
        if o is None:
            if isinstance(other, float):
                return _nonfinite(op, self, other, swap)
            return NotImplemented
        s = to_expr(self)
        a, b, real = both(o, s) if swap else both(s, o)
        return ARITH[op](a, b, real)
    return method


def _nonfinite(op, sym, other, swap):
    if other != other:
        return math.nan
    if op == "add" or (op == "sub" and swap):
        return other
    if op == "sub":
        return -other
    if op == "truediv" and not swap:
        return 0.0
    if op == "mul" or (op == "truediv" and swap):
        if bool(wrap_bool(to_expr(sym)[0] > 0)):
            return other
        if bool(wrap_bool(to_expr(sym)[0] < 0)):
            return -other
        return math.nan
    raise Unsupported(f"{op} with a non-finite float")


def _div0(b, what):
    if cur().branch(b == 0):
        raise ZeroDivisionError(what)


def op_add(a, b, real):
    return mk(a + b, real)


def op_sub(a, b, real):
    return mk(a - b, real)


def op_mul(a, b, real):
    if real and cur().roots and a.eq(b):
        for square, root in cur().roots:
            if a.eq(root):
                return mk(square, True)  # the square of a square root
    return mk(a * b, real)


def near(a, b):
    """ Equality of two numbers, settled at once when they are the same polynomial. """
    res = a == b
    if type(res) is SymBool and (type(a) is SymReal or type(b) is SymReal):
        e = res._sx_e
        if z3.is_eq(e):
            diff = z3.simplify(e.arg(0) - e.arg(1), som=True)
            if z3.is_rational_value(diff):
                return diff.numerator_as_long() == 0
    return res


def op_truediv(a, b, real):
    _div0(b, "division by zero")
    if not real:
        a, b = z3.ToReal(a), z3.ToReal(b)
    return SymReal(a / b)


def op_floordiv(a, b, real):
    _div0(b, "integer division or modulo by zero")
    if real:
        return SymReal(z3.ToReal(z3.ToInt(a / b)))
    return SymInt(floordiv_expr(a, b))


def int_range(e, depth=0):
    """ (lo, hi) of an Int expression, from the declared ranges of the inputs; None when unknown. """
    bounds = cur().int_bounds
    key = e.get_id()
    if key in cur().range_cache:
        return cur().range_cache[key][0]
    res = None
    if z3.is_int_value(e):
        res = (e.as_long(), e.as_long())
    elif depth < 40 and z3.is_app(e):
        kind = e.decl().kind()
        args = e.children()
        if kind == z3.Z3_OP_UNINTERPRETED:
            res = bounds.get(e.decl().name()) if not args else None
        elif kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            subs = [int_range(a, depth + 1) for a in args]
            if None not in subs:
                res = subs[0]
                if kind == z3.Z3_OP_UMINUS:
                    res = (-res[1], -res[0])
                for lo, hi in subs[1:]:
                    if kind == z3.Z3_OP_ADD:
                        res = (res[0] + lo, res[1] + hi)
                    elif kind == z3.Z3_OP_SUB:
                        res = (res[0] - hi, res[1] - lo)
                    else:
                        prods = [x * y for x in res for y in (lo, hi)]
                        res = (min(prods), max(prods))
        elif kind == z3.Z3_OP_ITE:
            one, two = int_range(args[1], depth + 1), int_range(args[2], depth + 1)
            if one and two:
                res = (min(one[0], two[0]), max(one[1], two[1]))
        elif kind == z3.Z3_OP_MOD and z3.is_int_value(args[1]) and args[1].as_long() > 0:
            res = (0, args[1].as_long() - 1)
    cur().range_cache[key] = (res, e)
    return res


def split_sum(e, sign, terms):
    """ Flattens a sum; returns the constant part. """
    if z3.is_int_value(e):
        return sign * e.as_long()
    if z3.is_app(e):
        kind = e.decl().kind()
        if kind == z3.Z3_OP_ADD:
            return sum(split_sum(a, sign, terms) for a in e.children())
        if kind == z3.Z3_OP_SUB:
            kids = e.children()
            return split_sum(kids[0], sign, terms) + sum(split_sum(a, -sign, terms) for a in kids[1:])
        if kind == z3.Z3_OP_UMINUS:
            return split_sum(e.arg(0), -sign, terms)
    terms.append(e if sign > 0 else -e)
    return 0


def mod_const(inner, m):
    """ inner mod m for a positive constant m; by cases, without division, when the range of inner is narrow. """
    terms = []
    const = split_sum(inner, 1, terms) % m
    if not terms:
        return z3.IntVal(const)
    ranges = [int_range(t) for t in terms]
    rest = z3.Sum(terms + [z3.IntVal(const)]) if len(terms) + bool(const) > 1 else terms[0]
    if None not in ranges:
        lo = const + sum(r[0] for r in ranges)
        hi = const + sum(r[1] for r in ranges)
        klo, khi = lo // m, hi // m
        if khi - klo <= 6:
            res = rest - m * khi if khi else rest
            for k in range(khi - 1, klo - 1, -1):
                res = z3.If(rest < m * (k + 1), rest - m * k if k else rest, res)
            cur().range_cache[res.get_id()] = ((max(0, lo) if klo == khi == 0 else 0,
                                                min(m - 1, hi) if klo == khi == 0 else m - 1), res)
            return res
    return rest % m


def op_mod(a, b, real):
    _div0(b, "integer division or modulo by zero")
    if real:
        ai, bi = a if _is_toreal(a) else z3.simplify(a, push_to_real=False), z3.simplify(b)
        if z3.is_rational_value(bi) and bi.denominator_as_long() == 1 and _is_toreal(ai):
            inner = ai.arg(0)
            m = bi.numerator_as_long()
            if m > 0:
                return SymReal(z3.ToReal(mod_const(inner, m)))
        return SymReal(a - b * z3.ToReal(z3.ToInt(a / b)))
    bi = z3.simplify(b)
    if z3.is_int_value(bi) and bi.as_long() > 0:
        return SymInt(mod_const(a, bi.as_long()))
    return SymInt(a - b * floordiv_expr(a, b))


def _is_toreal(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL


def op_pow(a, b, real):
    b = z3.simplify(b)
    value = None
    if z3.is_int_value(b):
        value = Fraction(b.as_long())
    elif z3.is_rational_value(b):
        value = Fraction(b.numerator_as_long(), b.denominator_as_long())
    if value is not None and value.denominator == 1 and 0 <= value <= 6:
        res = z3.RealVal(1) if real else z3.IntVal(1)
        for _ in range(int(value)):
            res = res * a
        return mk(res, real)
    if value is not None and value.denominator == 1 and -4 <= value < 0:
        _div0(a, "0.0 cannot be raised to a negative power")
        res = z3.RealVal(1)
        ra = a if real else z3.ToReal(a)
        for _ in range(int(-value)):
            res = res / ra
        return SymReal(res)
    if value == Fraction(1, 2):
        return sqrt(mk(a, real))
    value = cur().realise(b, "exponent")
    return op_pow(a, value, real)


ARITH = {"add": op_add, "sub": op_sub, "mul": op_mul, "truediv": op_truediv, "floordiv": op_floordiv, "mod": op_mod,
         "pow": op_pow}


def _compare(op):
    def method(self, other):
        if isinstance(other, SymArrayTypes):
            return NotImplemented
        o = to_expr(other)
        if o is None:
            if isinstance(other, float):
                if other != other:
                    return op == "ne"
                return {"lt": other > 0, "le": other > 0, "gt": other < 0, "ge": other < 0, "eq": False,
                        "ne": True}[op]
            return NotImplemented
        a, b, _ = both(to_expr(self), o)
        if z3.is_app(a) and z3.is_app(b) and a.decl().kind() == z3.Z3_OP_DIV and b.decl().kind() == z3.Z3_OP_DIV \
                and a.arg(1).eq(b.arg(1)):
            # x / d against y / d: the divisor is not zero on this path
            x, y, pos = a.arg(0), b.arg(0), a.arg(1) > 0
            if op in ("eq", "ne"):
                a, b = x, y
            else:
                a, b = z3.If(pos, x, y), z3.If(pos, y, x)
        return wrap_bool({"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                          "eq": lambda: a == b, "ne": lambda: a != b}[op]())
    return method


try:
    import numpy
    SymArrayTypes = (numpy.ndarray,)
except ImportError:  # pragma: no cover
    SymArrayTypes = ()


class SymNum(SymBase):
    """ Shared arithmetic. """
    __slots__ = ("_sx_e",)

    def __init__(self, e):
        self._sx_e = e

    __add__, __radd__ = _arith("add"), _arith("add", True)
    __sub__, __rsub__ = _arith("sub"), _arith("sub", True)
    __mul__, __rmul__ = _arith("mul"), _arith("mul", True)
    __truediv__, __rtruediv__ = _arith("truediv"), _arith("truediv", True)
    __floordiv__, __rfloordiv__ = _arith("floordiv"), _arith("floordiv", True)
    __mod__, __rmod__ = _arith("mod"), _arith("mod", True)
    __pow__, __rpow__ = _arith("pow"), _arith("pow", True)
    __lt__, __le__, __gt__, __ge__ = _compare("lt"), _compare("le"), _compare("gt"), _compare("ge")
    __eq__, __ne__ = _compare("eq"), _compare("ne")

    def __divmod__(self, other):
        return self // other, self % other

    def __neg__(self):
        e, real = to_expr(self)
        return mk(-e, real)

    def __pos__(self):
        e, real = to_expr(self)
        return mk(e, real)

    def sqrt(self):
        """ What numpy.sqrt calls on the elements of an array of objects. """
        return sqrt(self)

    def __abs__(self):
        e, real = to_expr(self)
        return mk(z3.If(e >= 0, e, -e), real)

    def __bool__(self):
        return cur().branch(bool_expr(self))

    def __hash__(self):
        # reached from C containers only: the instrumented code goes through hash_of
        return hash(concrete(self, "hash"))

    def __index__(self):
        if type(self) is SymReal:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concrete(self, "index")

    def __int__(self):
        return concrete(to_int(self), "int")

    def __float__(self):
        return float(concrete(self, "float"))

    def __complex__(self):
        return complex(concrete(self, "complex"))

    def __round__(self, ndigits=None):
        return round_sym(self, ndigits)

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        e, real = to_expr(self)
        return SymInt(z3.ToInt(e)) if real else SymInt(e)

    def __ceil__(self):
        e, real = to_expr(self)
        return SymInt(-z3.ToInt(-e)) if real else SymInt(e)

    def __repr__(self):
        return number_text(self)

    __str__ = __repr__

    def __format__(self, spec):
        return OpaqueStr("<sym>") if spec else number_text(self)

    def conjugate(self):
        return self

    def sqrt(self):
        return sqrt(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class SymInt(SymNum):
    __slots__ = ()
    __class__ = property(lambda self: int)

    def bit_length(self):
        return concrete(self, "bit_length").bit_length()

    def __and__(self, other):
        return concrete(self, "and") & (concrete(other, "and") if is_sym(other) else other)

    def __or__(self, other):
        return concrete(self, "or") | (concrete(other, "or") if is_sym(other) else other)

    def __xor__(self, other):
        return concrete(self, "xor") ^ (concrete(other, "xor") if is_sym(other) else other)

    def __lshift__(self, other):
        return concrete(self, "shift") << other

    def __rshift__(self, other):
        return concrete(self, "shift") >> other


class SymReal(SymNum):
    __slots__ = ()
    __class__ = property(lambda self: float)

    def is_integer(self):
        return wrap_bool(z3.IsInt(self._sx_e))


class SymBool(SymNum):
    __slots__ = ()
    __class__ = property(lambda self: bool)

    def __eq__(self, other):
        if type(other) is SymBool:
            return wrap_bool(self._sx_e == other._sx_e)
        if type(other) is bool:
            return wrap_bool(self._sx_e if other else z3.Not(self._sx_e))
        return _compare("eq")(self, other)

    def __ne__(self, other):
        res = self.__eq__(other)
        if res is NotImplemented:
            return res
        return not_(res)

    __hash__ = SymNum.__hash__

    def _logic(self, other, op):
        if type(other) in (SymBool, bool):
            return wrap_bool(op(self._sx_e, bool_expr(other)))
        if isinstance(other, SymArrayTypes) or to_expr(other) is None:
            return NotImplemented
        return NotImplemented

    def __and__(self, other):
        return self._logic(other, z3.And)

    def __or__(self, other):
        return self._logic(other, z3.Or)

    def __xor__(self, other):
        return self._logic(other, z3.Xor)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return ~SymInt(to_expr(self)[0])


def not_(x):
    if isinstance(x, bool) and type(x) is bool:
        return not x
    return wrap_bool(z3.Not(bool_expr(x)))


def and_(*xs):
    return wrap_bool(z3.And(*[bool_expr(x) for x in xs])) if xs else True


def or_(*xs):
    return wrap_bool(z3.Or(*[bool_expr(x) for x in xs])) if xs else False


def ite(cond, a, b):
    """ If-then-else on numbers without forking. """
    c = z3.simplify(bool_expr(cond))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if type(a) in (bool, SymBool) and type(b) in (bool, SymBool):
        return wrap_bool(z3.If(c, bool_expr(a), bool_expr(b)))
    pa, pb = to_expr(a), to_expr(b)
    if pa is None or pb is None or type(a) not in NUM_OR_CONC or type(b) not in NUM_OR_CONC:
        return a if cur().branch(c) else b
    if pa[1] != pb[1]:  # int against float: the Python type depends on the outcome
        return a if cur().branch(c) else b
    x, y, real = both(pa, pb)
    return mk(z3.If(c, x, y), real)


def sqrt(x):
    e = real_of(to_expr(x))
    if cur().branch(e < 0):
        raise ValueError("math domain error")
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        frac = Fraction(s.numerator_as_long(), s.denominator_as_long())
        root = Fraction(math.isqrt(frac.numerator), math.isqrt(frac.denominator))
        if root * root == frac:
            return SymReal(z3.RealVal(str(root)))
    known = cur().roots
    key = z3.simplify(e, som=True)
    for other, r in known:
        if other.eq(key):
            return SymReal(r)
    r = cur().fresh("sqrt", z3.RealSort())
    cur().constrain(z3.And(r >= 0, r * r == e))
    known.append((key, r))
    return SymReal(r)


def to_int(x):
    """ int(x): truncation toward zero. """
    t = type(x)
    if t is SymReal:
        e = x._sx_e if _is_toreal(x._sx_e) else z3.simplify(x._sx_e, push_to_real=False)
        if _is_toreal(e):
            return SymInt(e.arg(0))
        return SymInt(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    e, _ = to_expr(x)
    return SymInt(e)


def to_float(x):
    return SymReal(real_of(to_expr(x)))


def round_sym(x, ndigits=None):
    e, real = to_expr(x)
    if not real:
        return SymInt(e)
    if ndigits is None:
        fl = z3.ToInt(e)
        diff = e - z3.ToReal(fl)
        return SymInt(z3.If(diff < z3.Q(1, 2), fl, z3.If(diff > z3.Q(1, 2), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
    scale = 10 ** ndigits
    return to_float(round_sym(SymReal(e * scale))) / scale


def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    pa, pb = to_expr(a), to_expr(b)
    if pa is None or pb is None:
        return False
    x, y = real_of(pa), real_of(pb)
    rt, at = real_of(to_expr(rel_tol)), real_of(to_expr(abs_tol))

    def absd(v):
        return z3.If(v >= 0, v, -v)
    d = absd(x - y)
    return wrap_bool(z3.Or(x == y, d <= rt * absd(x), d <= rt * absd(y), d <= at))


def concrete(x, why=""):
    """ Concrete Python value of a symbolic one, forking over the feasible values. """
    t = type(x)
    if t is SymBool:
        return cur().branch(x._sx_e)
    if t is SymInt:
        s = z3.simplify(x._sx_e)
        if z3.is_int_value(s):
            return s.as_long()
        return eng.int_of(cur().realise(s, why))
    if t is SymReal:
        s = z3.simplify(x._sx_e)
        if not z3.is_rational_value(s):
            s = cur().realise(s, why)
        return float(Fraction(eng.frac_of(s)))
    if t is SymStr:
        return x._sx_realise(why)
    return x


# ---------------------------------------------------------------------------------------------- strings
def char_expr(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def str_chars(s):
    if type(s) is SymStr:
        return s._sx_c
    return [ord(c) for c in s]


def mkstr(chars):
    """ SymStr, or str when every character is known. """
    out = []
    known = True
    for c in chars:
        if not isinstance(c, int):
            c2 = z3.simplify(c)
            if z3.is_int_value(c2):
                c = c2.as_long()
            else:
                known = False
        out.append(c)
    if known:
        return "".join(map(chr, out))
    return SymStr(out)


def char_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return char_expr(a) == char_expr(b)


def chars_eq(a, b):
    if len(a) != len(b):
        return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    return z3.And(*[char_eq(x, y) for x, y in zip(a, b)])


def chars_lt(a, b, or_equal):
    """ Lexicographic order of code point lists. """
    if not a:
        return z3.BoolVal(bool(b) or or_equal)
    if not b:
        return z3.BoolVal(False)
    x, y = char_expr(a[0]), char_expr(b[0])
    return z3.Or(x < y, z3.And(x == y, chars_lt(a[1:], b[1:], or_equal)))


def in_range(c, lo, hi):
    e = char_expr(c)
    return z3.And(e >= ord(lo), e <= ord(hi))


def number_text(value):
    """ Text of a symbolic number: opaque, or an expression that stands for it in the script being written. """
    if cur().texts is None:
        return OpaqueStr("<sym>")
    if type(value) is SymBool:
        return "True" if value else "False"
    return cur().texts.name(value)


class Texts:
    """
    Real texts of symbolic values, to be run as python code: numbers stand as names, and characters are told apart when
    they mean something between quotes; any other is a placeholder of the private use area, which stands for itself.
    """

    SPECIAL = "'\"\\\n\r"
    PLACEHOLDER = 0xE000

    def __init__(self):
        self.values = {}
        self.chars = {}

    def name(self, value):
        """ A name that stands for a number. """
        name = f"_symbolic_{len(self.values)}"
        self.values[name] = value
        return name

    def write(self, text):
        """ A real text for a symbolic one. """
        out = []
        for c in str_chars(text):
            if isinstance(c, int):
                out.append(chr(c))
                continue
            for special in self.SPECIAL:
                if cur().branch(char_eq(c, ord(special))):
                    out.append(special)
                    break
            else:
                out.append(chr(self.PLACEHOLDER + len(self.chars)))
                self.chars[out[-1]] = c
        return "".join(out)

    def read(self, text):
        """ The text written, with the characters placeholders stand for. """
        return mkstr([self.chars.get(c, ord(c)) for c in text])


class SymStr(SymBase):
    __slots__ = ("_sx_c",)
    __class__ = property(lambda self: str)

    def __init__(self, chars):
        self._sx_c = list(chars)

    def _sx_realise(self, why=""):
        out = []
        for c in self._sx_c:
            if not isinstance(c, int):
                c = eng.int_of(cur().realise(c, f"character of a string ({why})"))
            out.append(chr(c))
        return "".join(out)

    def __len__(self):
        return len(self._sx_c)

    def __bool__(self):
        return bool(self._sx_c)

    def __iter__(self):
        return iter([mkstr([c]) for c in self._sx_c])

    def __getitem__(self, i):
        res = self._sx_c[i]
        return mkstr(res if isinstance(i, slice) else [res])

    def _other(self, other):
        if type(other) is SymStr or isinstance(other, str):
            return str_chars(other)
        return None

    def __eq__(self, other):
        o = self._other(other)
        if o is None:
            return NotImplemented
        return wrap_bool(chars_eq(self._sx_c, o))

    def __ne__(self, other):
        o = self._other(other)
        if o is None:
            return NotImplemented
        return wrap_bool(z3.Not(chars_eq(self._sx_c, o)))

    def __lt__(self, other):
        o = self._other(other)
        return NotImplemented if o is None else wrap_bool(chars_lt(self._sx_c, o, False))

    def __le__(self, other):
        o = self._other(other)
        return NotImplemented if o is None else wrap_bool(chars_lt(self._sx_c, o, True))

    def __gt__(self, other):
        o = self._other(other)
        return NotImplemented if o is None else wrap_bool(chars_lt(o, self._sx_c, False))

    def __ge__(self, other):
        o = self._other(other)
        return NotImplemented if o is None else wrap_bool(chars_lt(o, self._sx_c, True))

    def __hash__(self):
        return hash(self._sx_realise("hash"))

    def __add__(self, other):
        o = self._other(other)
        return NotImplemented if o is None else mkstr(self._sx_c + o)

    def __radd__(self, other):
        o = self._other(other)
        return NotImplemented if o is None else mkstr(o + self._sx_c)

    def __mul__(self, n):
        return mkstr(self._sx_c * n)

    def __str__(self):
        return OpaqueStr("<symstr>") if cur().texts is None else cur().texts.write(self)

    def __repr__(self):
        return OpaqueStr("<symstr>") if cur().texts is None else repr(cur().texts.write(self))

    def __format__(self, spec):
        return OpaqueStr("<symstr>") if spec else self.__str__()

    def __mod__(self, other):
        return self._sx_realise("%") % other

    def __contains__(self, sub):
        o = self._other(sub)
        if o is None:
            raise TypeError("'in <string>' requires string as left operand")
        return bool(contains_str(self, sub))

    # ------------------------------------------------------------------ methods
    def startswith(self, prefix, *args):
        if isinstance(prefix, tuple):
            return or_(*[self.startswith(p) for p in prefix])
        p = str_chars(prefix)
        if args or len(p) > len(self._sx_c):
            if args:
                return mkstr(self._sx_c[args[0]:]).startswith(prefix)
            return False
        return wrap_bool(chars_eq(self._sx_c[:len(p)], p))

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return or_(*[self.endswith(p) for p in suffix])
        p = str_chars(suffix)
        if len(p) > len(self._sx_c):
            return False
        return wrap_bool(chars_eq(self._sx_c[len(self._sx_c) - len(p):], p))

    def find(self, sub, start=0, end=None):
        p = str_chars(sub)
        n = len(self._sx_c) if end is None else min(end, len(self._sx_c))
        for i in range(start, n - len(p) + 1):
            if cur().branch(chars_eq(self._sx_c[i:i + len(p)], p)):
                return i
        return -1

    def index(self, sub, *args):
        res = self.find(sub, *args)
        if res < 0:
            raise ValueError("substring not found")
        return res

    def rfind(self, sub):
        p = str_chars(sub)
        for i in range(len(self._sx_c) - len(p), -1, -1):
            if cur().branch(chars_eq(self._sx_c[i:i + len(p)], p)):
                return i
        return -1

    def count(self, sub):
        return len(self.split(sub)) - 1

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._sx_realise("split on blanks").split(None, maxsplit)
        p = str_chars(sep)
        out, start, i = [], 0, 0
        while i <= len(self._sx_c) - len(p):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if cur().branch(chars_eq(self._sx_c[i:i + len(p)], p)):
                out.append(mkstr(self._sx_c[start:i]))
                i += len(p)
                start = i
            else:
                i += 1
        out.append(mkstr(self._sx_c[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._sx_realise("rsplit").rsplit(None, maxsplit)
        p = str_chars(sep)
        out, end, i = [], len(self._sx_c), len(self._sx_c) - len(p)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if cur().branch(chars_eq(self._sx_c[i:i + len(p)], p)):
                out.append(mkstr(self._sx_c[i + len(p):end]))
                end = i
                i -= len(p)
            else:
                i -= 1
        out.append(mkstr(self._sx_c[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return mkstr(self._sx_c[:i]), sep, mkstr(self._sx_c[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return mkstr(self._sx_c[:i]), sep, mkstr(self._sx_c[i + len(sep):])

    def replace(self, old, new, count=-1):
        parts = self.split(old, count)
        return join(new, parts)

    def join(self, parts):
        return join(self, list(parts))

    def _strip(self, chars, left, right):
        cs = self._sx_c
        lo, hi = 0, len(cs)

        def among(c):
            return z3.Or(*[char_eq(c, x) for x in chars]) if chars else z3.BoolVal(False)
        while left and lo < hi and cur().branch(among(cs[lo])):
            lo += 1
        while right and hi > lo and cur().branch(among(cs[hi - 1])):
            hi -= 1
        return mkstr(cs[lo:hi])

    def strip(self, chars=None):
        return self._strip(str_chars(" \t\n\r\x0b\x0c" if chars is None else chars), True, True)

    def lstrip(self, chars=None):
        return self._strip(str_chars(" \t\n\r\x0b\x0c" if chars is None else chars), True, False)

    def rstrip(self, chars=None):
        return self._strip(str_chars(" \t\n\r\x0b\x0c" if chars is None else chars), False, True)

    def isdigit(self):
        if not self._sx_c:
            return False
        return wrap_bool(z3.And(*[in_range(c, "0", "9") for c in self._sx_c]))

    isnumeric = isdecimal = isdigit

    def isalpha(self):
        if not self._sx_c:
            return False
        return wrap_bool(z3.And(*[z3.Or(in_range(c, "a", "z"), in_range(c, "A", "Z")) for c in self._sx_c]))

    def upper(self):
        return mkstr([z3.If(in_range(c, "a", "z"), char_expr(c) - 32, char_expr(c)) for c in self._sx_c])

    def lower(self):
        return mkstr([z3.If(in_range(c, "A", "Z"), char_expr(c) + 32, char_expr(c)) for c in self._sx_c])

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def removeprefix(self, prefix):
        return self[len(prefix):] if self.startswith(prefix) else self

    def removesuffix(self, suffix):
        return self[:len(self) - len(suffix)] if suffix and self.endswith(suffix) else self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        value = self._sx_realise(f"str.{name}")
        return getattr(value, name)


def contains_str(container, sub):
    """ sub in container, as one formula. """
    c, p = str_chars(container), str_chars(sub)
    if not p:
        return True
    return wrap_bool(z3.Or(*[chars_eq(c[i:i + len(p)], p) for i in range(len(c) - len(p) + 1)])
                     if len(p) <= len(c) else z3.BoolVal(False))


def join(sep, parts):
    s = str_chars(sep)
    out = []
    for i, part in enumerate(parts):
        if not (isinstance(part, str) or type(part) is SymStr):
            raise TypeError(f"sequence item {i}: expected str instance, {part.__class__.__name__} found")
        if i:
            out += s
        out += str_chars(part)
    return mkstr(out)


def int_of_str(s):
    """ int(s) of a symbolic string. """
    cs = s._sx_c
    if not cs:
        raise ValueError("invalid literal for int() with base 10: ''")
    digits = z3.And(*[in_range(c, "0", "9") for c in cs])
    if cur().branch(digits):
        return SymInt(digit_value(cs))
    if len(cs) > 1:
        signed = z3.And(z3.Or(char_eq(cs[0], 45), char_eq(cs[0], 43)), *[in_range(c, "0", "9") for c in cs[1:]])
        if cur().branch(signed):
            val = digit_value(cs[1:])
            return SymInt(z3.If(char_eq(cs[0], 45), -val, val))
    odd = z3.Or(*[z3.Or(char_eq(c, 32), char_eq(c, 95)) for c in cs])
    if cur().branch(odd):
        return int(s._sx_realise("int"))
    raise ValueError("invalid literal for int() with base 10: <symstr>")


def digit_value(cs):
    val = z3.IntVal(0)
    for c in cs:
        val = val * 10 + (char_expr(c) - 48)
    return val


NUM_TYPES = (SymInt, SymReal, SymBool)
NUM_OR_CONC = NUM_TYPES + (int, float, bool)
SYM_TYPES = (SymInt, SymReal, SymBool, SymStr)

numbers.Integral.register(SymInt)
numbers.Integral.register(SymBool)
numbers.Real.register(SymReal)


# ---------------------------------------------------------------------------------------------- hashing
_HASH_REAL = z3.Function("hash_float", z3.RealSort(), z3.IntSort())


def hash_num(expr, real):
    """ CPython's hash of a number: the integer itself (|n| < 2**61-1), -1 becoming -2; floats that are not integers
    hash to an unspecified function of their value. """
    if not real:
        bounds = int_range(expr)
        if bounds and (bounds[0] > -1 or bounds[1] < -1):
            return expr
        return z3.If(expr == -1, z3.IntVal(-2), expr)
    s = z3.simplify(expr)
    if z3.is_rational_value(s):
        return z3.IntVal(hash(Fraction(s.numerator_as_long(), s.denominator_as_long())))
    if _is_toreal(s):
        return hash_num(s.arg(0), False)
    return z3.If(z3.IsInt(s), z3.If(s == -1, z3.IntVal(-2), z3.ToInt(s)), _HASH_REAL(s))


def hash_str(chars):
    f = z3.Function(f"hash_str_{len(chars)}", *([z3.IntSort()] * (len(chars) + 1)))
    return f(*[char_expr(c) for c in chars]) if chars else z3.IntVal(0)


def hash_tuple(hashes):
    f = z3.Function(f"hash_tuple_{len(hashes)}", *([z3.IntSort()] * (len(hashes) + 1)))
    return f(*hashes) if hashes else z3.IntVal(hash(()))
