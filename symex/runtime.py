"""
Runtime of the instrumented code: what rewritten calls, displays, subscripts, membership tests and f-strings do when
symbolic values are involved.  With concrete operands every helper does exactly what the original operation does.
"""
import builtins
import io
import copy
import json
import math
import types
import uuid
import functools

import numpy as np
import z3

from symex import engine as eng
from symex import npmodels
from symex.values import (SymBool, SymInt, SymReal, SymStr, SYM_TYPES, NUM_TYPES, OpaqueStr, is_sym, wrap_bool,
                          bool_expr, to_expr, to_int, to_float, isclose, sqrt, mkstr, str_chars, contains_str, join,
                          int_of_str, hash_num, hash_str, hash_tuple, concrete, ite, not_, and_, or_, char_expr)

PLAIN = frozenset([str, int, float, bool, type(None), bytes, type, types.FunctionType, types.BuiltinFunctionType,
                   frozenset, complex, OpaqueStr])
FUNCTIONS = set()


# ---------------------------------------------------------------------------------------------- hashing
def hash_wrap(func):
    """ Native hash() needs a real int: symbolic results collide on 0, leaving the decision to __eq__. """
    @functools.wraps(func)
    def dunder(self):
        res = func(self)
        return 0 if type(res) in SYM_TYPES else res
    dunder._sx_hash = func
    return dunder


def reduce_hash(res):
    if type(res) in NUM_TYPES:
        e, _ = to_expr(res)
        return SymInt(hash_num(e, False))
    return builtins.hash(res) if isinstance(res, int) else res


def has_symbolic_key(k):
    t = type(k)
    if t in SYM_TYPES:
        return True
    if t is tuple:
        return any(has_symbolic_key(x) for x in k)
    return False


def hash_of(obj):
    """ hash(obj), symbolic when it depends on symbolic data. """
    t = type(obj)
    if t in PLAIN:
        return builtins.hash(obj)
    if t in NUM_TYPES:
        e, real = to_expr(obj)
        if real:
            eng.ENGINE.hash_apps.append(("real", e))
        return SymInt(hash_num(e, real))
    if t is SymStr:
        eng.ENGINE.hash_apps.append(("str", obj._sx_c))
        return SymInt(hash_str(obj._sx_c))
    if t is tuple:
        hashes = [hash_of(x) for x in obj]
        if any(type(h) in SYM_TYPES for h in hashes):
            return SymInt(hash_tuple([to_expr(h)[0] for h in hashes]))
        return builtins.hash(obj)
    if t is SDict or t is SSet:
        raise TypeError(f"unhashable type: '{obj.__class__.__name__}'")
    dunder = getattr(t, "__hash__", None)
    inner = getattr(dunder, "_sx_hash", None)
    if inner is not None:
        return reduce_hash(inner(obj))
    return builtins.hash(obj)


def needs_care(k):
    """ Key whose hash or equality may be symbolic. """
    t = type(k)
    if t in PLAIN:
        return False
    if t in SYM_TYPES:
        return True
    if t is tuple:
        return any(needs_care(x) for x in k)
    dunder = getattr(t, "__hash__", None)
    return getattr(dunder, "_sx_hash", None) is not None


def key_match(k, hk, other, ho):
    """ Python's dict key match: identity, or equal hashes and ==. """
    if k is other:
        return True
    if has_symbolic_key(k) or has_symbolic_key(other):
        return bool(k == other)  # built-in values that are equal have equal hashes
    if type(k) is not type(other):  # usually unequal without looking at hashes, which spares hard modular queries
        if not bool(k == other):
            return False
        return bool(hk == ho)
    same = hk == ho
    if same is NotImplemented:
        same = False
    if not same:
        return False
    return bool(k == other)


class KeyBox:
    """ Stand-in stored in the underlying dict for a key with symbolic hash. """
    __slots__ = ("key", "hash")

    def __init__(self, key, hash_):
        self.key = key
        self.hash = hash_


def unbox(k):
    return k.key if type(k) is KeyBox else k


class SDict(dict):
    """ dict whose keys may be symbolic. """
    __slots__ = ("_sx_n", "_sx_b", "_sx_s")
    __class__ = property(lambda self: dict)

    def __new__(cls, *args, **kwargs):
        self = dict.__new__(cls)
        self._sx_n = 0  # boxed keys
        self._sx_b = {}  # boxed keys with a concrete hash, by hash
        self._sx_s = []  # boxed keys with a symbolic hash
        return self

    def __init__(self, *args, **kwargs):
        dict.__init__(self)
        self.update(*args, **kwargs)

    def _find(self, k):
        """ (found, underlying key, hash of k when it had to be computed). """
        if not needs_care(k):
            if dict.__contains__(self, k):
                return True, k, None
            if self._sx_n:
                hk = builtins.hash(k)
                for stored in self._sx_b.get(hk, []) + self._sx_s:
                    if key_match(stored.key, stored.hash, k, hk):
                        return True, stored, None
            return False, None, None
        hk = hash_of(k)
        if type(hk) not in SYM_TYPES and not has_symbolic_key(k):
            if self._sx_n:
                for stored in self._sx_b.get(hk, []) + self._sx_s:
                    if key_match(stored.key, stored.hash, k, hk):
                        return True, stored, hk
            return False, None, hk
        for stored in list(dict.keys(self)):
            if type(stored) is KeyBox:
                if key_match(stored.key, stored.hash, k, hk):
                    return True, stored, hk
            elif key_match(stored, hash_of(stored), k, hk):
                return True, stored, hk
        return False, None, hk

    def __getitem__(self, k):
        found, stored, _ = self._find(k)
        if not found:
            raise KeyError(k)
        return dict.__getitem__(self, stored)

    def __setitem__(self, k, v):
        found, stored, hk = self._find(k)
        if found:
            dict.__setitem__(self, stored, v)
        elif hk is not None:
            box = KeyBox(k, hk)
            self._sx_n += 1
            if type(hk) in SYM_TYPES or has_symbolic_key(k):
                self._sx_s.append(box)
            else:
                self._sx_b.setdefault(hk, []).append(box)
            dict.__setitem__(self, box, v)
        else:
            dict.__setitem__(self, k, v)

    def _unbox(self, stored):
        if type(stored) is KeyBox:
            self._sx_n -= 1
            boxes = self._sx_s if any(b is stored for b in self._sx_s) else self._sx_b[stored.hash]
            for i, box in enumerate(boxes):
                if box is stored:
                    del boxes[i]
                    break

    def __delitem__(self, k):
        found, stored, _ = self._find(k)
        if not found:
            raise KeyError(k)
        self._unbox(stored)
        dict.__delitem__(self, stored)

    def __contains__(self, k):
        return self._find(k)[0]

    def __iter__(self):
        if not self._sx_n:
            return dict.__iter__(self)
        return iter([unbox(k) for k in dict.keys(self)])

    def keys(self):
        if not self._sx_n:
            return dict.keys(self)
        return [unbox(k) for k in dict.keys(self)]

    def items(self):
        if not self._sx_n:
            return dict.items(self)
        return [(unbox(k), v) for k, v in dict.items(self)]

    def get(self, k, default=None):
        found, stored, _ = self._find(k)
        return dict.__getitem__(self, stored) if found else default

    def pop(self, k, *default):
        found, stored, _ = self._find(k)
        if not found:
            if default:
                return default[0]
            raise KeyError(k)
        self._unbox(stored)
        return dict.pop(self, stored)

    def popitem(self):
        k, v = dict.popitem(self)
        self._unbox(k)
        return unbox(k), v

    def clear(self):
        dict.clear(self)
        self._sx_n, self._sx_b, self._sx_s = 0, {}, []

    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]

    def update(self, *args, **kwargs):
        for arg in args:
            if hasattr(arg, "keys"):
                for k in arg.keys():
                    self[k] = arg[k]
            else:
                for k, v in arg:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    def copy(self):
        return SDict(self.items())

    def __or__(self, other):
        res = SDict(self.items())
        res.update(other)
        return res

    def __ror__(self, other):
        res = SDict(other.items())
        res.update(self)
        return res

    def __ior__(self, other):
        self.update(other)
        return self

    @classmethod
    def fromkeys(cls, keys, value=None):
        return SDict((k, value) for k in keys)

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        if not self._sx_n and not getattr(other, "_sx_n", 0):
            return dict.__eq__(self, other)
        if len(self) != len(other):
            return False
        for k, v in self.items():
            if k not in other or not v == other[k]:
                return False
        return True

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else not res

    __hash__ = None

    def __repr__(self):
        if not self._sx_n:
            return dict.__repr__(self)
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"

    def __reduce_ex__(self, protocol):
        return (dict, (list(self.items()),))


class SSet(set):
    """ set whose elements may be symbolic. """
    __slots__ = ("_sx_d",)
    __class__ = property(lambda self: set)

    def __new__(cls, *args):
        self = set.__new__(cls)
        self._sx_d = SDict()
        return self

    def __init__(self, it=()):
        set.__init__(self)
        for x in it:
            self.add(x)

    def add(self, x):
        if x in self._sx_d:
            return
        self._sx_d[x] = None
        if not self._sx_d._sx_n:
            set.add(self, x)

    def _symbolic(self):
        return self._sx_d._sx_n > 0

    def __contains__(self, x):
        return x in self._sx_d

    def __iter__(self):
        if self._symbolic():
            return iter(list(self._sx_d.keys()))
        return set.__iter__(self)

    def __len__(self):
        return len(self._sx_d)

    def __bool__(self):
        return len(self._sx_d) > 0

    def discard(self, x):
        if x in self._sx_d:
            was = self._symbolic()
            del self._sx_d[x]
            set.clear(self)
            if not self._symbolic():
                for k in self._sx_d.keys():
                    set.add(self, k)

    def remove(self, x):
        if x not in self._sx_d:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")

    def clear(self):
        set.clear(self)
        self._sx_d = SDict()

    def update(self, *others):
        for other in others:
            for x in other:
                self.add(x)

    def copy(self):
        return SSet(self)

    def union(self, *others):
        res = SSet(self)
        res.update(*others)
        return res

    def intersection(self, *others):
        res = SSet(self)
        for other in others:
            other = SSet(other)
            res = SSet([x for x in res if x in other])
        return res

    def difference(self, *others):
        res = SSet(self)
        for other in others:
            other = SSet(other)
            res = SSet([x for x in res if x not in other])
        return res

    def symmetric_difference(self, other):
        other = SSet(other)
        return SSet([x for x in self if x not in other] + [x for x in other if x not in self])

    def issubset(self, other):
        other = other if isinstance(other, set) else SSet(other)
        return all(x in other for x in self)

    def issuperset(self, other):
        return all(x in self for x in other)

    def isdisjoint(self, other):
        return not any(x in self for x in other)

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ror__(self, o):
        return SSet(o).union(self)

    def __rand__(self, o):
        return SSet(o).intersection(self)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        res = self.__eq__(o)
        return res if res is NotImplemented else not res

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}" if len(self) else "set()"

    def __reduce_ex__(self, protocol):
        return (set, (list(self),))


def _deepcopy_sdict(x, memo):
    y = SDict()
    memo[id(x)] = y
    for k, v in x.items():
        y[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
    return y


def _deepcopy_sset(x, memo):
    return SSet([copy.deepcopy(v, memo) for v in x])


for _t in SYM_TYPES:
    copy._deepcopy_dispatch[_t] = copy._deepcopy_atomic
    copy._copy_dispatch[_t] = copy._copy_immutable
copy._deepcopy_dispatch[SDict] = _deepcopy_sdict
copy._copy_dispatch[SDict] = SDict.copy
copy._deepcopy_dispatch[SSet] = _deepcopy_sset
copy._copy_dispatch[SSet] = SSet.copy


# ---------------------------------------------------------------------------------------------- displays, subscripts
def sx_dict(*pairs):
    res = SDict()
    for pair in pairs:
        if len(pair) == 1:
            res.update(pair[0])
        else:
            res[pair[0]] = pair[1]
    return res


def sx_dictcomp(pairs):
    res = SDict()
    for k, v in pairs:
        res[k] = v
    return res


def sx_set(items):
    return SSet(items)


def find_in_plain_dict(d, k):
    """ Key of a plain dict matching k. """
    hk = hash_of(k)
    if type(hk) not in SYM_TYPES and not has_symbolic_key(k):
        return (True, k) if k in d else (False, None)
    for stored in list(dict.keys(d)):
        if key_match(stored, hash_of(stored), k, hk):
            return True, stored
    return False, None


def sx_deepcopy(x, memo=None, *args):
    return copy.deepcopy(x, SDict() if memo is None else memo, *args)


def sx_getitem(o, k):
    t = type(o)
    if t is dict and needs_care(k):
        found, stored = find_in_plain_dict(o, k)
        if not found:
            raise KeyError(k)
        return o[stored]
    if t is list or t is tuple:
        if type(k) is SymInt and o and all(type(x) in NUM_TYPES or type(x) in (int, float, bool) for x in o) \
                and len({x.__class__ for x in o}) == 1:
            e = k._sx_e
            n = len(o)
            if not eng.ENGINE.branch(z3.And(e >= -n, e < n)):
                raise IndexError("list index out of range")
            res = o[-1]
            for i in range(n - 1):
                res = ite(wrap_bool(z3.Or(e == i, e == i - n)), o[i], res)
            return res
    if (t is str) and type(k) is slice:
        return o[slice(*(concrete(x, "slice") if is_sym(x) else x for x in (k.start, k.stop, k.step)))]
    return o[k]


def sx_setitem(o, k, v):
    if type(o) is dict and needs_care(k):
        found, stored = find_in_plain_dict(o, k)
        o[stored if found else k] = v
        return
    o[k] = v


def sx_contains(container, item):
    t = type(container)
    if t is str or t is SymStr or t is OpaqueStr:
        if type(item) is SymStr or t is SymStr:
            if type(item) is not SymStr and not isinstance(item, str):
                raise TypeError("'in <string>' requires string as left operand, not " + item.__class__.__name__)
            return contains_str(container, item)
        return item in container
    if t is dict and needs_care(item):
        return find_in_plain_dict(container, item)[0]
    if t in (set, frozenset, type({}.keys())) and needs_care(item):
        hk = hash_of(item)
        for stored in list(container):
            if key_match(stored, hash_of(stored), item, hk):
                return True
        return False
    if t is list or t is tuple:
        # one formula when the elements are symbolic scalars, otherwise Python's own scan
        if type(item) in SYM_TYPES or any(type(x) in SYM_TYPES for x in container):
            terms = []
            for x in container:
                if x is item:
                    return True
                res = x == item
                if type(res) is SymBool:
                    terms.append(res)
                elif bool(res):
                    return True
            return or_(*terms)
    if type(item) in NUM_TYPES and t is range:
        e = to_expr(item)[0]
        if container.step == 1:
            return wrap_bool(z3.And(e >= container.start, e < container.stop))
    return item in container


def sx_not_contains(container, item):
    return not_(sx_contains(container, item))


def sx_is(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return a == b
    if type(b) is SymBool and (a is True or a is False):
        return b == a
    return a is b


def sx_is_not(a, b):
    return not_(sx_is(a, b))


def sx_fmt(value, conversion, spec):
    """ One replacement field of an f-string. """
    if type(value) is SymStr and conversion in (-1, 115) and not spec:
        return value
    if conversion == 115:
        value = sx_str(value)
    elif conversion == 114:
        value = repr(value)
    elif conversion == 97:
        value = ascii(value)
    return format(value, spec)


def sx_fstr(*parts):
    if any(type(p) is SymStr for p in parts):
        return join("", parts)
    text = "".join(parts)
    return OpaqueStr(text) if any(type(p) is OpaqueStr for p in parts) else text


def sx_not(x):
    if type(x) is SymBool:
        return not_(x)
    return not x


# ---------------------------------------------------------------------------------------------- calls
def contains_sym(value, depth=0):
    t = type(value)
    if t in SYM_TYPES:
        return True
    if depth > 8:
        return False
    if t in (list, tuple, set, frozenset, SSet):
        return any(contains_sym(v, depth + 1) for v in value)
    if t is dict or t is SDict:
        return any(contains_sym(k, depth + 1) or contains_sym(v, depth + 1) for k, v in value.items())
    return False


def sx_hash(obj):
    return hash_of(obj)


def sx_type(*args):
    if len(args) == 1:
        t = type(args[0])
        if t in SYM_TYPES or t is SDict or t is SSet or t is JsonText:
            return args[0].__class__
        return t
    return type(*args)


def sx_int(*args, **kw):
    if args and type(args[0]) in SYM_TYPES:
        x = args[0]
        return int_of_str(x) if type(x) is SymStr else to_int(x)
    return int(*args, **kw)


def sx_float(*args):
    if args and type(args[0]) in SYM_TYPES:
        x = args[0]
        return float(x._sx_realise("float")) if type(x) is SymStr else to_float(x)
    return float(*args)


def sx_bool(*args):
    if args and type(args[0]) in SYM_TYPES:
        return wrap_bool(bool_expr(args[0]))
    return bool(*args)


def sx_str(*args, **kw):
    if len(args) == 1 and type(args[0]) is SymStr:
        return args[0]
    if len(args) == 1 and type(args[0]) is SymBool:
        return "True" if args[0] else "False"
    if len(args) == 1 and type(args[0]) not in SYM_TYPES and type(type(args[0]).__str__) is types.FunctionType:
        return type(args[0]).__str__(args[0])  # may give a symbolic text
    return str(*args, **kw)


def sx_dict_call(*args, **kw):
    return SDict(*args, **kw)


def sx_set_call(*args):
    return SSet(*args)


def sx_abs(x):
    return abs(x)


def sx_len(x):
    return len(x)


def sx_ord(x):
    if type(x) is SymStr:
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return SymInt(char_expr(x._sx_c[0]))
    return ord(x)


def sx_chr(x):
    if type(x) is SymInt:
        return mkstr([x._sx_e])
    return chr(x)


def sx_minmax(which):
    native = min if which == "min" else max

    def call(*args, **kw):
        if not kw and args:
            seq = list(args[0]) if len(args) == 1 else list(args)
            if seq and any(type(x) in NUM_TYPES for x in seq) and \
                    all(type(x) in NUM_TYPES or type(x) in (int, float) for x in seq):
                best = seq[0]
                for x in seq[1:]:
                    best = ite(x < best if which == "min" else x > best, x, best)
                return best
            if len(args) == 1:
                return native(seq)
        return native(*args, **kw)
    return call


def sx_round(x, *args):
    return round(x, *args)


def sx_getattr(obj, name, *default):
    if type(name) is SymStr:
        name = match_name(name, dir(obj))
    return getattr(obj, name, *default)


def sx_hasattr(obj, name):
    if type(name) is SymStr:
        name = match_name(name, dir(obj))
    return hasattr(obj, name)


def sx_setattr(obj, name, value):
    if type(name) is SymStr:
        name = match_name(name, dir(obj))
    setattr(obj, name, value)


def match_name(name, names):
    """ Concrete attribute name equal to the symbolic one, or an arbitrary other string. """
    for candidate in names:
        if len(candidate) == len(name) and name == candidate:
            return candidate
    return name._sx_realise("attribute name that matches none of the object's")


def sx_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if any(type(x) in NUM_TYPES for x in (a, b, rel_tol, abs_tol)):
        return isclose(a, b, rel_tol, abs_tol)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def sx_sqrt(x):
    return sqrt(x) if type(x) in NUM_TYPES else math.sqrt(x)


def sx_floor(x):
    return x.__floor__() if type(x) in NUM_TYPES else math.floor(x)


def sx_ceil(x):
    return x.__ceil__() if type(x) in NUM_TYPES else math.ceil(x)


def sx_isnan(x):
    return False if type(x) in NUM_TYPES else math.isnan(x)


def sx_isfinite(x):
    return True if type(x) in NUM_TYPES else math.isfinite(x)


def sx_fabs(x):
    return abs(to_float(x)) if type(x) in NUM_TYPES else math.fabs(x)


def sx_log10(x):
    """ Only integer parts of log10 are used on symbolic data; modelled by bracketing powers of ten. """
    if type(x) not in NUM_TYPES:
        return math.log10(x)
    return math.log10(concrete(x, "log10"))


class JsonText(str):
    """ JSON text of a structure holding symbolic values. """
    __class__ = property(lambda self: str)

    def __new__(cls, payload):
        self = str.__new__(cls, "<json>")
        self._sx_payload = payload
        return self

    def encode(self, *args, **kw):
        res = JsonBytes(b"<json>")
        res._sx_payload = self._sx_payload
        return res


class JsonBytes(bytes):
    def decode(self, *args, **kw):
        return JsonText(self._sx_payload)


def json_value(value, default=None, strict=False):
    """ What json (or orjson, strict) would write and read back. """
    t = type(value)
    if t in SYM_TYPES or value is None or t in (bool, int, str, OpaqueStr):
        return value
    if isinstance(value, bool) or isinstance(value, str):
        return value
    if isinstance(value, int):
        return int(value)
    if isinstance(value, float):
        return float(value)
    if isinstance(value, (list, tuple)):
        return [json_value(v, default, strict) for v in value]
    if isinstance(value, dict):
        res = SDict()
        for k, v in value.items():
            if type(k) is SymStr or isinstance(k, str):
                key = k
            elif strict:
                raise _orjson.JSONEncodeError("Dict key must be str")
            elif k is True or k is False or k is None:
                key = {True: "true", False: "false", None: "null"}[k]
            elif isinstance(k, (int, float)):
                key = str(concrete(k, "json key"))
            else:
                raise TypeError(f"keys must be str, int, float, bool or None, not {k.__class__.__name__}")
            res[key] = json_value(v, default, strict)
        return res
    if default is not None:
        return json_value(default(value), default, strict)
    if strict:
        raise _orjson.JSONEncodeError(f"Type is not JSON serializable: {value.__class__.__name__}")
    raise TypeError(f"Object of type {value.__class__.__name__} is not JSON serializable")


def sx_json_dumps(obj, *args, **kw):
    if contains_sym(obj):
        return JsonText(json_value(obj, kw.get("default")))
    return json.dumps(obj, *args, **kw)


def sx_orjson_dumps(obj, *args, **kw):
    if contains_sym(obj):
        payload = JsonBytes(b"<json>")
        payload._sx_payload = json_value(obj, None, not (args or kw))
        return payload
    return _orjson.dumps(obj, *args, **kw)


def sx_orjson_loads(text, *args, **kw):
    if type(text) in (JsonText, JsonBytes):
        return copy_payload(text._sx_payload)
    return _orjson.loads(text, *args, **kw)


def copy_payload(p):
    if isinstance(p, dict):
        return SDict((k, copy_payload(v)) for k, v in p.items())
    if isinstance(p, list):
        return [copy_payload(v) for v in p]
    return p


def sx_json_loads(text, *args, **kw):
    if type(text) in (JsonText, JsonBytes):
        return copy_payload(text._sx_payload)
    return json.loads(text, *args, **kw)


def sx_json_dump(obj, stream, *args, **kw):
    if contains_sym(obj):
        stream.write(JsonText(json_value(obj, kw.get("default"))))
        return None
    return json.dump(obj, stream, *args, **kw)


def sx_json_load(stream, *args, **kw):
    return sx_json_loads(stream.read(), *args, **kw)


class FakeUUID:
    """ uuid1 modelled as a source of distinct identifiers. """

    def __init__(self, n):
        self.n = n
        self.hex = f"{n:032x}"

    def __str__(self):
        return f"00000000-0000-0000-0000-{self.n:012d}"


def sx_uuid(*args, **kw):
    e = eng.ENGINE
    if e is None:
        return uuid.uuid1(*args, **kw)
    e.uuid += 1
    return FakeUUID(e.uuid)


def sx_sorted(it, *args, **kw):
    return sorted(it, *args, **kw)


def sx_literal_eval(x):
    import ast
    if type(x) is SymStr:
        x = x._sx_realise("literal_eval")
    return ast.literal_eval(x)


def sx_sum(it, *args):
    return sum(it, *args)


def sx_isinstance(obj, cls):
    return isinstance(obj, cls)


def sx_frozenset(*args):
    return frozenset(*args)


def np_quotient(a, b):
    """ a / b of two elements, as numpy does: no exception, but NaN or an infinity. """
    if type(b) in SYM_TYPES or type(b) in (int, float, bool):
        if b == 0:
            if a == 0 or a != a:
                return float("nan")
            return float("inf") if a > 0 else float("-inf")
    return a / b


def sx_div(a, b):
    for x in (a, b):
        if isinstance(x, np.ndarray) and x.dtype == object and contains_sym(x.ravel().tolist()):
            return np.frompyfunc(np_quotient, 2, 1)(a, b)
    return a / b


def sx_np_std(a, axis=None, *args, **kw):
    """ Standard deviation: some non-negative number, zero exactly when all the values are the same. """
    arr = np.asarray(a)
    if arr.dtype != object or args or kw or not contains_sym(arr.ravel().tolist()):
        return np.std(a, axis, *args, **kw)

    def spread(values):
        values = list(values)
        if eng.ENGINE.precise:
            return sqrt(npmodels.variance_of(values))
        res = eng.ENGINE.fresh("std", z3.RealSort())
        same = z3.And(*[bool_expr(v == values[0]) for v in values[1:]]) if len(values) > 1 else z3.BoolVal(True)
        eng.ENGINE.constrain(z3.And(res >= 0, (res == 0) == same))
        return SymReal(res)
    if axis is None or arr.ndim == 1:
        return spread(arr.ravel())
    flat = np.moveaxis(arr, axis, 0)
    res = np.empty(flat.shape[1:], dtype=object)
    for index in np.ndindex(*flat.shape[1:]):
        res[index] = spread(flat[(slice(None),) + index])
    return res


def sx_np_linspace(start, stop, num=50, *args, **kw):
    if type(start) not in SYM_TYPES and type(stop) not in SYM_TYPES or args or set(kw) - {"dtype"}:
        return np.linspace(start, stop, num, *args, **kw)
    res = np.empty(num, dtype=object)
    for i in range(num):
        res[i] = sx_float(start) if i == 0 else sx_float(stop) if i == num - 1 else start + (stop - start) * i / (num - 1)
    return res


def sx_import_module(name, *args):
    import importlib
    if type(name) is SymStr:
        name = name._sx_realise("module name")
    return importlib.import_module(name, *args)


TABLE = {}


def register(native, handler):
    TABLE[id(native)] = (native, handler)


register(hash, sx_hash)
register(type, sx_type)
register(int, sx_int)
register(float, sx_float)
register(bool, sx_bool)
register(str, sx_str)
register(dict, sx_dict_call)
register(set, sx_set_call)
register(copy.deepcopy, sx_deepcopy)
register(ord, sx_ord)
register(chr, sx_chr)
register(min, sx_minmax("min"))
register(max, sx_minmax("max"))
register(getattr, sx_getattr)
register(hasattr, sx_hasattr)
register(setattr, sx_setattr)
register(math.isclose, sx_isclose)
register(math.sqrt, sx_sqrt)
register(np.std, sx_np_std)
register(np.linspace, sx_np_linspace)
npmodels.register_all(register)
register(math.floor, sx_floor)
register(math.ceil, sx_ceil)
register(math.isnan, sx_isnan)
register(math.isfinite, sx_isfinite)
register(math.fabs, sx_fabs)
register(json.dumps, sx_json_dumps)
register(json.loads, sx_json_loads)
register(json.dump, sx_json_dump)
register(json.load, sx_json_load)
register(uuid.uuid1, sx_uuid)
register(uuid.uuid4, sx_uuid)
import ast as _ast  # noqa: E402
import importlib as _importlib  # noqa: E402
register(_ast.literal_eval, sx_literal_eval)
register(_importlib.import_module, sx_import_module)
try:
    import orjson as _orjson
    register(_orjson.dumps, sx_orjson_dumps)
    register(_orjson.loads, sx_orjson_loads)
except ImportError:
    pass

BuiltinMethod = types.BuiltinFunctionType
MethodWrapper = type("".__add__)


def str_method(self, name, args, kw):
    """ Method of a concrete str with symbolic arguments. """
    if name == "join":
        parts = list(args[0])
        if any(type(p) is SymStr for p in parts):
            return join(self, parts)
        return self.join(parts)
    if name == "format":
        return OpaqueStr(self.format(*args, **kw))
    if any(type(a) is SymStr for a in args):
        return getattr(SymStr(str_chars(self)), name)(*args, **kw)
    return getattr(self, name)(*args, **kw)


def dict_method(d, name, args, kw):
    """ Method of a plain dict with a symbolic key. """
    found, stored = find_in_plain_dict(d, args[0])
    if name == "get":
        return d[stored] if found else (args[1] if len(args) > 1 else None)
    if name == "pop":
        if found:
            return d.pop(stored)
        if len(args) > 1:
            return args[1]
        raise KeyError(args[0])
    if name == "__contains__":
        return found
    if name == "__getitem__":
        if not found:
            raise KeyError(args[0])
        return d[stored]
    if name == "setdefault":
        if found:
            return d[stored]
        d[args[0]] = args[1] if len(args) > 1 else None
        return d[args[0]]
    return getattr(d, name)(*args, **kw)


def sx_call(f, *args, **kw):
    """ f(*args, **kw) """
    entry = TABLE.get(id(f))
    if entry is not None:
        return entry[1](*args, **kw)
    if type(f) is BuiltinMethod:
        owner = f.__self__
        t = type(owner)
        if t is str:
            if args and (f.__name__ == "join" or any(type(a) in SYM_TYPES for a in args)):
                return str_method(owner, f.__name__, args, kw)
        elif t is np.ndarray:
            if f.__name__ == "astype" and owner.dtype == object:
                return npmodels.astype(owner, args, kw)
        elif t is dict:
            if args and needs_care(args[0]):
                return dict_method(owner, f.__name__, args, kw)
        elif f.__name__ == "write" and args and type(args[0]) is SymStr and isinstance(owner, io.StringIO):
            if eng.ENGINE.texts is not None:
                return owner.write(eng.ENGINE.texts.write(args[0]))
    elif type(f) is types.FunctionType or type(f) is types.MethodType:
        inner = getattr(f, "_sx_hash", None)
        if inner is not None:
            return inner(f.__self__) if type(f) is types.MethodType else inner(*args)
    return f(*args, **kw)


def sx_enter(name):
    FUNCTIONS.add(name)


def namespace():
    """ Names injected in the globals of instrumented modules. """
    return {"_sx_call": sx_call, "_sx_getitem": sx_getitem, "_sx_contains": sx_contains,
            "_sx_not_contains": sx_not_contains, "_sx_is": sx_is, "_sx_is_not": sx_is_not, "_sx_fstr": sx_fstr,
            "_sx_fmt": sx_fmt, "_sx_dict": sx_dict, "_sx_dictcomp": sx_dictcomp, "_sx_set": sx_set,
            "_sx_enter": sx_enter, "_sx_hash_wrap": hash_wrap, "_sx_not": sx_not, "_sx_div": sx_div}
