""" C16: only valid structures are accepted as such. """
import json

from dessia_common.core import stringify_dict_keys
from dessia_common.serialization import is_serializable, serialize
from dessia_common.utils.types import is_bson_valid, is_file_or_file_sequence, is_jsonable, is_sequence
from dessia_common.errors import SerializationError
from dessia_common.files import BinaryFile, StringFile
from symex.ctx import harness
from harness.models import Leaf, Part


class Foreign:
    """ Nothing the library knows. """


SCALARS = ["int", "real", "bool", "str", "none"]
BAD = ["class", "bytes", "set", "foreign"]


def key(ctx, name, kinds):
    """ (key, whether it is a string, whether it holds a dot) """
    kind = ctx.choice(name + ".key", kinds)
    if kind == "str":
        n = ctx.length(name + ".len", 0, 2)
        value = ctx.str(name + ".s", n, [".$a"]) if n else ""
        return kind, value, ctx.any_([ctx.eq(value[i], ".") for i in range(n)])
    value = {"int": 7, "float": 2.5, "tuple": (1, 2), "none": None, "bool": True}[kind]
    return kind, value, False


def bad(kind):
    """ A value no database takes. """
    return {"class": Foreign, "bytes": b"ab", "set": {1, 2}, "foreign": Foreign()}[kind]


def structure(ctx, name, depth, allow):
    """ (value, whether it is valid) """
    kinds = ["list", "tuple", "dict", "int", "str", "foreign"] if depth else SCALARS + BAD
    kind = ctx.choice(name + ".kind", kinds)
    if kind == "int":
        return ctx.int(name + ".i"), True
    if kind == "real":
        return ctx.real(name + ".r"), True
    if kind == "bool":
        return ctx.bool(name + ".b"), True
    if kind == "str":
        return ctx.str(name + ".v", 1, [".$a"]), True
    if kind == "none":
        return None, True
    if kind in BAD:
        return bad(kind), False
    count = ctx.length(name + ".n", 0, 2 if depth > 1 or kind != "dict" else 1)
    valid, items = [], []
    for i in range(count):
        sub, fine = structure(ctx, f"{name}.{i}", depth - 1 if i == count - 1 else 0, allow)
        items.append(sub)
        valid.append(fine)
    if kind != "dict":
        return (items if kind == "list" else tuple(items)), ctx.all_(valid)
    res = {}
    for i in range(count):
        if i == 0:
            k_kind, k, dot = key(ctx, f"{name}.{i}", ["str", "int", "float", "tuple", "none", "bool"])
        else:
            k_kind, k, dot = "str", "last", False
        res[k] = items[i]
        valid.append(ctx.not_(dot) if k_kind == "str" else k_kind in ("int", "bool") and allow)
    return res, ctx.all_(valid)


@harness("C16", bounds="structures of depth <= 3, <= 2 elements per level, string keys of length <= 2 over {a . $}, keys of 5 "
                       "other types, base values, and 4 kinds of values that no database takes; non-string keys allowed "
                       "or not", shards=8)
def bson(ctx):
    """ The verdict is right, at every depth. """
    allow = ctx.flag("allow")
    value, expected = structure(ctx, "v", 2, allow)
    verdict, hint = is_bson_valid(value, allow_nonstring_keys=allow) if allow or ctx.flag("explicit") else is_bson_valid(value)
    ctx.check(ctx.iff(verdict, expected), "accepted exactly when every key and value is fine")
    ctx.check(isinstance(hint, str) and ctx.iff(verdict, hint == ""), "a rejection comes with a hint")


def stringified(value):
    """ What the structure becomes. """
    if isinstance(value, (list, tuple)):
        return [stringified(v) for v in value]
    if isinstance(value, dict):
        return {"keys": [str(k) for k in value], "values": [stringified(v) for v in value.values()]}
    return value


def flattened(value):
    """ Dictionaries as key and value lists, so that order counts. """
    if isinstance(value, list):
        return [flattened(v) for v in value]
    if isinstance(value, dict):
        return {"keys": list(value), "values": [flattened(v) for v in value.values()]}
    return value


@harness("C16", bounds="structures as above", shards=4)
def string_keys(ctx):
    """ Converting keys to strings changes nothing else. """
    value, _ = structure(ctx, "v", 2, True)
    before = flattened(value)
    res = stringify_dict_keys(value)
    ctx.check(ctx.same(flattened(res), stringified(value)), "keys as strings, values and order kept")
    ctx.check(ctx.same(flattened(value), before), "the structure given is left as it was")
    if not isinstance(value, (list, tuple, dict)):
        ctx.check(res is value, "other values are returned as they are")


def content(ctx, name, depth):
    """ (value, whether it can be serialized) """
    kinds = ["list", "tuple", "dict", "object"] if depth else ["int", "str", "none", "leaf", "foreign", "set"]
    kind = ctx.choice(name + ".kind", kinds)
    if kind == "int":
        return ctx.int(name + ".i"), True
    if kind == "str":
        return ctx.str(name + ".s", 1, [(97, 122)]), True
    if kind == "none":
        return None, True
    if kind == "leaf":
        return Leaf(ctx.int(name + ".value"), name="l"), True
    if kind in BAD:
        return bad(kind), False
    if kind == "object":
        sub, fine = content(ctx, name + ".c", depth - 1)
        return Part(1, sub, name="p"), fine
    count = ctx.length(name + ".n", 0, 2)
    items, valid = [], True
    for i in range(count):
        sub, fine = content(ctx, f"{name}.{i}", depth - 1 if i == count - 1 else 0)
        items.append(sub)
        valid = valid and fine
    if kind != "dict":
        return (items if kind == "list" else tuple(items)), valid
    res = {}
    for i in range(count):
        which = ctx.choice(f"{name}.key{i}", ["str", "int", "tuple", "object"] if i == 0 else ["str"])
        k = {"str": f"k{i}", "int": i, "tuple": (i, 1)}[which] if which != "object" else Leaf(3, name="key")
        valid = valid and which in ("str", "int")
        res[k] = items[i]
    return res, valid


@harness("C16", bounds="lists, tuples, dictionaries and objects nested to depth 3, with base values, objects, and values and "
                       "keys that cannot be written", shards=8)
def serializable(ctx):
    """ What is declared serializable really is, and the other way round. """
    value, fine = content(ctx, "v", 2)
    try:
        verdict = is_serializable(value)
    except SerializationError:
        verdict = False
    ctx.check(verdict == fine, "declared serializable exactly when it is")
    if verdict:
        text = json.dumps(serialize(value))
        ctx.check(isinstance(json.loads(text), (list, dict)), "and it can be written")
    try:
        jsonable = is_jsonable(serialize(value))
    except SerializationError:
        jsonable = False
    ctx.check(jsonable == fine, "its serialized form can be dumped as it is, exactly then")


@harness("C16", bounds="9 kinds of values, files nested in lists and tuples to depth 2")
def kinds(ctx):
    """ What counts as a sequence or as files. """
    kind = ctx.choice("kind", ["list", "tuple", "dict", "str", "bytes", "int", "none", "file", "range"])
    name = ctx.choice("text", ["text", "binary"])
    file = StringFile("f.txt") if name == "text" else BinaryFile("f.bin")
    i = ctx.int("i")
    value = {"list": [i], "tuple": (i,), "dict": {"a": i}, "str": "ab", "bytes": b"ab", "int": i, "none": None,
             "file": file, "range": range(3)}[kind]
    ctx.check(is_sequence(value) == (kind in ("list", "tuple", "range")), "sequences other than text are known as such")
    ctx.check(is_file_or_file_sequence(value) == (kind == "file"), "files are known as such")
    wrapped = [[i, value]] if ctx.flag("nested") else (value, i)
    ctx.check(is_file_or_file_sequence(wrapped) == (kind == "file"), "and containers of files")
