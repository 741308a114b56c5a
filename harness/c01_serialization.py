""" C01: objects survive serialization and deserialization. """
import copy
import json

import dessia_common.core as dc_core
from dessia_common.core import DessiaObject
from dessia_common.serialization import serialize, deserialize
from symex.ctx import harness
from harness.models import Box, Leaf, OtherBox, Pair, Part, Selective, Typed, LETTERS, gen
from harness.twins import twin


class Stream:
    """ In-memory text stream, that json dumps to. """

    def __init__(self):
        self.parts = []

    def write(self, text):
        self.parts.append(text)

    def text(self):
        """ The JSON text written. """
        for part in self.parts:
            if hasattr(part, "_sx_payload"):
                return part
        return "".join(self.parts)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class ReadStream:
    """ Read side of Stream. """

    def __init__(self, content):
        self.content = content

    def read(self):
        return self.content

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


def json_only(value, depth=0):
    """ Whether the structure only holds JSON values, with string keys. """
    if depth > 15:
        return False
    if value is None or isinstance(value, (bool, int, float, str)):
        return True
    if isinstance(value, (list, tuple)):
        return all(json_only(v, depth + 1) for v in value)
    if isinstance(value, dict):
        return all(isinstance(k, str) and json_only(v, depth + 1) for k, v in value.items())
    return False


def snapshot(value, depth=0):
    """ Independent structural copy, not using the code under test. """
    if isinstance(value, list):
        return [snapshot(v, depth + 1) for v in value]
    if isinstance(value, tuple):
        return tuple(snapshot(v, depth + 1) for v in value)
    if isinstance(value, dict):
        return {k: snapshot(v, depth + 1) for k, v in value.items()}
    if isinstance(value, DessiaObject):
        return (value.__class__, {k: snapshot(v, depth + 1) for k, v in value.__dict__.items()})
    return value


def roundtrip(ctx, obj, tag=""):
    """ Through the dictionary form, all ways; checks every clause. """
    before = snapshot(obj)
    way = ctx.choice("way", ["pointers", "no pointers", "stream", "file", "serialize", "plain"])
    if way == "stream":
        out = Stream()
        obj.save_to_stream(out)
        text = out.text()
        back = obj.__class__.from_json_stream(ReadStream(text.encode("utf-8")))
        dict_ = None
    elif way == "file":
        files = {}

        def fake_open(path, mode="r", **kwargs):
            if "w" in mode:
                files[path] = Stream()
                return files[path]
            return ReadStream(files[path].text())
        had = "open" in dc_core.__dict__
        dc_core.open = fake_open
        try:
            obj.save_to_file("somewhere")
            ctx.check(list(files) == ["somewhere.json"], "save_to_file writes one file, with its extension")
            back = obj.__class__.from_json("somewhere.json")
        finally:
            if not had:
                del dc_core.open
        dict_ = None
    else:
        if way == "serialize":
            dict_ = serialize(obj)
        else:
            dict_ = obj.to_dict(use_pointers=way != "no pointers")
        ctx.check(ctx.same(snapshot(obj), before), "producing the dictionary leaves the object unchanged")
        ctx.check(json_only(dict_), "the dictionary holds JSON values only")
        through_json = way != "plain"
        data = json.loads(json.dumps(dict_)) if through_json else dict_
        saved = snapshot(data)
        # generic entry point on the base class or on the class itself
        back = DessiaObject.dict_to_object(data) if way == "pointers" else obj.__class__.dict_to_object(data)
        ctx.check(ctx.same(snapshot(data), saved), "rebuilding leaves the dictionary unchanged")
    ctx.check(back.__class__ is obj.__class__, "same class")
    ctx.check(ctx.same(snapshot(obj), before), "round trip leaves the object unchanged")
    ctx.check(ctx.same(before, snapshot(back)), "same data, attribute by attribute, at every depth")
    ctx.check(bool(back == obj), "the rebuilt object compares equal to the original")
    return dict_, back


@harness("C01", bounds="content: int, float, bool, str (<= 2 letters), None, list/tuple/dict of <= 2 scalars",
         shards=6)
def scalar_contents(ctx):
    """ Plain values and one level of containers. """
    content = gen(ctx, "c", ["int", "real", "bool", "str2", "none", "list", "tuple", "dict"],
                  sub=["int", "real", "str", "bool", "none"])
    roundtrip(ctx, Box(content, name=ctx.str("name", 1, LETTERS)))


@harness("C01", bounds="content: sub-object or list/dict (<= 2) of sub-objects (owned or standalone), symbolic data",
         shards=6)
def object_contents(ctx):
    """ Sub-objects, owned or standalone, directly or in containers. """
    content = gen(ctx, "c", ["leaf", "part", "box", "list", "dict"], sub=["ileaf", "part"])
    second = gen(ctx, "d", ["none", "part", "ileaf"])
    roundtrip(ctx, Pair(content, second, name="n"))


def deep(ctx, name, depth):
    """ A value `depth` containers deep. """
    if depth == 0:
        kind = ctx.choice(name + ".kind", ["int", "leaf", "part"])
        if kind == "int":
            return ctx.int(name + ".i")
        if kind == "leaf":
            return Leaf(ctx.int(name + ".v"), 0.5, ctx.str(name + ".l", 1, LETTERS), name="leaf")
        return Part(ctx.int(name + ".p"), None, name="part")
    kind = ctx.choice(name + ".kind", ["list", "dict", "part", "box"])
    sub = deep(ctx, name + "'", depth - 1)
    if kind == "list":
        return [sub, ctx.int(name + ".x")]
    if kind == "dict":
        return {"k": sub, "other": None}
    if kind == "part":
        return Part(depth, sub, name="part")
    return OtherBox(sub, name="other")


@harness("C01", bounds="nesting depth 3 (quick) / 4 (thorough) of lists, dicts, owned and standalone objects",
         shards=6)
def deep_contents(ctx):
    """ Deep nesting. """
    roundtrip(ctx, Box(deep(ctx, "c", ctx.bound(2, 3)), name="top"))


@harness("C01", bounds="Tuple attribute (0..3 items), List[Part] (<= 2), Dict[str,float] (<= 2) annotations", shards=4)
def annotated_attributes(ctx):
    """ Attributes whose annotation matters when rebuilding: tuples stay tuples. """
    items = [Part(ctx.int(f"p{i}"), None, name=f"p{i}") for i in range(ctx.length("n", 0, 2))]
    if len(items) == 2:
        ctx.assume(ctx.not_(ctx.eq(items[0].value, items[1].value)))
    table = {k: ctx.real(k) for k in ["x", "y"][:ctx.length("m", 0, 2)]}
    pair = tuple(ctx.int(f"t{i}") for i in range(ctx.choice("len", [2, 0, 1, 3] if ctx.tier == "thorough" else [2, 0])))
    obj = Typed(pair, items, table, name="t")
    _, back = roundtrip(ctx, obj)
    ctx.check(isinstance(back.pair, tuple), "a tuple-annotated attribute comes back as a tuple")
    ctx.check(isinstance(back.items, list), "a list-annotated attribute comes back as a list")


@harness("C01", bounds="symbolic ints and strs")
def excluded_attributes(ctx):
    """ Non serializable and private attributes stay out of the dictionary; the others are all there. """
    obj = Selective(ctx.int("v"), ctx.int("s"), ctx.str("c", 2, LETTERS), name=ctx.str("n", 1, LETTERS))
    obj.cache = ctx.int("k")
    obj._private = ctx.int("p")
    dict_ = obj.to_dict(use_pointers=ctx.flag("pointers"))
    keys = sorted(k for k in dict_ if k != "_references")
    ctx.check(keys == ["comment", "name", "object_class", "slow", "value"], "exactly the serializable attributes")
    ctx.check(ctx.all_([ctx.eq(dict_["value"], obj.value), ctx.eq(dict_["slow"], obj.slow),
                        ctx.eq(dict_["comment"], obj.comment), ctx.eq(dict_["name"], obj.name)]), "with their values")
    back = Selective.dict_to_object(json.loads(json.dumps(dict_)))
    ctx.check(ctx.all_([ctx.eq(back.value, obj.value), ctx.eq(back.slow, obj.slow),
                        ctx.eq(back.comment, obj.comment), ctx.eq(back.name, obj.name)]), "rebuilt with its values")


@harness("C01", bounds="list or dict (<= 2) of objects, serialized outside of any object", shards=2)
def bare_containers(ctx):
    """ Containers of objects serialize and rebuild too. """
    items = [Leaf(ctx.int(f"v{i}"), 0.25, ctx.str(f"l{i}", 1, LETTERS), name="a") for i in range(ctx.length("n", 1, 2))]
    value = items if ctx.flag("list") else {f"k{i}": x for i, x in enumerate(items)}
    before = snapshot(value)
    data = json.loads(json.dumps(serialize(value)))
    back = deserialize(data)
    ctx.check(ctx.same(before, snapshot(back)), "same data at every depth")
    ctx.check(ctx.same(before, snapshot(value)), "unchanged")


@harness("C01", bounds="strings of length <= 3 over letters and . / # $ and space")
def odd_strings(ctx):
    """ Strings with characters that mean something elsewhere come back untouched. """
    text = ctx.str("text", ctx.length("len", 1, 3), ["ab./#$ "])
    obj = Box(text if ctx.flag("bare") else [text, {"k": text}], name="n")
    dict_ = obj.to_dict(use_pointers=ctx.flag("pointers"))
    back = DessiaObject.dict_to_object(json.loads(json.dumps(dict_)))
    ctx.check(ctx.same(snapshot(obj), snapshot(back)), "same data")


@harness("C01", shards=2, bounds="lists and dictionaries of 10..12 scalars or objects, one of them of any value, keys that look like numbers")
def wide(ctx):
    """ Containers of more than ten elements. """
    n = ctx.choice("n", [10, 11, 12])
    at = ctx.choice("at", [0, 1, 9, n - 1])
    values = [ctx.int("v", -1000, 1000) if i == at else 100 - 7 * i for i in range(n)]
    kind = ctx.choice("kind", ["ints", "leaves", "parts"])
    items = [v if kind == "ints" else Leaf(v, 0.5, "l") if kind == "leaves" else Part(v, None, name="p") for v in values]
    content = {str((5 * i) % 13): x for i, x in enumerate(items)} if ctx.flag("dict") else items
    _, back = roundtrip(ctx, Pair([content, 1], items, name="top"))
    if isinstance(content, dict):
        ctx.check(list(back.first[0]) == list(content), "keys are in the same order")


@harness("C01", bounds="two objects in any order, of 8 classes: namesakes, keyword-only attributes, sub-classes", shards=2)
def namesakes(ctx):
    """ Classes of the same name in different modules, and classes that look alike. """
    obj = Pair(twin(ctx, "one"), [twin(ctx, "two")], name="top")
    _, again = roundtrip(ctx, obj)
    if again is not None:
        for mine, theirs in ((obj.first, again.first), (obj.second[0], again.second[0])):
            ctx.check(mine.__class__ is theirs.__class__, "same class")
