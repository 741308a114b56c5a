""" C04: copies are equal to and independent of the original. """
from copy import deepcopy

from dessia_common.core import DessiaObject
from dessia_common.utils.copy import deepcopy_value
from symex.ctx import harness
from harness.c01_serialization import snapshot
from harness.models import Box, Leaf, OtherBox, Pair, Part, Selective, Strict, Typed, LETTERS, gen
from harness.twins import twin


def mutables(value, found, depth=0):
    """ All the mutable parts reachable from a value. """
    if depth > 12:
        return
    if isinstance(value, (list, dict, DessiaObject)):
        found.append(value)
    if isinstance(value, (list, tuple)):
        for sub in value:
            mutables(sub, found, depth + 1)
    elif isinstance(value, dict):
        for sub in value.values():
            mutables(sub, found, depth + 1)
    elif isinstance(value, DessiaObject):
        for sub in value.__dict__.values():
            mutables(sub, found, depth + 1)


def scramble(value, depth=0):
    """ Changes every mutable part of a value. """
    if isinstance(value, DessiaObject):
        for key, sub in list(value.__dict__.items()):
            scramble(sub, depth + 1)
            setattr(value, key, "changed")
    elif isinstance(value, dict):
        for sub in list(value.values()):
            scramble(sub, depth + 1)
        value.clear()
        value["changed"] = 1
    elif isinstance(value, (list, tuple)):
        for sub in value:
            scramble(sub, depth + 1)
        if isinstance(value, list):
            value.append("changed")


def laws(ctx, obj, way=None):
    """ Every clause of the property for one object. """
    before = snapshot(obj)
    way = way or ctx.choice("way", ["copy", "deepcopy", "copy with memo"])
    if way == "copy":
        other = obj.copy()
    elif way == "deepcopy":
        other = deepcopy(obj)
    else:
        other = obj.copy(deep=True, memo={})
    ctx.check(other is not obj, "a new object")
    ctx.check(other.__class__ is obj.__class__, "same class")
    ctx.check(ctx.same(snapshot(obj), before, loose_seq=False), "copying leaves the original unchanged")
    ctx.check(ctx.same(snapshot(other), before, loose_seq=False), "same data and names at every depth")
    if obj._eq_is_data_eq:
        ctx.check(bool(other == obj), "the copy compares equal to the original")
    mine, others = [], []
    mutables(obj, mine)
    mutables(other, others)
    ctx.check(not any(x is y for x in mine for y in others), "no mutable part is shared")
    if ctx.flag("change the copy"):
        scramble(other)
        ctx.check(ctx.same(snapshot(obj), before), "changing the copy leaves the original unchanged")
    else:
        scramble(obj)
        ctx.check(ctx.same(snapshot(other), before), "changing the original leaves the copy unchanged")
    return other


@harness("C04", bounds="content: int, float, bool, str (<= 2), None, list/tuple/dict (<= 2) of scalars", shards=4)
def scalar_contents(ctx):
    """ Plain values and one level of containers. """
    laws(ctx, Box(gen(ctx, "c", ["int", "real", "bool", "str2", "none", "list", "tuple", "dict"],
                      sub=["int", "real", "str", "none"]), name=ctx.str("n", 1, LETTERS)))


@harness("C04", bounds="content: objects, or <= 2 objects in a list/tuple/dict/object; symbolic data", shards=4)
def object_contents(ctx):
    """ Sub-objects. """
    laws(ctx, Pair(gen(ctx, "c", ["leaf", "part", "box", "list", "tuple", "dict"], sub=["ileaf", "part"]),
                   gen(ctx, "d", ["none", "part", "ileaf"]), name="n"))


@harness("C04", bounds="nesting depth 3 of lists, tuples, dicts and objects", shards=4)
def deep_contents(ctx):
    """ Deep nesting. """
    def deep(name, depth):
        if depth == 0:
            return ctx.choice(name + ".leaf", [0, 1]) and Leaf(ctx.int(name + ".v"), 0., "l", name="leaf") or \
                ctx.int(name + ".i")
        kind = ctx.choice(name + ".kind", ["list", "tuple", "dict", "box"])
        sub = deep(name + "'", depth - 1)
        return {"list": lambda: [sub, [ctx.int(name + ".x")]], "tuple": lambda: (sub, [1]),
                "dict": lambda: {"k": sub}, "box": lambda: OtherBox(sub, name="b")}[kind]()
    laws(ctx, Box(deep("c", ctx.bound(2, 3)), name="top"))


@harness("C04", bounds="3 places (attribute, list, dict, sub-object) for 2 pooled instances; symbolic data", shards=6)
def sharing(ctx):
    """ One instance stays one instance; instances with different data stay different. """
    kind = ctx.choice("kind", [Part, Box, Strict])
    pool = [kind(ctx.int("a", -1000, 1000), name="s"), kind(ctx.int("b", -1000, 1000), name="s")]
    which = [0, ctx.select("w1", 2), ctx.select("w2", 2)]
    places = {"list": (lambda x: [0, x], lambda v: v[1]), "dict": (lambda x: {"k": x}, lambda v: v["k"]),
              "tuple": (lambda x: (x,), lambda v: v[0]), "object": (lambda x: OtherBox(x), lambda v: v.content),
              "direct": (lambda x: x, lambda v: v),
              "deep": (lambda x: [Part(3, {"z": x})], lambda v: v[0].content["z"])}
    p0, p1 = places[ctx.choice("p0", list(places))], places[ctx.choice("p1", list(places))]
    obj = Pair(p0[0](pool[which[0]]), Box([p1[0](pool[which[1]]), pool[which[2]]]), name="top")

    def read(root):
        return [p0[1](root.first), p1[1](root.second.content[0]), root.second.content[1]]
    other = obj.copy()
    before, after = read(obj), read(other)
    for i in range(3):
        value = "value" if kind is not Box else "content"
        ctx.check(ctx.eq(getattr(before[i], value), getattr(after[i], value)), "each place has its data")
        ctx.check(after[i] is not before[i], "and is a copy")
        for j in range(i):
            if which[i] == which[j]:
                ctx.check(after[i] is after[j], "one instance stays one instance")
            else:
                differ = ctx.not_(ctx.eq(getattr(before[i], value), getattr(before[j], value)))
                ctx.check(ctx.implies(differ, after[i] is not after[j]), "different data stay different instances")


@harness("C04", bounds="dictionaries with int, tuple and str keys; symbolic values")
def dictionary_keys(ctx):
    """ Dictionaries keep their keys. """
    keys = {"str": "k", "int": 3, "tuple": (1, 2), "none": None, "bool": True, "float": 1.5}
    k1, k2 = ctx.choice("k1", list(keys)), ctx.choice("k2", list(keys))
    ctx.assume(k1 != k2)
    obj = Box({keys[k1]: ctx.int("v"), keys[k2]: [ctx.int("w")]}, name="n")
    laws(ctx, obj)


@harness("C04", bounds="Tuple/List/Dict annotated attributes; excluded attributes; identity classes")
def special_classes(ctx):
    """ Annotated, excluded and identity-compared. """
    which = ctx.choice("class", ["typed", "selective", "strict"])
    if which == "typed":
        laws(ctx, Typed((ctx.int("a"), ctx.int("b")), [Part(ctx.int("p"), None, name="p")], {"x": ctx.real("x")},
                        name="t"))
    elif which == "selective":
        laws(ctx, Selective(ctx.int("v"), ctx.int("s"), ctx.str("c", 1, LETTERS), name=ctx.str("n", 1, LETTERS)))
    else:
        laws(ctx, Strict(ctx.int("v"), name="s"))


@harness("C04", bounds="bare values: list/tuple/dict (<= 2) of scalars or objects", shards=2)
def bare_values(ctx):
    """ deepcopy_value on values outside of objects. """
    value = gen(ctx, "c", ["int", "list", "tuple", "dict", "part"], sub=["int", "part", "str"])
    before = snapshot(value)
    other = deepcopy_value(value, {})
    ctx.check(ctx.same(snapshot(other), before, loose_seq=False), "same data")
    mine, others = [], []
    mutables(value, mine)
    mutables(other, others)
    ctx.check(not any(x is y for x in mine for y in others), "no mutable part is shared")
    scramble(other)
    ctx.check(ctx.same(snapshot(value), before, loose_seq=False), "original unchanged")


@harness("C04", bounds="shallow copies; symbolic data")
def shallow(ctx):
    """ A shallow copy is a new object with the same class, data and name. """
    content = gen(ctx, "c", ["int", "str", "list", "part", "dict"], sub=["int"])
    obj = Pair(content, ctx.int("s"), name=ctx.str("n", 1, LETTERS))
    before = snapshot(obj)
    other = obj.copy(deep=False)
    ctx.check(other is not obj and other.__class__ is Pair, "a new object of the same class")
    ctx.check(ctx.same(snapshot(other), before), "same data and name")
    ctx.check(bool(other == obj), "equal")
    other.second = "changed"
    ctx.check(ctx.same(snapshot(obj), before), "setting an attribute of the copy leaves the original unchanged")


@harness("C04", bounds="lists or dictionaries of 12 objects, one of any value, and one of them twice")
def wide(ctx):
    """ Containers of more than ten elements. """
    at, again = ctx.choice("at", [0, 9, 10, 11]), ctx.choice("again", [1, 10])
    items = [Leaf(ctx.int("v") if i == at else 7 * i, 0.5, "l") for i in range(12)]
    content = {str(i): x for i, x in enumerate(items)} if ctx.flag("dict") else items
    obj = Box([content, items[again]], name="top")
    copied = obj.copy()
    ctx.check(copied.content[1] is (copied.content[0][str(again)] if isinstance(content, dict) else copied.content[0][again]),
              "what is shared stays shared")
    laws(ctx, obj)


class Foreign:
    """ Not an object of the library, knows how to copy itself. """

    def __init__(self, value):
        self.value = value
        self.items = [value]

    def __deepcopy__(self, memo):
        return Foreign(self.value)


@harness("C04", bounds="two foreign objects with their own copy, in any of 3 places, directly or in lists and dictionaries")
def foreign(ctx):
    """ Objects outside of the library that can be copied are copied, once each. """
    one, two = Foreign(ctx.int("one")), Foreign(ctx.int("two"))
    places = [ctx.choice(f"place{i}", [one, two]) for i in range(3)]
    kind = ctx.choice("kind", ["plain", "list", "dict", "part"])
    held = {"plain": lambda x: x, "list": lambda x: [x], "dict": lambda x: {"key": x}, "part": Box}[kind](places[0])
    obj = Pair(held, places[1:], name="top")
    other = deepcopy(obj) if ctx.flag("deepcopy") else obj.copy()
    got = {"plain": lambda x: x, "list": lambda x: x[0], "dict": lambda x: x["key"], "part": lambda x: x.content}[kind](other.first)
    copies = [got] + list(other.second)
    for i, (mine, theirs) in enumerate(zip(places, copies)):
        ctx.check(theirs.__class__ is Foreign and theirs is not mine, "copied")
        ctx.check(ctx.same([theirs.value, theirs.items], [mine.value, mine.items]), "same data")
        for mine2, theirs2 in zip(places[:i], copies[:i]):
            ctx.check((mine is mine2) == (theirs is theirs2), "one instance stays one, two stay two")


@harness("C04", bounds="two objects in any order, of 8 classes: namesakes, keyword-only attributes, sub-classes", shards=2)
def namesakes(ctx):
    """ Classes of the same name in different modules, and classes that look alike. """
    laws(ctx, Pair(twin(ctx, "one"), [twin(ctx, "two")], name="top"))


class Hidden(DessiaObject):
    """ An argument read through a property. """

    def __init__(self, content: list = None, size: int = 0, name: str = ""):
        self._content = content
        self.size = size
        super().__init__(name=name)

    @property
    def content(self):
        """ The argument. """
        return self._content


@harness("C04", bounds="an object whose argument is held under another name, alone or in a list; every value")
def properties(ctx):
    """ Arguments read through properties are copied as well. """
    held = [Leaf(ctx.int("value"), 0., "l")] if ctx.flag("objects") else [ctx.int("value"), 3]
    obj = Hidden(held, ctx.int("size"), name="hidden")
    top = Box([obj, obj]) if ctx.flag("list") else obj
    other = top.copy() if ctx.flag("copy") else deepcopy(top)
    if top is not obj:
        ctx.check(other.content[0] is other.content[1], "one instance")
        other = other.content[0]
    ctx.check(other.__class__ is Hidden and other is not obj, "copied")
    ctx.check(ctx.same(other.size, obj.size) and other.name == "hidden", "same data")
    ctx.check(other.content is not held, "its own content")
    ctx.check(bool(other.content == held), "same content")
    if isinstance(held[0], Leaf):
        ctx.check(other.content[0] is not held[0], "independent content")
