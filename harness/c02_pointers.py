""" C02: shared sub-objects stay shared through pointer serialization. """
import json

from dessia_common.core import DessiaObject
from dessia_common.serialization import serialize_with_pointers
from symex.ctx import harness
from harness.models import Box, Leaf, OtherBox, Pair, Part
from harness.twins import Derived


def refs_of(value, found, depth=0):
    """ All the pointers in a serialized structure. """
    if isinstance(value, dict):
        if "$ref" in value:
            found.append(value["$ref"])
        for sub in value.values():
            refs_of(sub, found, depth + 1)
    elif isinstance(value, (list, tuple)):
        for sub in value:
            refs_of(sub, found, depth + 1)


def resolve(dict_, ref):
    """ JSON pointer resolution, independent of the code under test. None when it leads nowhere. """
    element = dict_
    for segment in ref.split("/")[1:]:
        if isinstance(element, dict) and segment in element:
            element = element[segment]
        elif isinstance(element, list) and int(segment) < len(element):
            element = element[int(segment)]
        else:
            return None
    return element


class Place:
    """ A way to put a sub-object in a tree and to read it there. """

    def __init__(self, wrap, read):
        self.wrap = wrap
        self.read = read


PLACES = {
    "direct": Place(lambda x: x, lambda v: v),
    "list": Place(lambda x: [0, x], lambda v: v[1]),
    "dict": Place(lambda x: {"k": x}, lambda v: v["k"]),
    "owned": Place(lambda x: OtherBox(x, name="w"), lambda v: v.content),
    "standalone": Place(lambda x: Part(7, x, name="s"), lambda v: v.content),
    "list in dict": Place(lambda x: {"k": [x]}, lambda v: v["k"][0]),
    "owned in list": Place(lambda x: [OtherBox(x, name="w")], lambda v: v[0].content),
    "standalone in standalone": Place(lambda x: Part(8, [Part(9, x, name="t")], name="s"),
                                      lambda v: v.content[0].content),
}


def check_form(ctx, dict_):
    """ Every pointer of the form resolves in it. """
    found = []
    refs_of(dict_, found)
    for ref in found:
        target = resolve(dict_, ref)
        ctx.check(isinstance(target, dict) and "object_class" in target, "every pointer resolves inside the form",
                  str(ref))
    return found


def pass_through(ctx, obj):
    dict_ = obj.to_dict()
    found = check_form(ctx, dict_)
    data = json.loads(json.dumps(dict_)) if ctx.flag("json") else dict_
    return found, DessiaObject.dict_to_object(data)


def make_shared(ctx, kind, tag):
    if kind == "leaf":
        return Leaf(ctx.int(tag, -1000, 1000), 0.5, "x", name="sub")
    if kind == "part":
        return Part(ctx.int(tag, -1000, 1000), None, name="sub")
    if kind == "box":
        return Box(Leaf(ctx.int(tag, -1000, 1000), 0., "", name="in"), name="sub")
    return Part(1, Part(ctx.int(tag, -1000, 1000), None, name="in"), name="sub")


@harness("C02", bounds="3 places, two of them among 8 forms, 2 pooled instances of 4 kinds, symbolic data", shards=8)
def shared_places(ctx):
    """ One instance reachable from several places comes back as one instance; different data never merge. """
    kind = ctx.choice("kind", ["leaf", "part", "box", "nested"])
    pool = [make_shared(ctx, kind, "a"), make_shared(ctx, kind, "b")]
    names = list(PLACES)
    p0 = ctx.choice("place0", names)
    p1 = ctx.choice("place1", names)
    which = [0, ctx.select("which1", 2), ctx.select("which2", 2)]
    third = ctx.choice("place2", ["direct"] if ctx.tier == "quick" else ["direct", "list", "owned"])
    places = [PLACES[p0], PLACES[p1], PLACES[third]]
    obj = Pair(places[0].wrap(pool[which[0]]),
               Box([places[1].wrap(pool[which[1]]), places[2].wrap(pool[which[2]])], name="inner"), name="top")

    def read(root):
        return [places[0].read(root.first), places[1].read(root.second.content[0]),
                places[2].read(root.second.content[1])]
    found, back = pass_through(ctx, obj)
    before, after = read(obj), read(back)
    for i in range(3):
        ctx.check(ctx.same(before[i], after[i]), f"the data of place {i} is preserved")
        for j in range(i):
            if which[i] == which[j]:
                ctx.check(after[i] is after[j], "one instance stays one instance")
                ctx.check(len(found) > 0, "sharing is expressed by pointers")
            else:
                same = ctx.same(before[i], before[j])
                ctx.check(ctx.implies(ctx.not_(same), after[i] is not after[j]), "different data are never merged")


LAYOUTS = {
    "attributes": (lambda x, y: Pair(x, y, name="top"), lambda o: (o.first, o.second)),
    "list": (lambda x, y: Part(1, [x, y], name="top"), lambda o: (o.content[0], o.content[1])),
    "dict": (lambda x, y: Box({"a": x, "b": y}, name="top"), lambda o: (o.content["a"], o.content["b"])),
    "tuple": (lambda x, y: Box((1, x, y), name="top"), lambda o: (o.content[1], o.content[2])),
    "apart": (lambda x, y: Pair([[x]], {"z": Box(y, name="in")}, name="top"),
              lambda o: (o.first[0][0], o.second["z"].content)),
}


@harness("C02", bounds="2 places among 8 forms in 5 layouts, one shared instance of 4 kinds, symbolic data", shards=8)
def siblings(ctx):
    """ One instance at two places of one container, whatever holds it there. """
    kind = ctx.choice("kind", ["leaf", "part", "box", "nested"])
    build, parts = LAYOUTS[ctx.choice("layout", list(LAYOUTS))]
    shared = make_shared(ctx, kind, "a")
    one, two = PLACES[ctx.choice("place0", list(PLACES))], PLACES[ctx.choice("place1", list(PLACES))]
    obj = build(one.wrap(shared), two.wrap(shared))
    _, back = pass_through(ctx, obj)
    x, y = parts(back)
    ctx.check(one.read(x) is two.read(y), "one instance stays one instance")
    ctx.check(ctx.all_([ctx.same(one.read(x), shared), ctx.same(back, obj)]), "with its data")


@harness("C02", bounds="chains of pointers of depth 3; symbolic data", shards=4)
def pointer_chains(ctx):
    """ Shared objects that themselves hold shared objects. """
    bottom = Part(ctx.int("bottom", -1000, 1000), None, name="bottom")
    k1, k2 = ctx.choice("k1", ["part", "owned", "list"]), ctx.choice("k2", ["part", "owned"])

    def wrap(kind, sub, tag):
        if kind == "part":
            return Part(ctx.int(tag, -1000, 1000), sub, name=tag)
        if kind == "owned":
            return Pair(ctx.int(tag, -1000, 1000), sub, name=tag)
        return Part(ctx.int(tag, -1000, 1000), [sub, sub], name=tag)
    middle = wrap(k1, bottom, "middle")
    upper = wrap(k2, middle, "upper")
    order = ctx.choice("order", ["up", "down"])
    items = [bottom, middle, upper] if order == "up" else [upper, middle, bottom]
    obj = Pair(items, {"u": upper, "b": bottom}, name="top")
    found, back = pass_through(ctx, obj)
    got = back.first if order == "up" else back.first[::-1]
    b, m, u = got

    def below(x):
        return x.content if isinstance(x, Part) else x.second
    ctx.check(below(u) is m, "upper holds the shared middle")
    inner = below(m)
    if isinstance(inner, list):
        ctx.check(inner[0] is b and inner[1] is b, "middle holds the shared bottom twice")
    else:
        ctx.check(inner is b, "middle holds the shared bottom")
    ctx.check(back.second["u"] is u and back.second["b"] is b, "the dictionary holds the same instances")
    ctx.check(ctx.same(obj, back), "same data")
    ctx.check(bool(back == obj), "equal")


@harness("C02", bounds="list of 3 (quick) / 4 (thorough) objects with symbolic data, kinds owned or standalone",
         shards=6)
def merging(ctx):
    """ In a list, rebuilt objects hold the right data whatever the pattern of equal data. """
    n = ctx.bound(3, 4)
    kinds = [ctx.choice(f"k{i}", ["leaf", "part"]) for i in range(n)]
    items = [Leaf(ctx.int(f"v{i}", -1000, 1000), 0.5, "x", name="s") if k == "leaf" else Part(ctx.int(f"v{i}", -1000, 1000), None, name="s")
             for i, k in enumerate(kinds)]
    if ctx.flag("deep"):
        obj = Box([Box(x, name="b") for x in items], name="top")
        found, back = pass_through(ctx, obj)
        got = [x.content for x in back.content]
    else:
        obj = Box(items, name="top")
        found, back = pass_through(ctx, obj)
        got = back.content
    ctx.check(len(got) == n, "all objects are back")
    for i in range(n):
        ctx.check(ctx.same(items[i], got[i]), "each with its own data")
        for j in range(i):
            ctx.check(ctx.implies(ctx.not_(ctx.same(items[i], items[j])), got[i] is not got[j]),
                      "different data are never merged")


@harness("C02", bounds="two or three keys/attributes, one shared standalone object, keys among 4")
def keys(ctx):
    """ Sharing under dictionary keys that look like attributes or indices. """
    shared = Part(ctx.int("v"), None, name="s")
    k1, k2 = ctx.choice("k1", ["a", "first", "0", "content"]), ctx.choice("k2", ["a", "second", "0", "value"])
    obj = Pair({k1: shared}, {k2: {"z": shared}}, name="top")
    found, back = pass_through(ctx, obj)
    ctx.check(back.first[k1] is back.second[k2]["z"], "one instance")
    ctx.check(ctx.same(back, obj), "same data")


@harness("C02", bounds="two sub-objects; names differ")
def names_kept(ctx):
    """ Two sub-objects whose data differ keep their own name. """
    v, w = ctx.int("v"), ctx.int("w")
    obj = Pair(Part(v, None, name="one"), Part(w, None, name="two"), name="top")
    _, back = pass_through(ctx, obj)
    ctx.check(ctx.implies(ctx.not_(ctx.eq(v, w)), back.first.name == "one" and back.second.name == "two"),
              "objects with different data keep their names")


@harness("C02", shards=2, bounds="11 or 12 shared standalone or owned objects, one of any value, listed in another order or under other keys elsewhere")
def wide(ctx):
    """ More than ten shared objects. """
    n = ctx.choice("n", [11, 12])
    at = ctx.choice("at", [1, 9, 10])
    kind = ctx.choice("kind", ["leaf", "part"])
    items = [Part(v, None, name=f"p{i}") if kind == "part" else Leaf(v, 0.5, "x", name=f"p{i}")
             for i, v in enumerate([ctx.int("v", -1000, 1000) if i == at else 2000 + i for i in range(n)])]
    order = [(5 * i + 2) % n for i in range(n)]
    obj = Pair(items, {str(i): [items[j]] for i, j in enumerate(order)} if ctx.flag("dict") else [[items[j]] for j in order],
               name="top")
    _, back = pass_through(ctx, obj)
    for i, j in enumerate(order):
        there = back.second[str(i)] if isinstance(back.second, dict) else back.second[i]
        ctx.check(there[0] is back.first[j], "one instance stays one instance")
        ctx.check(ctx.same(back.first[j], items[j]), "with its data")


@harness("C02", bounds="one shared object, standalone or owned, in 2 of 6 places whose names look like markers", shards=2)
def marker_names(ctx):
    """ Attributes and keys that look like the markers of pointers. """
    kind = ctx.choice("kind", [Part, Leaf])
    shared = kind(ctx.int("value"))
    places = [ctx.choice(f"place{i}", ["references", "in references", "key", "class", "first", "number"]) for i in range(2)]

    def held(place):
        if place == "references":
            return Derived(1, 2, shared)
        if place == "in references":
            return Derived(1, 2, [3, shared])
        return {{"key": "_references", "class": "object_classes", "first": "#", "number": "0"}[place]: shared}

    def inside(place, value):
        if place == "references":
            return value.part_references
        if place == "in references":
            return value.part_references[1]
        return list(value.values())[0]
    obj = Pair(held(places[0]), [held(places[1])], name="top")
    dict_, back = pass_through(ctx, obj)
    one, two = inside(places[0], back.first), inside(places[1], back.second[0])
    ctx.check(one is two, "one object stays one")
    ctx.check(one.__class__ is kind and bool(ctx.eq(one.value, shared.value)), "the same data")
