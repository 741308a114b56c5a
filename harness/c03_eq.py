""" C03: equality and hash of objects. """
import inspect

from dessia_common.core import DessiaFilter
from dessia_common.typings import AttributeType, ClassMethodType, MethodType
from dessia_common.workflow import blocks as wb
from dessia_common.workflow.core import Variable, Workflow
from symex.ctx import harness
from harness.flows import Flow, Op, start
from harness.models import Box, OtherBox, Pair, Leaf, Part, Selective, Strict, gen, LETTERS
from harness.twins import twin
from harness.stdblocks import Tool


def data_attributes(obj):
    """ The attributes compared, for the classes of the harness. """
    if isinstance(obj, Leaf):
        return ["value", "weight", "label"]
    if obj.__class__.__module__ == "harness.twins" or isinstance(obj, Part):
        return [k for k in inspect.signature(obj.__class__).parameters if k != "name"]
    return ["content"]


def oracle(ctx, a, b):
    """ (certainly equal, certainly different): data equality as documented, up to the float tolerance band. """
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False, True
        pairs = [oracle(ctx, x, y) for x, y in zip(a, b)]
        return ctx.all_([p[0] for p in pairs]), ctx.any_([p[1] for p in pairs])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b) or any(k not in b for k in a):
            return False, True
        pairs = [oracle(ctx, a[k], b[k]) for k in a]
        return ctx.all_([p[0] for p in pairs]), ctx.any_([p[1] for p in pairs])
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        same = ctx.eq(a, b)
        return same, ctx.not_(same)
    if isinstance(a, float) and isinstance(b, float):
        gap = abs(a - b)
        return ctx.eq(a, b), gap > 1e-5 * (1 + abs(a) + abs(b))
    if a.__class__ is not b.__class__:
        return False, True
    if isinstance(a, (str, type(None))):
        same = ctx.eq(a, b)
        return same, ctx.not_(same)
    pairs = [oracle(ctx, getattr(a, k), getattr(b, k)) for k in data_attributes(a)]
    return ctx.all_([p[0] for p in pairs]), ctx.any_([p[1] for p in pairs])


def laws(ctx, x, y):
    """ The laws of == and hash on two objects, against the oracle. """
    equal, different = oracle(ctx, x, y)
    r1 = bool(x == y)
    r2 = bool(y == x)
    ctx.check(r1 == r2, "symmetric")
    ctx.check(bool(x != y) != r1, "!= is the negation of ==")
    ctx.check(ctx.implies(equal, r1), "same data compares equal")
    ctx.check(ctx.implies(different, not r1), "different data compares different")
    hx, hy = hash(x), hash(y)
    ctx.check(ctx.implies(r1, ctx.eq(hx, hy)), "equal objects have equal hashes")
    ctx.check(ctx.implies(equal, ctx.eq(hx, hy)), "same data has the same hash")


@harness("C03", bounds="content: int, bool, str of length <= 2, None, or list/tuple/dict of <= 2 of these, on each side", shards=8)
def scalars_and_containers(ctx):
    """ Two objects with arbitrary independent contents. """
    kinds = ["int", "bool", "str2", "none", "list", "tuple", "dict"]
    sub = ["int", "str"] if ctx.tier == "quick" else ["int", "str", "none"]
    a = gen(ctx, "a", kinds, sub=sub)
    b = gen(ctx, "b", kinds, sub=sub)
    laws(ctx, Box(a, name="n1"), Box(b, name="n2"))


@harness("C03", bounds="float contents on both sides, alone or in lists of <= 2; tolerance band excluded", shards=2)
def floats(ctx):
    """ Float data: identical values are equal, values apart by more than the tolerance are not. """
    a = gen(ctx, "a", ["real", "list", "int"], sub=["real"])
    b = gen(ctx, "b", ["real", "list"], sub=["real"])
    laws(ctx, Box(a, name="n1"), Box(b, name="n2"))


@harness("C03", bounds="two levels: lists/dicts (<= 2) of sub-objects with an int, a float and a str", shards=4)
def nested_objects(ctx):
    """ Data equality goes through sub-objects, wherever they are. """
    a = gen(ctx, "a", ["box", "list", "dict", "ileaf"], sub=["ileaf"])
    b = gen(ctx, "b", ["box", "list", "dict", "ileaf"], sub=["ileaf"])
    if isinstance(a, Box):
        a = Box([ctx.int("a.c0"), ctx.int("a.c1")])
    if isinstance(b, Box):
        b = Box([ctx.int("b.c0"), ctx.int("b.c1")])
    laws(ctx, Box(a, name="n1"), Box(b, name="n2"))


@harness("C03", bounds="one object of each kind against ints, strings, lists, dicts, None and other classes")
def against_other_values(ctx):
    """ Comparison with anything answers a bool, and only same-class objects with the same data are equal. """
    value = ctx.int("v")
    box = Box(value)
    kind = ctx.choice("other", ["int", "str", "list", "dict", "none", "set", "other class", "strict", "type"])
    other = {"int": ctx.int("o"), "str": "s", "list": [ctx.int("l")], "dict": {"content": ctx.int("d")},
             "none": None, "set": set(), "other class": OtherBox(value), "strict": Strict(value), "type": Box}[kind]
    ctx.check(not bool(box == other), "an object differs from " + kind)
    ctx.check(bool(box != other), "!= against " + kind)
    ctx.check(not bool(other == box), "reflected comparison with " + kind)


@harness("C03", bounds="all attribute values symbolic ints/strs of length 1")
def excluded_attributes(ctx):
    """ The name and the attributes a class excludes never decide equality; all the others do. """
    v1, v2 = ctx.int("v1"), ctx.int("v2")
    s1, s2 = ctx.int("s1"), ctx.int("s2")
    x = Selective(v1, s1, ctx.str("c1", 1, LETTERS), name=ctx.str("n1", 1, LETTERS))
    y = Selective(v2, s2, ctx.str("c2", 1, LETTERS), name=ctx.str("n2", 1, LETTERS))
    x.cache = ctx.int("k1")
    y.cache = ctx.int("k2")
    x._private = ctx.int("p1")
    same = ctx.all_([ctx.eq(v1, v2), ctx.eq(s1, s2)])
    res = bool(x == y)
    ctx.check(ctx.iff(same, res), "exactly the data attributes decide equality")
    ctx.check(bool(y == x) == res, "symmetric")
    ctx.check(ctx.implies(same, ctx.eq(hash(x), hash(y))), "excluded attributes do not enter the hash")
    z = Selective(v1, s2, "c", name="z")
    ctx.check(ctx.eq(hash(x), hash(z)), "attributes excluded from the hash only do not enter it")
    ctx.check(ctx.iff(ctx.eq(s1, s2), bool(x == z)), "attributes excluded from the hash only still decide equality")


@harness("C03", bounds="two attributes, all symbolic; three objects")
def attributes_and_transitivity(ctx):
    """ Every attribute counts, and equality of int/str data is an equivalence. """
    xs = [Pair(ctx.int(f"f{i}"), ctx.int(f"s{i}"), name=ctx.str(f"n{i}", 1, LETTERS)) for i in range(3)]
    x, y, z = xs
    exy, eyz, exz = bool(x == y), bool(y == z), bool(x == z)
    ctx.check(ctx.iff(ctx.all_([ctx.eq(x.first, y.first), ctx.eq(x.second, y.second)]), exy), "both attributes count")
    ctx.check(not (exy and eyz) or exz, "transitive")
    ctx.check(bool(x == x), "reflexive")
    ctx.check(ctx.eq(hash(x), hash(x)), "hash is stable")
    x.first = ctx.int("new")
    ctx.check(ctx.iff(ctx.all_([ctx.eq(x.first, y.first), ctx.eq(x.second, y.second)]), bool(x == y)),
              "equality follows the current data")


@harness("C03", bounds="symbolic ints; identity-equality class")
def identity_class(ctx):
    """ Classes that opt for identity compare by identity. """
    v, w = ctx.int("v"), ctx.int("w")
    x, y = Strict(v), Strict(w)
    ctx.check(bool(x == x), "an object equals itself")
    ctx.check(not bool(x == y), "two objects differ whatever their data")
    ctx.check(bool(x != y), "!=")
    ctx.check(hash(x) == hash(x), "hash is stable")


@harness("C03", bounds="attributes holding classes: int, str, Box, Leaf")
def class_values(ctx):
    """ Attributes whose values are classes compare by class. """
    classes = [int, str, Box, Leaf]
    i, j = ctx.length("i", 0, 3), ctx.length("j", 0, 3)
    v, w = ctx.int("v"), ctx.int("w")
    x, y = Pair(classes[i], v), Pair(classes[j], w)
    res = bool(x._data_eq(y))
    ctx.check(ctx.iff(ctx.all_([i == j, ctx.eq(v, w)]), res), "class-valued attributes count")


SETTINGS = {"instantiate": [lambda: wb.InstantiateModel(Tool), lambda: wb.InstantiateModel(Pair),
                            lambda: wb.InstantiateModel(Leaf)],
            "class method": [lambda: wb.ClassMethod(ClassMethodType(Tool, "made")),
                             lambda: wb.ClassMethod(ClassMethodType(Tool, "mixed"))],
            "method": [lambda: wb.ModelMethod(MethodType(Tool, "scaled")), lambda: wb.ModelMethod(MethodType(Tool, "moved"))],
            "sequence": [lambda: wb.Sequence(1), lambda: wb.Sequence(2), lambda: wb.Product(2), lambda: wb.Concatenate(2)],
            "unpacker": [lambda: wb.Unpacker([0, 1]), lambda: wb.Unpacker([1, 0]), lambda: wb.Unpacker([0]),
                         lambda: wb.Flatten()],
            "attribute": [lambda: wb.ModelAttribute("x"), lambda: wb.ModelAttribute("y"),
                          lambda: wb.GetModelAttribute(AttributeType(Tool, "x")),
                          lambda: wb.GetModelAttribute(AttributeType(Tool, "y")),
                          lambda: wb.SetModelAttribute(AttributeType(Tool, "x")),
                          lambda: wb.SetModelAttribute(AttributeType(Tool, "y")),
                          lambda: wb.ModelMethod(MethodType(Tool, "m"))],
            "sum": [lambda: wb.Sum(2), lambda: wb.Sum(3)],
            "strings": [lambda: wb.ConcatenateStrings(2, ""), lambda: wb.ConcatenateStrings(2, "-"),
                        lambda: wb.ConcatenateStrings(3, "")]}


@harness("C03", bounds="pairs of workflows of one block, over 8 groups of block settings; a lock on either", shards=4)
def workflows(ctx):
    """ Workflows compare equal exactly when their blocks are set alike. """
    start(ctx)
    group = SETTINGS[ctx.choice("group", list(SETTINGS))]
    i, j = ctx.length("i", 0, len(group) - 1), ctx.length("j", 0, len(group) - 1)
    locks = [ctx.flag("lock i"), ctx.flag("lock j")]
    sides = []
    for k, lock in zip((i, j), locks):
        block = group[k]()
        if lock:
            block.inputs[-1].lock(None)
        sides.append(Workflow([block], [], block.outputs[0]))
    res = sides[0] == sides[1]
    ctx.check(isinstance(res, bool) and res == (sides[1] == sides[0]), "a boolean, symmetric")
    ctx.check(res == (i == j and locks[0] == locks[1]), "equal exactly when set alike")
    ctx.check(not res or bool(ctx.eq(hash(sides[0]), hash(sides[1]))), "equal workflows hash alike")


@harness("C03", bounds="filters on 2 attributes, 3 operators, any bounds", shards=2)
def filters(ctx):
    """ Filters, alone and in a workflow. """
    start(ctx)
    sides = []
    for tag in "ij":
        attribute, op = ctx.choice(f"attribute {tag}", ["a", "b"]), ctx.choice(f"op {tag}", ["<", ">", "=="])
        logical, bound = ctx.choice(f"logical {tag}", ["and", "or"]), ctx.int(f"bound {tag}")
        block = wb.Filter([DessiaFilter(attribute, op, bound)], logical)
        sides.append((attribute, op, logical, bound, Workflow([block], [], block.outputs[0])))
    (a, o, l, b, x), (c, p, m, d, y) = sides
    same = ctx.all_([a == c, o == p, ctx.eq(b, d)])
    f, g = x.blocks[0].filters[0], y.blocks[0].filters[0]
    res = bool(f == g)
    ctx.check(ctx.iff(same, res), "filters are equal exactly when they filter alike")
    ctx.check(not res or bool(ctx.eq(hash(f), hash(g))), "equal filters hash alike")
    ctx.check(not bool(f == 1) and not bool(f == "a") and not bool(f == Leaf()), "a filter differs from anything else")
    res = bool(x == y)
    ctx.check(ctx.iff(ctx.all_([same, l == m]), res), "so do the workflows that use them")


@harness("C03", bounds="pairs of wirings of 2 blocks and one non-block variable, either output", shards=4)
def wirings(ctx):
    """ Workflows of the same blocks compare equal exactly when they are wired alike. """
    start(ctx)
    sides = []
    for tag in "ij":
        feeds = [ctx.choice(f"{tag}{k}", [None, ("nbv", 0), ("out", 0, 0), ("out", 0, 1)]) for k in range(2)]
        output = ctx.choice(f"output {tag}", [(1, 0), (1, 1)])
        nbv = Variable(type_=int, name="in0")
        sides.append((feeds, output, Flow([Op("f", 1, 2), Op("g", 2, 2)], [[None], feeds], [nbv], output).workflow))
    (feeds, output, x), (others, target, y) = sides
    res = x == y
    ctx.check(isinstance(res, bool) and res == (y == x), "a boolean, symmetric")
    ctx.check(res == (feeds == others and output == target), "equal exactly when wired alike")
    ctx.check(not res or bool(ctx.eq(hash(x), hash(y))), "equal workflows hash alike")


@harness("C03", bounds="two objects of 8 classes: namesakes, keyword-only attributes, sub-classes; any values", shards=4)
def namesakes(ctx):
    """ Classes of the same name in different modules, and classes that look alike. """
    x, y = twin(ctx, "one"), twin(ctx, "two")
    if ctx.flag("held"):
        x, y = Box([x]), Box([y])
    laws(ctx, x, y)
