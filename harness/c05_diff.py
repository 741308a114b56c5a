""" C05: a diff is empty exactly when the data are equal, and says where they differ. """
from dessia_common.core import DessiaObject, data_eq
from dessia_common.utils.diff import diff
from symex.ctx import harness
from harness.c03_eq import data_attributes, oracle
from harness.models import Box, Leaf, OtherBox, Pair, Selective, LETTERS, gen
from harness.twins import twin


class SubBox(Box):
    """ Subclass with the same attributes. """


def walk(a, b, path, leaves, missing):
    """ Positions at which the comparison of two values ends, and keys present on one side only. """
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            leaves.append((path, a, b))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                walk(x, y, f"{path}/{i}", leaves, missing)
    elif isinstance(a, dict) and isinstance(b, dict):
        for key in a:
            if key in b:
                walk(a[key], b[key], f"{path}/{key}", leaves, missing)
            else:
                missing.append((f"{path}/{key}", False))
        for key in b:
            if key not in a:
                missing.append((f"{path}/{key}", True))
    elif isinstance(a, DessiaObject) and a.__class__ is b.__class__:
        for key in data_attributes(a):
            walk(getattr(a, key), getattr(b, key), f"{path}/{key}", leaves, missing)
    else:
        leaves.append((path, a, b))


def laws(ctx, a, b):
    """ The clauses of the property on two values. """
    result = diff(a, b)
    leaves, missing = [], []
    walk(a, b, "#", leaves, missing)
    where = {path: (x, y) for path, x, y in leaves}
    reported = [(d.path, d.value1, d.value2) for d in result.different_values + result.invalid_types]
    paths = [p for p, _, _ in reported]
    ctx.check(len(set(paths)) == len(paths), "each difference is reported once")
    for path, v1, v2 in reported:
        ctx.check(path in where, "a reported path names a place where the comparison ends", str(path))
        x, y = where[path]
        ctx.check(ctx.all_([ctx.same(v1, x, loose_seq=False), ctx.same(v2, y, loose_seq=False)]),
                  "the two values are the ones at that path, in the order given")
    for path, x, y in leaves:
        equal, different = oracle(ctx, x, y)
        ctx.check(ctx.implies(different, path in paths), "every difference is reported")
        ctx.check(ctx.implies(equal, path not in paths), "equal values are not reported")
    got = [(m.path, bool(m.missing_in_first_object)) for m in result.missing_attributes]
    ctx.check(sorted(got) == sorted(missing), "missing keys are reported on the right side", str(got))
    ctx.check(bool(result.is_empty()) == (not reported and not got), "is_empty tells whether something is reported")
    ctx.check(bool(data_eq(a, b)) == bool(result.is_empty()), "empty exactly when data_eq holds")


@harness("C05", bounds="int, bool, str (1 letter), None, list/tuple/dict of <= 2 scalars on each side", shards=8)
def plain_values(ctx):
    """ Plain values and containers. """
    kinds = ["int", "bool", "str", "none", "list", "tuple", "dict"]
    sub = ["int", "str"] if ctx.tier == "quick" else ["int", "str", "none"]
    laws(ctx, gen(ctx, "a", kinds, sub=sub), gen(ctx, "b", kinds, sub=sub))


@harness("C05", bounds="floats alone or in lists/dicts of <= 2; tolerance band excluded", shards=2)
def floats(ctx):
    """ Float data. """
    laws(ctx, gen(ctx, "a", ["real", "list", "dict"], sub=["real"]), gen(ctx, "b", ["real", "list", "dict"], sub=["real"]))


@harness("C05", bounds="dicts of 0..2 (quick) / 0..3 (thorough) keys among 4 on each side, int values", shards=4)
def dictionaries(ctx):
    """ Every pattern of shared and one-sided keys. """
    keys = ["a", "b", "c", "d"]

    def make(tag):
        res = {}
        for i in range(ctx.length(tag + ".n", 0, ctx.bound(2, 3))):
            res[ctx.choice(f"{tag}.k{i}", keys)] = ctx.int(f"{tag}.v{i}")
        return res
    a, b = make("a"), make("b")
    if ctx.flag("nested"):
        a, b = {"x": a, "y": 1}, {"x": b, "y": ctx.int("y")}
    laws(ctx, a, b)


@harness("C05", bounds="objects with symbolic ints/strs/floats, alone, or <= 2 in lists/dicts/objects", shards=6)
def objects(ctx):
    """ Objects and containers of objects. """
    a = gen(ctx, "a", ["leaf", "list", "dict", "box"], sub=["ileaf"])
    b = gen(ctx, "b", ["leaf", "list", "dict", "box"], sub=["ileaf"])
    laws(ctx, a, b)


@harness("C05", bounds="objects holding dicts of <= 2 keys, symbolic ints", shards=2)
def objects_with_dictionaries(ctx):
    """ Missing keys under attributes. """
    def make(tag):
        res = {}
        for i in range(ctx.length(tag + ".n", 0, 2)):
            res[ctx.choice(f"{tag}.k{i}", ["a", "b", "c"])] = ctx.int(f"{tag}.v{i}")
        return Box(res, name=tag)
    laws(ctx, make("a"), make("b"))


@harness("C05", bounds="same attributes under different classes (unrelated, sub-class); excluded attributes")
def classes_and_exclusions(ctx):
    """ A diff sees classes, and ignores what equality ignores. """
    v, w = ctx.int("v"), ctx.int("w")
    cls1 = ctx.choice("c1", [Box, OtherBox, SubBox])
    cls2 = ctx.choice("c2", [Box, OtherBox, SubBox])
    x, y = cls1(v, name="a"), cls2(w, name="b")
    ctx.check(ctx.iff(ctx.all_([cls1 is cls2, ctx.eq(v, w)]), bool(diff(x, y).is_empty())),
              "empty exactly for the same class and data")
    s = Selective(v, 1, "c1", name="n1")
    t = Selective(w, 1, "c2", name="n2")
    s.cache = 1
    result = diff(s, t)
    ctx.check(ctx.iff(ctx.eq(v, w), bool(result.is_empty())), "excluded attributes are not reported")
    ctx.check(ctx.implies(ctx.not_(ctx.eq(v, w)), [d.path for d in result.different_values] == ["#/value"]),
              "the data attribute is reported")
    ctx.check(not result.missing_attributes, "no attribute is missing")
    method = s._data_diff(t)
    ctx.check(bool(method.is_empty()) == bool(result.is_empty()), "_data_diff agrees with diff")


@harness("C05", bounds="attributes holding classes")
def class_values(ctx):
    """ Class-valued attributes. """
    classes = [int, str, Box, Leaf]
    i, j = ctx.length("i", 0, 3), ctx.length("j", 0, 3)
    result = diff(Pair(classes[i], 1), Pair(classes[j], 1))
    ctx.check(bool(result.is_empty()) == (i == j), "empty exactly for the same class")


@harness("C05", shards=2, bounds="lists, tuples or dictionaries of 12 integers or objects, two of them of any value on each side")
def wide(ctx):
    """ Differences at places beyond the tenth. """
    places = ctx.choice("places", [(1, 10), (0, 11), (9, 10)])
    kind = ctx.choice("kind", ["list", "tuple", "dict", "objects"])

    def side(tag):
        values = [ctx.int(f"{tag}{i}") if i in places else i for i in range(12)]
        if kind == "objects":
            return Box([Leaf(v, 0.5, "x") for v in values])
        return {"list": list, "tuple": tuple, "dict": lambda v: {str(i): x for i, x in enumerate(v)}}[kind](values)
    laws(ctx, side("a"), side("b"))


@harness("C05", bounds="two objects of 8 classes: namesakes, keyword-only attributes, sub-classes; any values", shards=4)
def namesakes(ctx):
    """ Classes of the same name in different modules, and classes that look alike. """
    laws(ctx, Box([twin(ctx, "one")]), Box([twin(ctx, "two")]))
