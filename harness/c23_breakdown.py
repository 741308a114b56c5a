""" C23: breakdowns. """
from dessia_common.breakdown import breakdown, breakdown_analysis, object_breakdown
from dessia_common.core import DessiaObject
from symex.ctx import harness


class Leaf(DessiaObject):
    """ Carries a value. """
    _standalone_in_db = True

    def __init__(self, value: int = 0, name: str = ""):
        self.value = value
        super().__init__(name=name)


class Twin(DessiaObject):
    """ Another class with the same data. """

    def __init__(self, value: int = 0, name: str = ""):
        self.value = value
        super().__init__(name=name)


class Box(DessiaObject):
    """ Holds things. """

    def __init__(self, first=None, second=None, name: str = ""):
        self.first = first
        self.second = second
        super().__init__(name=name)


class Plain:
    """ Not an object of the library. """

    def __init__(self, content):
        self.content = content


class Root(DessiaObject):
    """ What is broken down. """

    def __init__(self, one=None, two=None, three=None, name: str = ""):
        self.one = one
        self.two = two
        self.three = three
        self._hidden = Leaf(-1)
        super().__init__(name=name)


def pool(ctx, n):
    leaves = [Leaf(ctx.int(f"leaf{i}", 0, 50)) for i in range(n)]
    return leaves + [Twin(ctx.int("twin", 0, 50))]


def content(ctx, name, leaves, depth, kinds=None):
    kind = ctx.choice(name, kinds or ["leaf", "nothing", "list", "tuple", "dict", "box", "plain"]) if depth else "leaf"
    if kind == "leaf":
        return leaves[ctx.length(name + ".leaf", 0, len(leaves) - 1)]
    if kind == "nothing":
        return None if depth == 1 else ctx.choice(name + ".value", [None, 3, "text", 1.5])
    subs = [content(ctx, f"{name}.{i}", leaves, depth - 1) for i in range(1 if kind == "plain" else ctx.length(name + ".n", 0, 2))]
    if kind == "list":
        return subs
    if kind == "tuple":
        return tuple(subs)
    if kind == "dict":
        return {["key", 7][i]: s for i, s in enumerate(subs)}
    if kind == "box":
        return Box(*subs)
    return Plain(*subs)


def children(obj):
    if isinstance(obj, (list, tuple)):
        return [(str(i), x) for i, x in enumerate(obj)]
    if isinstance(obj, dict):
        return [(str(k), x) for k, x in obj.items()]
    if isinstance(obj, Root):
        return [("one", obj.one), ("two", obj.two), ("three", obj.three)]
    if isinstance(obj, Box):
        return [("first", obj.first), ("second", obj.second)]
    if isinstance(obj, Plain):
        return [("content", obj.content)]
    return []


def walk(obj, path=()):
    """ Every sub-object with its paths. """
    for key, sub in children(obj):
        if isinstance(sub, (Leaf, Twin, Box, Plain)):
            yield path + (key,), sub
        yield from walk(sub, path + (key,))


def follow(obj, path):
    for key in path:
        for other, sub in children(obj):
            if other == key:
                obj = sub
                break
        else:
            return None
    return obj


def alike(ctx, a, b):
    """ The same sub-object, or one that compares equal. """
    if a is b:
        return True
    if a.__class__ is not b.__class__ or isinstance(a, Plain):
        return False
    return ctx.same(a, b)


def examine(ctx, root, found):
    subs = list(walk(root))
    for class_name in {s.__class__.__name__ for _, s in subs}:
        ctx.check(class_name in found, "every class of sub-object is listed")
    for class_name, refs in found.items():
        listed = list(refs.items())
        paths = []
        for obj, text in listed:
            path = tuple(text.split("."))
            ctx.check(obj.__class__.__name__ == class_name, "sub-objects are listed under their class")
            there = follow(root, path)
            ctx.check(there is not None, "the path leads somewhere", text)
            ctx.check(alike(ctx, there, obj), "the path leads to the sub-object", text)
            ctx.check(ctx.all_([ctx.implies(alike(ctx, sub, obj), len(where) >= len(path)) for where, sub in subs]),
                      "no path to the sub-object is shorter", text)
            paths.append(path)
        for i, (obj, _) in enumerate(listed):
            for other, _ in listed[:i]:
                ctx.check(ctx.not_(alike(ctx, obj, other)), "each sub-object is listed once")
        for where, sub in subs:
            if sub.__class__.__name__ == class_name:
                ctx.check(ctx.any_([alike(ctx, sub, obj) for obj, _ in listed]), "every sub-object is listed", where)
    ctx.check(all(any(s.__class__.__name__ == c for _, s in subs) for c in found), "nothing else is listed")
    return subs


@harness("C23", bounds="three attributes: leaves (3 of 2 classes, any values), base values, lists, tuples, dictionaries, objects of the "
                       "library or not, of 0..2 elements; any sharing", shards=8)
def places(ctx):
    """ Containers at the first level. """
    leaves = pool(ctx, 2)
    root = Root(content(ctx, "one", leaves, 1), content(ctx, "two", leaves, 1, ["leaf", "list", "box"]),
                leaves[0] if ctx.flag("three") else None)
    examine(ctx, root, breakdown(root))


@harness("C23", bounds="one attribute 2 (quick) / 3 (thorough) levels deep and one leaf", shards=8)
def deep(ctx):
    """ Containers in containers. """
    leaves = pool(ctx, 1)
    kinds = ["list", "tuple", "dict", "box", "plain"]
    kind = ctx.choice("order", ["before", "after"])
    nested = content(ctx, "nested", leaves, 2, kinds)
    if ctx.tier == "thorough" and ctx.flag("deeper"):
        nested = [nested] if ctx.flag("in list") else Box(nested, leaves[1])
    root = Root(*([leaves[0], nested] if kind == "before" else [nested, None, [leaves[0]]]))
    examine(ctx, root, breakdown(root))


@harness("C23", bounds="three attributes: lists or objects of 0..2 of 3 leaves of any value", shards=4)
def analysis(ctx):
    """ The analysis counts the sub-objects of each class. """
    leaves = pool(ctx, 2)
    root = Root(content(ctx, "one", leaves, 1, ["list", "box"]), content(ctx, "two", leaves, 1, ["leaf", "list", "box"]))
    found = object_breakdown(root)
    examine(ctx, root, found)
    counts = breakdown_analysis(root)["subobjects_number_by_class"]
    ctx.check({k: len(v) for k, v in found.items()} == dict(counts), "as many sub-objects of each class as listed")


@harness("C23", bounds="11 leaves, one of any value, in a list or dictionary; two of them the same or not")
def wide(ctx):
    """ More than ten elements. """
    leaves = [Leaf(ctx.int(f"leaf{i}", 100 + i, 100 + i)) for i in range(11)]
    leaves[ctx.choice("any", [2, 10])] = Leaf(ctx.int("two", 99, 111))
    again = ctx.choice("again", [None, (3, 1), (10, 9)])
    if again:
        leaves[again[0]] = leaves[again[1]]
    kind = ctx.choice("kind", ["list", "dict"])
    root = Root(leaves if kind == "list" else {f"k{i}": s for i, s in enumerate(leaves)})
    examine(ctx, root, breakdown(root))
