""" C06: paths address exactly the part of the object they name. """
from dessia_common.utils.helpers import get_in_object_from_path, set_in_object_from_path
from symex.ctx import harness
from harness.c01_serialization import snapshot
from harness.models import Box, Leaf, Pair, Part, LETTERS

PREFIXES = ["#/", "/", ""]


def children(value):
    """ [(segment, child)] of a value. """
    if isinstance(value, (list, tuple)):
        return [(str(i), x) for i, x in enumerate(value)]
    if isinstance(value, dict):
        return [(str(k), x) for k, x in value.items()]
    if hasattr(value, "__dict__"):
        return [(k, x) for k, x in value.__dict__.items() if k != "name"]
    return []


def build(ctx):
    """ A structure with every kind of container, and symbolic leaves. """
    i = [ctx.int(f"i{n}") for n in range(8)]
    return Pair([i[0], {"k": i[1], 3: i[2], (1, 2): i[3], "a-b": [i[4]], (1, "z"): None}, Leaf(i[5], 0.5, "l")],
                {"x": Part(i[6], [[i[7], "t"], "u"]), "0": (1, Box({"deep": "v", "10": 7}))}, name="n")


def descend(ctx, root, steps):
    """ A valid path of at most `steps` segments: ([(segment, element)]). """
    trail = []
    current = root
    for n in range(steps):
        options = children(current)
        if not options:
            break
        segment, current = options[ctx.select(f"step{n}", len(options))]
        trail.append((segment, current))
        if n + 1 < steps and not ctx.flag(f"more{n}"):
            break
    return trail


@harness("C06", bounds="paths of 1..5 segments in a structure of lists, tuples, dicts (str/int/tuple keys), objects",
         shards=4)
def reading(ctx):
    """ Reading a valid path gives the very element at that place. """
    root = build(ctx)
    before = snapshot(root)
    trail = descend(ctx, root, 5)
    path = ctx.choice("prefix", PREFIXES) + "/".join(s for s, _ in trail)
    got = get_in_object_from_path(root, path)
    ctx.check(got is trail[-1][1], "the element at that place", path)
    ctx.check(root._get_from_path(path) is trail[-1][1], "also as a method")
    ctx.check(ctx.same(snapshot(root), before), "reading changes nothing")


@harness("C06", bounds="valid paths of 0..4 segments followed by one of 19 wrong ones", shards=4)
def wrong_paths(ctx):
    """ A path that names nothing raises. """
    root = build(ctx)
    trail = descend(ctx, root, 4) if ctx.flag("deep") else []
    current = trail[-1][1] if trail else root
    wrong = ctx.choice("wrong", ["99", "nothing", "(9, 9)", "k2", "valu", "1x", "4", "1, 2", "(1, 2", "1, 2)", "(1)",
                                   "(2, 1)", "(1, 2, 3)", "k, 3", "a", "", "#", "k#", "#k"])
    ctx.assume(wrong not in [s for s, _ in children(current)])
    path = "#/" + "/".join([s for s, _ in trail] + [wrong])
    try:
        got = get_in_object_from_path(root, path)
    except Exception:
        return
    ctx.fail("a path that names nothing raises", f"{path} gave {got!r}")


@harness("C06", bounds="dict of 2 symbolic keys (1..2 chars: a letter, #, digits), at the root or under it; symbolic segment",
         shards=4, realise_cap=12)
def symbolic_keys(ctx):
    """ Any key is found, and only it. """
    chars = ["a#", "01"]
    k1 = ctx.str("k1", ctx.length("n1", 1, 2), chars)
    k2 = ctx.str("k2", ctx.length("n2", 1, 2), chars)
    ctx.assume(ctx.not_(ctx.eq(k1, k2)))
    target = ctx.str("s", ctx.length("ns", 1, 2), chars)
    one, two = [1], [2]
    root = {k1: one, k2: two}
    deep = ctx.flag("deep")
    try:
        got = get_in_object_from_path(Box(root, name="n") if deep else root, ("#/content/" if deep else "#/") + target)
    except Exception:
        got = None
    ctx.check(ctx.iff(ctx.eq(target, k1), got is one), "the first key leads to its value only")
    ctx.check(ctx.iff(ctx.eq(target, k2), got is two), "the second key leads to its value only")


@harness("C06", bounds="dict of a tuple of a digit and a letter; symbolic segment of 6 characters made of a bracket or another "
                       "character, a digit, a comma, a space or not, a letter in quotes or not, and a bracket or another character",
         realise_cap=12)
def tuple_keys(ctx):
    """ A tuple is found by its own text, and nothing else leads to it but its text without spaces or quotes. """
    digit, letter = ctx.str("digit", 1, ["01"]), ctx.str("letter", 1, ["ab"])
    start, end = ctx.choice("start", ["(", "", "["]), ctx.choice("end", [")", "", "]"])
    quote, space = ctx.choice("quote", ["", "'"]), ctx.choice("space", ["", " "])
    one, two = ctx.str("one", 1, ["01"]), ctx.str("two", 1, ["ab"])
    target = [1]
    root = Box({(int(digit), letter): target, "other": [2]}, name="n")
    try:
        got = get_in_object_from_path(root, "#/content/" + start + one + "," + space + quote + two + quote + end)
    except Exception:
        got = None
    named = ctx.all_([ctx.eq(digit, one), ctx.eq(letter, two), start == "(" and end == ")"])
    ctx.check(ctx.implies(got is not None, ctx.all_([got is target, named])), "nothing else leads to it")
    if quote and space:
        ctx.check(ctx.implies(named, got is target), "its text leads to it")


@harness("C06", bounds="list/tuple of 1..4 elements; symbolic one- or two-digit index", realise_cap=20)
def symbolic_index(ctx):
    """ An index leads to the element of that rank, an index out of range raises. """
    items = [[i] for i in range(ctx.length("n", 1, 4))]
    root = Box(items if ctx.flag("list") else tuple(items))
    digit = ctx.str("d", 1, ["0123456789"])
    got = None
    try:
        got = get_in_object_from_path(root, "#/content/" + digit)
    except Exception:
        pass
    for i, item in enumerate(items):
        ctx.check(ctx.iff(ctx.eq(digit, str(i)), got is item), "index i leads to element i")


@harness("C06", bounds="serialized forms with pointers in the middle (one or two jumps) or at the end of the path")
def pointers(ctx):
    """ Pointers met on the way are followed. """
    v, w = ctx.int("v"), ctx.int("w")
    marker = "$ref"
    inner = {"value": v, "items": [w, {"z": v}]}
    form = {"a": {marker: "#/_references/1"}, "b": [{marker: "#/_references/2"}, {"c": {marker: "#/b/0"}}],
            "_references": {"1": inner, "2": {"sub": {marker: "#/_references/1"}, "n": w}}}
    cases = {"#/a/value": v, "#/a/items/0": w, "#/a/items/1/z": v, "#/b/0/n": w, "#/b/0/sub/value": v,
             "#/b/0/sub/items/1/z": v, "#/b/1/c/n": w, "#/b/1/c/sub/items/0": w, "#/_references/2/sub/value": v}
    path = ctx.choice("path", list(cases))
    before = snapshot(form)
    ctx.check(ctx.eq(get_in_object_from_path(form, path), cases[path]), "the element pointed at", path)
    ctx.check(ctx.same(snapshot(form), before), "reading changes nothing")
    try:
        get_in_object_from_path(form, path, evaluate_pointers=False)
        blocked = False
    except Exception:
        blocked = True
    ctx.check(blocked, "pointers are not followed on request")
    ctx.check(get_in_object_from_path(form, "#/a", evaluate_pointers=False) is form["a"],
              "a pointer at the end of the path is given as is")


@harness("C06", bounds="paths of 1..5 segments, symbolic new value", shards=4)
def setting(ctx):
    """ Setting then reading gives the value; every other part is left unchanged. """
    root = build(ctx)
    trail = descend(ctx, root, 5)
    parents = [root] + [e for _, e in trail]
    path = ctx.choice("prefix", PREFIXES) + "/".join(s for s, _ in trail)
    reference = build_again = snapshot(root)
    new = ctx.choice("new", ["int", "list"])
    new = ctx.int("new value") if new == "int" else [ctx.int("new value")]
    if isinstance(parents[-2], tuple):
        try:
            set_in_object_from_path(root, path, new)
        except Exception:
            ctx.check(ctx.same(snapshot(root), reference), "a refused set changes nothing")
            return
        ctx.fail("setting an element of a tuple is refused")
    set_in_object_from_path(root, path, new)
    ctx.check(get_in_object_from_path(root, path) is new, "the next read gives the value set", path)
    expected = replace(build_again, [s for s, _ in trail], new)
    ctx.check(ctx.same(snapshot(root), expected), "every other part is unchanged", path)


def replace(snap, segments, new):
    """ The snapshot with the element at segments replaced. """
    if not segments:
        return snapshot(new)
    head, tail = segments[0], segments[1:]
    if isinstance(snap, tuple) and len(snap) == 2 and isinstance(snap[0], type):
        return (snap[0], {k: replace(v, tail, new) if k == head else v for k, v in snap[1].items()})
    if isinstance(snap, dict):
        return {k: replace(v, tail, new) if str(k) == head else v for k, v in snap.items()}
    items = [replace(v, tail, new) if str(i) == head else v for i, v in enumerate(snap)]
    return tuple(items) if isinstance(snap, tuple) else items


@harness("C06", bounds="new keys and attributes, symbolic values")
def adding(ctx):
    """ Setting a new key or attribute adds it and nothing else. """
    v = ctx.int("v")
    root = build(ctx)
    target = ctx.choice("target", ["#/second/new", "#/second/x/new", "#/new", "second/new", "#/first/1/new"])
    before = snapshot(root)
    set_in_object_from_path(root, target, v)
    ctx.check(ctx.eq(get_in_object_from_path(root, target), v), "the next read gives the value set")
    parent = {"#/second/new": root.second, "#/second/x/new": root.second["x"].__dict__, "#/new": root.__dict__,
              "second/new": root.second, "#/first/1/new": root.first[1]}[target]
    del parent["new"]
    ctx.check(ctx.same(snapshot(root), before), "every other part is unchanged")


@harness("C06", bounds="setting under a pointer, symbolic values")
def setting_through_pointers(ctx):
    """ Setting under a pointer changes what the pointer points at. """
    v, new = ctx.int("v"), ctx.int("new")
    form = {"a": {"$ref": "#/_references/1"}, "b": [{"$ref": "#/_references/2"}],
            "_references": {"1": {"value": v, "other": 1}, "2": {"sub": {"$ref": "#/_references/1"}, "value": 5}}}
    path, holder = ctx.choice("path", [("#/a/value", "1"), ("#/b/0/value", "2"), ("#/b/0/sub/value", "1"),
                                       ("#/_references/1/value", "1")])
    before = snapshot(form)
    set_in_object_from_path(form, path, new)
    ctx.check(ctx.eq(get_in_object_from_path(form, path), new), "the next read gives the value set", path)
    ctx.check(ctx.eq(form["_references"][holder]["value"], new), "in the element pointed at")
    form["_references"][holder]["value"] = before["_references"][holder]["value"]
    ctx.check(ctx.same(snapshot(form), before), "every other part is unchanged")


@harness("C06", bounds="12 elements in a list, a tuple or a dictionary of integers or texts; every place; read, then set", shards=2)
def wide(ctx):
    """ Places beyond the tenth. """
    items = [[i] for i in range(12)]
    kind = ctx.choice("kind", ["list", "tuple", "int keys", "text keys"])
    content = {"list": list, "tuple": tuple, "int keys": lambda x: dict(enumerate(x)),
               "text keys": lambda x: {str(i): v for i, v in enumerate(x)}}[kind](items)
    root = Pair(0, {"in": [content]}, name="n")
    at = ctx.select("at", 12)
    ctx.check(get_in_object_from_path(root, f"#/second/in/0/{at}/0") == at, "the element of that rank")
    new = ctx.int("new")
    set_in_object_from_path(root, f"#/second/in/0/{at}/0", new)
    ctx.check(ctx.same([x[0] for x in items], [new if i == at else i for i in range(12)]), "it, and only it, is set")


@harness("C06", bounds="dict of 2 keys of 1..2 characters (a letter, #) at the root or under one of them; every value", shards=2)
def setting_keys(ctx):
    """ Setting at a key changes it only, whatever its characters. """
    k1 = ctx.str("k1", ctx.length("n1", 1, 2), ["a#"])
    k2 = ctx.str("k2", ctx.length("n2", 1, 2), ["a#"])
    ctx.assume(ctx.not_(ctx.eq(k1, k2)))
    one, two, new = ctx.int("one"), ctx.int("two"), ctx.int("new")
    deep = ctx.flag("deep")
    root = {k1: {k1: one}, k2: two} if deep else {k1: one, k2: two}
    path = "#/" + k1 + ("/" + k1 if deep else "")
    set_in_object_from_path(root, path, new)
    ctx.check(len(root) == 2, "no key is added")
    ctx.check(ctx.eq(root[k2], two), "the other key is left unchanged")
    ctx.check(ctx.eq(root[k1][k1] if deep else root[k1], new), "the value is set")
    ctx.check(ctx.eq(get_in_object_from_path(root, path), new), "and read")
