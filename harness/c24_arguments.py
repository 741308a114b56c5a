""" C24: arguments of methods and workflows rebuilt from their serialized form. """
from typing import Any, Dict, List, Literal, Optional, Tuple, Type, Union, get_args

from dessia_common import core
from dessia_common.core import DessiaObject
from dessia_common.files import StringFile
from dessia_common.measures import Distance
from dessia_common.typings import InstanceOf
from dessia_common.workflow.core import Pipe, Variable, Workflow
from symex.ctx import harness
from harness.c11_inputs import Collect
from harness.models import LETTERS


class Item(DessiaObject):
    """ An argument. """

    def __init__(self, value: int = 0, name: str = ""):
        self.value = value
        super().__init__(name=name)


class SubItem(Item):
    """ A kind of item. """

    def __init__(self, value: int = 0, extra: int = 0, name: str = ""):
        self.extra = extra
        super().__init__(value=value, name=name)


class Couple(DessiaObject):
    """ An argument with sub-objects. """

    def __init__(self, left: Item, right: Item, name: str = ""):
        self.left = left
        self.right = right
        super().__init__(name=name)


class Probe(DessiaObject):
    """ Has a method. """
    _allowed_methods = ["compute"]


def zero(self):
    return None


def one(self, first):
    return None


def two(self, first, second):
    return None


def three(self, first, second, third):
    return None


METHODS = [zero, one, two, three]
NAMES = ["first", "second", "third"]


def probe(annotations, defaults=()):
    """ An object whose method takes arguments with these annotations. """
    method = METHODS[len(annotations)]
    method.__annotations__ = dict(zip(NAMES, annotations))
    method.__defaults__ = tuple(defaults)
    Probe.compute = method
    core._fullargsspec_cache.clear()
    return Probe()


def base(ctx, name, kinds=("int", "float", "str", "bool")):
    """ (annotation, serialized value, value, whether it fits) """
    kind = ctx.choice(name + ".type", list(kinds))
    given = ctx.choice(name + ".given", ["itself", "int for float", "another"] if kind == "float" else ["itself", "another"])
    number, real, text = ctx.int(name + ".i"), ctx.real(name + ".r", -100, 100), ctx.str(name + ".s", 1, LETTERS)
    if kind == "int":
        return (int, number, number, True) if given == "itself" else (int, text, None, False)
    if kind == "float":
        if given == "int for float":
            return float, number, number + 0., True
        return (float, real, real, True) if given == "itself" else (float, text, None, False)
    if kind == "str":
        return (str, text, text, True) if given == "itself" else (str, number, None, False)
    flag = ctx.flag(name + ".b")
    return (bool, flag, flag, True) if given == "itself" else (bool, number, None, False)


def item(ctx, name, sub=True):
    """ An object, in any of its serialized forms. """
    value = ctx.int(name + ".value")
    if sub and ctx.flag(name + ".sub"):
        obj = SubItem(value, ctx.int(name + ".extra"))
    else:
        obj = Item(value)
    form = ctx.choice(name + ".form", ["dictionary", "without pointers", "object"])
    if form == "object":
        return obj, obj
    return obj.to_dict(use_pointers=form == "dictionary"), obj


def couple(ctx, name):
    left = Item(ctx.int(name + ".left"))
    obj = Couple(left, left if ctx.flag(name + ".shared") else Item(ctx.int(name + ".right")))
    return obj.to_dict(use_pointers=ctx.flag(name + ".pointers")), obj


KINDS = ["base", "item", "list", "tuple", "any tuple", "optional", "none", "dict", "any", "couple", "instance", "union", "literal",
         "class", "class of", "measure", "file"]
INNER = ["base", "item", "list", "any tuple", "optional"]


def argument(ctx, name, depth, kinds):
    """ (annotation, serialized value, value, whether it fits) """
    kind = ctx.choice(name, kinds if depth else [k for k in kinds if k in ("base", "item")])
    if kind == "base":
        return base(ctx, name)
    if kind == "item":
        serialized, obj = item(ctx, name)
        return Item, serialized, obj, True
    if kind == "couple":
        serialized, obj = couple(ctx, name)
        return Couple, serialized, obj, True
    if kind == "instance":
        serialized, obj = item(ctx, name)
        return InstanceOf[Item], serialized, obj, True
    if kind == "union":
        serialized, obj = item(ctx, name) if ctx.flag(name + ".which") else couple(ctx, name)
        form = ctx.choice(name + ".union", [Union[Couple, Item], Optional[Union[Couple, Item]], Union[None, Item, Couple]])
        return form, serialized, obj, True
    if kind == "literal":
        word = ctx.choice(name + ".word", ["a", "b c"])
        return Literal["a", "b c"], word, word, True
    if kind in ("class", "class of"):
        class_ = ctx.choice(name + ".class", [Item, SubItem])
        text = f"{class_.__module__}.{class_.__name__}"
        return Type if kind == "class" else Type[Item], text, class_, True
    if kind == "measure":
        value = ctx.real(name + ".m", -100, 100)
        return Distance, value, value, True
    if kind == "file":
        file = StringFile("f")
        return StringFile, [file] if ctx.flag(name + ".listed") else file, file, True
    if kind == "any":
        value = ctx.choice(name + ".any", [3, "a", [1, "b"], {"a": 1}])
        return Any, value, value, True
    if kind == "dict":
        value = {key: ctx.int(f"{name}.{key}") for key in "ab"[:ctx.length(name + ".keys", 0, 2)]}
        return Dict[str, int], value, value, True
    if kind == "none":
        annotation, _, _, _ = argument(ctx, name + ".0", depth - 1, INNER)
        return annotation, None, None, True
    if kind == "tuple":
        a = argument(ctx, name + ".0", depth - 1, INNER)
        b = base(ctx, name + ".1", ["int", "float"])
        shape = ctx.choice(name + ".shape", ["one", "two", "swapped", "short", "long"])
        elements = {"one": [a], "two": [a, b], "swapped": [b, a], "short": [a, b], "long": [a, b]}[shape]
        values = [e[1] for e in elements]
        if shape == "short":
            values.pop()
        elif shape == "long":
            values.append(values[-1])
        fits = shape not in ("short", "long") and all(e[3] for e in elements)
        return Tuple[tuple(e[0] for e in elements)], values, tuple(e[2] for e in elements), fits
    inner = argument(ctx, name + ".0", depth - 1, INNER)
    if kind == "optional":
        form = Optional[inner[0]] if ctx.flag(name + ".usual") else Union[None, inner[0]]
        return (form, *inner[1:])
    n = ctx.length(name + ".n", 0, 2)
    again = inner
    if n == 2 and inner[0] in (int, float, str, bool):
        again = {int: (int, ctx.int(name + ".again"), None, True)}.get(inner[0], inner)
        again = (*again[:2], again[1] if again is not inner else inner[2], again[3])
    elements = [inner, again][:n]
    if n and type(None) in get_args(inner[0]) and ctx.flag(name + ".missing"):
        elements[0] = (inner[0], None, None, True)
    values = [e[2] for e in elements]
    return (List[inner[0]] if kind == "list" else Tuple[inner[0], ...], [e[1] for e in elements],
            values if kind == "list" else tuple(values), all(e[3] for e in elements))


def alike(ctx, got, expected):
    """ The same value, of the same type all the way down. """
    if isinstance(expected, DessiaObject):
        if type(got) is not type(expected):
            return False
        keys = [k for k in vars(expected) if not k.startswith("_")]
        return ctx.all_([alike(ctx, getattr(got, k), getattr(expected, k)) for k in keys])
    if isinstance(expected, (list, tuple)):
        return type(got) is type(expected) and len(got) == len(expected) \
            and ctx.all_([alike(ctx, g, e) for g, e in zip(got, expected)])
    if isinstance(expected, dict):
        return isinstance(got, dict) and list(got) == list(expected) \
            and ctx.all_([alike(ctx, got[k], expected[k]) for k in expected])
    if isinstance(expected, type) or expected is None or isinstance(expected, StringFile):
        return got is expected
    return isinstance(got, bool) == isinstance(expected, bool) and isinstance(got, float) == isinstance(expected, float) \
        and ctx.same(got, expected)


@harness("C24", bounds="one argument annotated with terms of depth <= 2 (quick) / 3 (thorough): base types, objects, lists, tuples of "
                       "1..2 or any number, optionals, dictionaries, unions of objects, InstanceOf, Literal, Type, Any, measures, files; "
                       "sequences of 0..2 elements, values that fit and values that do not", shards=8)
def typed(ctx):
    """ The value comes with the announced type, or is refused. """
    annotation, serialized, value, fits = argument(ctx, "a", ctx.bound(2, 3), KINDS)
    obj = probe([annotation])
    try:
        arguments = obj.dict_to_arguments({"0": serialized}, "compute")
    except TypeError:
        ctx.check(not fits, "a value that fits is accepted", annotation)
        return
    ctx.check(fits, "a value that does not fit is refused", annotation)
    ctx.check(list(arguments) == ["first"], "under its name")
    ctx.check(alike(ctx, arguments["first"], value), "the value supplied", annotation)


@harness("C24", bounds="methods of 0..3 arguments, any of them supplied, of 6 kinds of annotation", shards=4)
def positions(ctx):
    """ Each value goes to the parameter of its position. """
    n = ctx.length("n", 0, 3)
    given, annotations, expected = {}, [], {}
    for i in range(n):
        kind = ctx.choice(f"kind{i}", ["int", "str", "optional", "list", "item", "tuple"])
        value = ctx.str(f"v{i}", 1, LETTERS) if kind == "str" else ctx.int(f"v{i}")
        annotation, serialized = {"int": (int, value), "str": (str, value), "optional": (Optional[int], value),
                                  "list": (List[int], [value]), "tuple": (Tuple[int, int], [value, 3]),
                                  "item": (Item, None)}[kind]
        if kind == "item":
            value = Item(value)
            serialized = value.to_dict()
        elif kind == "list":
            value = [value]
        elif kind == "tuple":
            value = (value, 3)
        annotations.append(annotation)
        if ctx.flag(f"given{i}"):
            given[str(i)] = serialized
            expected[NAMES[i]] = value
    if ctx.flag("backwards"):
        given = dict(reversed(given.items()))
    keys = list(given)
    arguments = probe(annotations).dict_to_arguments(given, "compute")
    ctx.check(sorted(arguments) == sorted(expected), "exactly the parameters supplied", (list(arguments), list(expected)))
    for name, value in expected.items():
        ctx.check(alike(ctx, arguments[name], value), "each its value", name)
    ctx.check(list(given) == keys, "the form is left alone")


@harness("C24", bounds="workflows of 3 inputs, the second fed to two blocks, each required, with a default or locked, supplied or not; "
                       "named or not", shards=4)
def workflow(ctx):
    """ The arguments of a run. """
    first, second = Collect(2, name="first"), Collect(3, name="second")
    shared = Variable(type_=int, name="shared")
    pipes = [Pipe(shared, first.inputs[1]), Pipe(shared, second.inputs[1]), Pipe(first.outputs[0], second.inputs[0])]
    flow = Workflow([first, second], pipes, second.outputs[0])
    types = {0: int, 1: Item, 2: List[int]}
    expected, given = {}, {}
    for i, variable in enumerate(flow.inputs):
        variable.type_ = types[i % 3] if variable is not shared else int
        value = {int: lambda: ctx.int(f"v{i}"), Item: lambda: Item(ctx.int(f"v{i}")),
                 List[int]: lambda: [ctx.int(f"v{i}")]}[variable.type_]()
        source = ctx.choice(f"source{i}", ["required", "default", "locked"])
        if source == "default":
            variable.default_value = ctx.int(f"d{i}")
        elif source == "locked":
            variable.lock(ctx.int(f"d{i}"))
        supplied = ctx.flag(f"supplied{i}")
        ctx.assume(supplied or source != "required")
        if supplied:
            given[str(i)] = value.to_dict() if isinstance(value, Item) else value
            if source != "locked":
                expected[i] = value
    name = None
    if ctx.flag("named"):
        name = ctx.str("name", 1, LETTERS)
        given[str(len(flow.inputs))] = name
    arguments = flow.dict_to_arguments(given, "run")
    values = arguments["input_values"]
    ctx.check(sorted(values) == sorted(expected), "exactly the inputs that may be supplied", (list(values), list(expected)))
    for i, value in expected.items():
        ctx.check(alike(ctx, values[i], value), "each its value", i)
    ctx.check(ctx.same(arguments["name"], name), "the name of the run")


class Other(DessiaObject):
    """ Has a method of the same name. """
    _allowed_methods = ["compute"]

    def compute(self, third: str, first: int):
        return None

    def second(self, first: List[int]):
        return None


class SubProbe(Probe):
    """ Has its parent's method. """


@harness("C24", bounds="every order of two calls among 4: same method, other method, same name in another class, inherited method")
def several(ctx):
    """ What a call gives does not depend on the calls made before. """
    parent = probe([int, str])
    value, text = ctx.int("value"), ctx.str("text", 1, LETTERS)
    for i in range(2):
        call = ctx.choice(f"call{i}", ["own", "inherited", "other class", "other method"])
        if call == "other method":
            got, expected = Other().dict_to_arguments({"0": [value]}, "second"), {"first": [value]}
        elif call == "other class":
            got, expected = Other().dict_to_arguments({"0": text, "1": value}, "compute"), {"third": text, "first": value}
        else:
            obj = parent if call == "own" else SubProbe()
            got, expected = obj.dict_to_arguments({"0": value, "1": text}, "compute"), {"first": value, "second": text}
        ctx.check(ctx.same(got, expected), "the arguments of that call", call)


def defaulted(ctx, name):
    """ (annotation, default, its serialized form, serialized form of no default) """
    kind = ctx.choice(name + ".kind", ["int", "str", "item", "tuple", "optional", "literal", "list"])
    value = ctx.int(name + ".value")
    if kind == "int":
        return int, value, value, None
    if kind == "str":
        text = ctx.str(name + ".text", 1, LETTERS)
        return str, text, text, None
    if kind == "item":
        obj = Item(value)
        return Item, obj, {"name": "", "object_class": "harness.c24_arguments.Item", "value": value}, None
    if kind == "tuple":
        return Tuple[int, str], (value, "a"), (value, "a"), (None, None)
    if kind == "optional":
        return Optional[int], None, None, None
    if kind == "literal":
        return Literal["a", "b"], "b", "b", None
    return List[int], None, None, None


@harness("C24", bounds="methods of 0..3 arguments of 7 kinds of annotation, the last 0..3 with a default of any value", shards=4)
def defaults(ctx):
    """ The dictionary of defaults has every argument, with the default declared. """
    n = ctx.length("n", 0, 3)
    without = ctx.length("without", 0, n)
    annotations, values, expected = [], [], {}
    for i in range(n):
        annotation, default, serialized, empty = defaulted(ctx, f"a{i}")
        annotations.append(annotation)
        if i >= without:
            values.append(default)
        expected[NAMES[i]] = serialized if i >= without else empty
    got = probe(annotations, values).method_dict("compute")
    ctx.check(list(got) == list(expected), "every argument")
    for name, value in expected.items():
        if isinstance(value, dict):
            ctx.check(isinstance(got[name], dict) and all(key in got[name] and ctx.same(got[name][key], value[key]) for key in value),
                      "the form of the default object", name)
        else:
            ctx.check(alike(ctx, got[name], value), "the declared default", name)


class Long(DessiaObject):
    """ Methods of many parameters. """
    _allowed_methods = ["eleven"]

    def eleven(self, p0: int, p1: str, p2: int, p3: int, p4: int, p5: int, p6: int, p7: int, p8: int, p9: str, p10: int, p11: int = 3):
        return None


@harness("C24", bounds="a method of 12 parameters and a run of 12 inputs, all supplied or all but one, in 2 orders")
def wide(ctx):
    """ Positions of two digits. """
    values = [ctx.str(f"v{i}", 1, LETTERS) if i in (1, 9) else ctx.int(f"v{i}") for i in range(12)]
    given = {str(i): v for i, v in enumerate(values)}
    expected = {f"p{i}": v for i, v in enumerate(values)}
    if ctx.flag("backwards"):
        given = dict(reversed(given.items()))
    if ctx.flag("run"):
        block = Collect(12, name="wide")
        block.inputs[1].type_ = block.inputs[9].type_ = str
        flow = Workflow([block], [], block.outputs[0])
        if ctx.flag("named"):
            given["12"] = "run name"
        arguments = flow.dict_to_arguments(given, "run")
        ctx.check(ctx.same({f"p{i}": v for i, v in arguments["input_values"].items()}, expected), "each its value")
        ctx.check(arguments["name"] == given.get("12"), "the name of the run")
        return
    if ctx.flag("default"):
        del given["11"], expected["p11"]
    ctx.check(ctx.same(Long().dict_to_arguments(given, "eleven"), expected), "each its value")
