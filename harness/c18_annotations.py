""" C18: type annotations survive their textual form. """
from typing import Any, Dict, Iterator, List, Literal, Optional, Tuple, Type, Union, get_args, get_origin

from dessia_common.core import DessiaObject, PhysicalObject
from dessia_common.files import BinaryFile, StringFile
from dessia_common.measures import Distance
from dessia_common.schemas.core import deserialize_annotation, extract_args, serialize_annotation
from dessia_common.typings import (AttributeType, ClassAttributeType, ClassMethodType, InstanceOf, MethodType)
from symex.ctx import harness
from harness.models import Leaf, Part

BASE = {"int": int, "float": float, "bool": bool, "str": str, "object": DessiaObject, "own": Leaf, "other": Part,
        "physical": PhysicalObject, "measure": Distance, "text file": StringFile, "binary file": BinaryFile, "any": Any,
        "class": Type}
WORDS = ["a", "b", "a b", "a,b", "[a", "b]", ""]


def base(ctx, name, options=tuple(BASE)):
    return BASE[ctx.choice(name, list(options))]


def marker(ctx, name):
    """ Annotations that only take classes. """
    class_ = base(ctx, name + ".class", ["object", "own"])
    kind = ctx.choice(name + ".marker", ["instance", "method", "class method", "attribute", "class attribute", "type"])
    return {"instance": InstanceOf[class_], "method": MethodType[class_], "class method": ClassMethodType[class_],
            "attribute": AttributeType[class_], "class attribute": ClassAttributeType[class_], "type": Type[class_]}[kind]


def options(ctx, name):
    words = tuple(ctx.choice(f"{name}.word{i}", WORDS[i:]) for i in range(ctx.length(name + ".words", 1, 2)))
    return Literal[words]


SMALL = ("int", "own")
KINDS = ["base", "list", "tuple", "any tuple", "dict", "union", "optional", "marker", "literal"]


def annotation(ctx, name, depth, top=False):
    """ (annotation, what comes back) """
    kind = ctx.choice(name + ".kind", KINDS if depth else ["base", "marker"] if not top else KINDS)
    if kind == "base":
        res = base(ctx, name + ".base", tuple(BASE) if top else SMALL)
        return res, res
    if kind == "marker":
        res = marker(ctx, name) if top else InstanceOf[Leaf]
        return res, res
    if kind == "literal":
        res = options(ctx, name) if top else Literal["a b", "c"]
        return res, res
    sub, back = annotation(ctx, name + ".0", depth - 1)
    if kind == "list":
        return List[sub], List[back]
    if kind == "any tuple":
        return Tuple[sub, ...], Tuple[back, ...]
    if kind == "dict":
        key = base(ctx, name + ".key", ["int", "str"])
        return Dict[key, sub], Dict[key, back]
    if kind == "optional":
        ctx.assume(get_origin(sub) is not Union)  # a union of three with None is another annotation
        wide = Optional[sub] if ctx.flag(name + ".usual") else Union[None, sub]
        return wide, back
    second = base(ctx, name + ".second", ["float", "other"])
    if kind == "union":
        if type(None) in get_args(sub):
            sub = back
        pair = ctx.flag(name + ".order")
        return (Union[sub, second], Union[back, second]) if pair else (Union[second, sub], Union[second, back])
    shape = ctx.choice(name + ".shape", ["one", "before", "after", "between"])
    if shape == "one":
        return Tuple[sub], Tuple[back]
    if shape == "before":
        return Tuple[sub, second], Tuple[back, second]
    if shape == "after":
        return Tuple[second, sub], Tuple[second, back]
    return Tuple[second, sub, second], Tuple[second, back, second]


@harness("C18", bounds="annotations of depth <= 3 (quick) / 4 (thorough): 13 base annotations at the top and 2 below, lists, "
                       "tuples of 1..3 elements or any number, dictionaries, unions, optionals, markers, literals of 1..2 words",
         shards=8)
def round_trip(ctx):
    """ Written and read back. """
    given, expected = annotation(ctx, "t", ctx.bound(2, 3), top=True)
    text = serialize_annotation(given)
    ctx.check(isinstance(text, str), "the form is a text")
    ctx.check(deserialize_annotation(text) == expected, "the same annotation comes back", text)


@harness("C18", bounds="every well-formed text of length <= 6 (quick) / 8 (thorough) over 'a', brackets, comma, quote and space",
         shards=8)
def arguments(ctx):
    """ Arguments are split at the commas that are neither inside brackets nor inside quotes, whatever the text. """
    n = ctx.length("n", 1, ctx.bound(6, 8))
    text = ctx.str("text", n, ["a[],' "])
    parts, current, depth, quoted = [], "", 0, False
    for i in range(n):
        c = text[i]
        if c == "'":
            quoted = not quoted
            current += c
        elif quoted:
            current += c
        elif c == "," and depth == 0:
            ctx.assume(current != "")
            parts.append(current)
            current = ""
        elif c != " ":
            if c == "[":
                depth += 1
            elif c == "]":
                depth -= 1
                ctx.assume(depth >= 0)
            current += c
    ctx.assume(depth == 0 and not quoted and current != "")
    ctx.check(ctx.same(extract_args(text), parts + [current]), "first-level arguments, in order, without spaces")
