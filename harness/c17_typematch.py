""" C17: type matching between block ports. """
from typing import Any, Dict, List, Optional, Tuple, Union

from dessia_common.utils.types import typematch
from dessia_common.workflow.core import Block, Variable, Workflow
from symex.ctx import harness

RELATION = {}


class Related(type):
    """ Classes whose subclass relation is whatever the harness says. """

    def __subclasscheck__(cls, sub):
        ask = RELATION.get("ask")
        if ask is None or not isinstance(sub, Related):
            return cls is sub
        return ask(sub, cls)


class A(metaclass=Related):
    """ A class. """


class B(metaclass=Related):
    """ A class. """


class C(metaclass=Related):
    """ A class. """


CLASSES = {"A": A, "B": B, "C": C}


def start(ctx):
    """ Any relation between the classes: an unknown boolean for each pair asked for. """
    known = {}

    def ask(sub, parent):
        if sub is parent:
            return True
        key = f"{sub.__name__}<{parent.__name__}"
        if key not in known:
            known[key] = ctx.bool(key)
        return known[key]
    RELATION["ask"] = ask
    return ask


BASE = {"int": int, "float": float, "str": str, "any": Any, "A": A, "B": B, "C": C}


def build(term):
    """ The annotation a term stands for. """
    kind = term[0]
    if kind == "list":
        return List[build(term[1])]
    if kind == "tuple":
        return Tuple[tuple(build(t) for t in term[1:])]
    if kind == "dict":
        return Dict[build(term[1]), build(term[2])]
    if kind == "union":
        return Union[tuple(build(t) for t in term[1:])]
    if kind == "opt":
        return Optional[build(term[1])] if len(term) == 2 else Union[None, build(term[1])]
    return BASE[kind]


def relation(ctx, ask, term, other):
    """ (must match, may match) """
    while term[0] == "opt":
        term = term[1]
    while other[0] == "opt":
        other = other[1]
    if term == other or other[0] == "any" or (term, other) == (("int",), ("float",)):
        return True, True
    if term[0] == "union":
        if other[0] == "union":
            must = all(t in other[1:] for t in term[1:])
        else:
            must = False
        return must, ctx.all_([relation(ctx, ask, t, other)[1] for t in term[1:]])
    if other[0] == "union":
        subs = [relation(ctx, ask, term, o) for o in other[1:]]
        return ctx.any_([m for m, _ in subs]), ctx.any_([m for _, m in subs])
    if term[0] in CLASSES and other[0] in CLASSES:
        known = ask(CLASSES[term[0]], CLASSES[other[0]])
        return known, known
    if term[0] != other[0] or len(term) != len(other) or len(term) == 1:
        return False, False
    subs = [relation(ctx, ask, t, o) for t, o in zip(term[1:], other[1:])]
    return ctx.all_([m for m, _ in subs]), ctx.all_([m for _, m in subs])


def leaf(ctx, name, options):
    return (ctx.choice(name, options),)


def flat(ctx, name, leaves, kinds=("leaf", "list", "tuple", "dict", "union", "opt", "opt first"), longest=3):
    """ An annotation of depth one. """
    kind = ctx.choice(name + ".kind", list(kinds))
    if kind == "leaf":
        return leaf(ctx, name, leaves)
    if kind == "list":
        return ("list", leaf(ctx, name + ".0", leaves))
    if kind == "tuple":
        return ("tuple",) + tuple(leaf(ctx, f"{name}.{i}", leaves) for i in range(ctx.length(name + ".n", 1, longest)))
    if kind == "dict":
        return ("dict", leaf(ctx, name + ".key", ["int", "str"]), leaf(ctx, name + ".0", leaves))
    if kind == "union":
        return ("union",) + tuple((x,) for x in ctx.choice(name + ".members", [("A", "int"), ("A", "B"), ("B", "A", "str"),
                                                                               ("float", "str")]))
    inner = leaf(ctx, name + ".0", leaves)
    if ctx.flag(name + ".list"):
        inner = ("list", inner)
    return ("opt", inner) if kind == "opt" else ("opt", inner, "first")


def verdict(ctx, ask, term, other):
    """ typematch answers what it must. """
    must, may = relation(ctx, ask, term, other)
    got = typematch(build(term), build(other))
    ctx.check(isinstance(got, bool), "a plain answer")
    ctx.check(ctx.implies(must, got), "matching types match", f"{build(term)} {build(other)}")
    ctx.check(ctx.implies(got, may), "types that match are related", f"{build(term)} {build(other)}")
    return got


@harness("C17", bounds="pairs of annotations of depth <= 1 (lists, tuples of 1..2 elements, dictionaries, 4 unions, optionals "
                       "written both ways) over int, float, any type, and two classes with an arbitrary subclass relation",
         shards=8)
def pairs(ctx):
    """ One level. """
    ask = start(ctx)
    term = flat(ctx, "t", ["int", "A", "B"], longest=2)
    other = flat(ctx, "o", ["int", "float", "A", "B", "any"], longest=2)
    verdict(ctx, ask, term, other)


def nested(ctx, name, inner, leaves, members):
    kind = ctx.choice(name, ["list", "tuple", "dict", "union", "opt"])
    if kind == "list":
        return ("list", inner)
    if kind == "tuple":
        return ("tuple", inner, leaf(ctx, name + ".second", leaves)) if ctx.flag(name + ".last") else ("tuple", ("str",), inner)
    if kind == "dict":
        return ("dict", ("str",), inner)
    if kind == "union":
        while inner[0] == "opt":
            inner = inner[1]
        return inner if inner[0] == "union" else ("union", inner) + members
    return inner if inner[0] in ("opt", "union") else ("opt", inner)


@harness("C17", bounds="the same, one level deeper, over two classes with an arbitrary subclass relation", shards=8)
def deeper(ctx):
    """ Two levels. """
    ask = start(ctx)
    kinds = ["leaf", "list", "tuple", "dict", "opt"]
    term = nested(ctx, "outer t", flat(ctx, "t", ["A"], kinds, 2), ["int", "str"], (("str",), ("C",)))
    other = nested(ctx, "outer o", flat(ctx, "o", ["A", "B"], kinds, 2), ["float", "str"], (("C",), ("str",), ("float",)))
    verdict(ctx, ask, term, other)


@harness("C17", bounds="any annotation of depth <= 1, and one level deeper")
def reflexive(ctx):
    """ Every type matches itself and the unconstrained one. """
    start(ctx)
    term = flat(ctx, "t", ["int", "A", "any"], longest=2)
    if ctx.flag("deeper"):
        term = nested(ctx, "outer", term, ["int"], (("str",),))
    ctx.check(typematch(build(term), build(term)), "matches itself")
    ctx.check(typematch(build(term), Any), "matches the unconstrained type")
    if term[0] != "opt":
        ctx.check(typematch(build(term), build(("opt", term))), "matches its optional form")


class Typed(Block):
    """ A block with given port types. """

    def __init__(self, inputs, outputs, name: str = "typed", position=(0, 0)):
        super().__init__(inputs=[Variable(type_=t, name="in") for t in inputs],
                         outputs=[Variable(type_=t, name="out") for t in outputs], name=name, position=position)


@harness("C17", bounds="2 blocks and a non-block variable, ports typed A, B or untyped, any subclass relation", shards=4)
def ports(ctx):
    """ Ports that match are typed, on other blocks, on the other side, with matching types. """
    ask = start(ctx)
    one = Typed([ctx.choice("in0", [A, B])], [ctx.choice("out0", [A, B, None])])
    two = Typed([ctx.choice("in1", [A, B, None])], [ctx.choice("out1", [A, None])])
    from dessia_common.workflow.core import Pipe
    nbv = Variable(type_=ctx.choice("nbv", [A, B]), name="in")
    extra = Typed([A], [A])
    workflow = Workflow([one, two, extra], [Pipe(nbv, extra.inputs[0])], two.outputs[0])
    matches = workflow.match_variables()
    sides = {}
    for i, block in enumerate(workflow.blocks):
        for v in block.inputs:
            sides[v] = (i, 0)
        for v in block.outputs:
            sides[v] = (i, 1)
    for v in workflow.variables:
        if v.type_ is None:
            ctx.check(v not in matches, "untyped variables match nothing")
            continue
        for w in workflow.variables:
            far = v in sides and w in sides and sides[v][0] != sides[w][0] and sides[v][1] != sides[w][1]
            apart = v is not w and (v is nbv or w is nbv or far)
            expected = False
            if apart and w.type_ is not None:
                expected = ask(v.type_, w.type_)
            ctx.check(ctx.iff(w in matches[v], expected), "matching ports are exactly those that can be wired")
