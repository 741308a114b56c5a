""" The standard workflow blocks, each with symbolic settings and inputs, and what it is documented to compute. """
from typing import List

from dessia_common.core import DessiaFilter, DessiaObject
from dessia_common.files import BinaryFile, StringFile
from dessia_common.typings import AttributeType, ClassMethodType, MarkdownType, MethodType
from dessia_common.workflow import blocks as wb
from dessia_common.workflow.core import Pipe, Variable, Workflow
from harness.flows import Op, apply
from harness.models import LETTERS


class Tool(DessiaObject):
    """
    A model with methods.

    :param x: first
    """

    def __init__(self, x: int, y: int = 5, sub: DessiaObject = None, name: str = ""):
        self.x = x
        self.y = y
        self.sub = sub
        super().__init__(name=name)

    def scaled(self, factor: int, offset: int = 3) -> int:
        """ An unspecified function of the model and the arguments. """
        return apply("scaled", 0, [self.x, self.y, factor, offset])

    def followed(self, factor: int, progress_callback=lambda x: None) -> int:
        """ A method that reports its progress. """
        progress_callback(0.5)
        return apply("followed", 0, [self.x, factor])

    def m(self) -> int:
        """ Nothing. """
        return self.x

    def moved(self, by: int) -> int:
        """ A method that changes its model. """
        self.x = apply("moved", 0, [self.x, by])
        return self.x

    @classmethod
    def made(cls, x: int, y: int = 7) -> 'Tool':
        """ A class method. """
        return cls(apply("made", 0, [x, y]), y, name="made")

    @staticmethod
    def mixed(a: int, b: int, c: int = 4) -> int:
        """ A static method. """
        return apply("mixed", 0, [a, b, c])

    def write_text(self, stream: StringFile):
        """ A text export. """
        stream.write(f"text of {self.name}")

    def write_bytes(self, stream: BinaryFile):
        """ A binary export. """
        stream.write(f"bytes of {self.name}".encode())


def tool(ctx, tag):
    return Tool(ctx.int(f"{tag}.x"), ctx.int(f"{tag}.y"), name=ctx.choice(f"{tag}.name", ["t", "tt"]))


def ints(ctx, tag, lo=0, hi=2):
    return [ctx.int(f"{tag}[{i}]") for i in range(ctx.length(f"{tag}.n", lo, hi))]


def sub_workflow(default=None):
    """ f then g, with a free input on each; the second input may have a default value. """
    f, g = Op("f", 2, 1), Op("g", 2, 1)
    if default is not None:
        f.inputs[1].default_value = default
    return Workflow([f, g], [Pipe(f.outputs[0], g.inputs[1])], g.outputs[0], name="sub")


def sub_result(a, b, c):
    """ Inputs of sub_workflow, in order: f0, f1, g0. """
    return apply("g", 0, [c, apply("f", 0, [a, b])])


class Case:
    """ A block, its input values in the order of its inputs and its expected outputs. """

    def __init__(self, block, args, outputs, optional=()):
        self.block, self.args, self.outputs, self.optional = block, args, outputs, optional


def instantiate(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    return Case(wb.InstantiateModel(Tool), [x, y, None, "n"], [Tool(x, y, None, name="n")], {1: 5, 2: None, 3: ""})


def class_method(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    return Case(wb.ClassMethod(ClassMethodType(Tool, "made")), [x, y], [Tool(apply("made", 0, [x, y]), y, name="made")],
                {1: 7})


def static_method(ctx):
    a, b, c = ctx.int("a"), ctx.int("b"), ctx.int("c")
    return Case(wb.ClassMethod(ClassMethodType(Tool, "mixed")), [a, b, c], [apply("mixed", 0, [a, b, c])], {2: 4})


def model_method(ctx):
    t, factor, offset = tool(ctx, "t"), ctx.int("factor"), ctx.int("offset")
    return Case(wb.ModelMethod(MethodType(Tool, "scaled")), [t, factor, offset],
                [apply("scaled", 0, [t.x, t.y, factor, offset]), t], {2: 3})


def following_method(ctx):
    t, factor = tool(ctx, "t"), ctx.int("factor")
    return Case(wb.ModelMethod(MethodType(Tool, "followed")), [t, factor], [apply("followed", 0, [t.x, factor]), t])


def changing_method(ctx):
    t, by = tool(ctx, "t"), ctx.int("by")
    moved = apply("moved", 0, [t.x, by])
    return Case(wb.ModelMethod(MethodType(Tool, "moved")), [t, by], [moved, Tool(moved, t.y, name=t.name)])


def sequence(ctx):
    args = [ctx.int(f"a{i}") for i in range(ctx.length("n", 1, 3))]
    return Case(wb.Sequence(len(args)), args, [list(args)])


def concatenation(ctx):
    args = [ints(ctx, f"l{i}") for i in range(ctx.length("n", 1, 3))]
    return Case(wb.Concatenate(len(args)), args, [[x for a in args for x in a]])


def nested(ctx):
    args = [ctx.int(f"a{i}") for i in range(3)]
    default = ctx.int("default") if ctx.flag("inner default") else None
    return Case(wb.WorkflowBlock(sub_workflow(default)), args, [sub_result(*args)], {1: default} if default is not None else {})


def for_each(ctx):
    args = [ctx.int(f"a{i}") for i in range(3)]
    index = ctx.choice("index", [0, 1, 2])
    args[index] = ints(ctx, "items", 0, 3)
    results = []
    for item in args[index]:
        one = list(args)
        one[index] = item
        results.append(sub_result(*one))
    default = ctx.int("default") if ctx.flag("inner default") else None
    return Case(wb.ForEach(wb.WorkflowBlock(sub_workflow(default)), index), args, [results],
                {1: default} if default is not None and index != 1 else {})


def unpacker(ctx):
    items = ints(ctx, "items", 3, 3)
    indices = ctx.choice("indices", [[0], [2, 0], [1, 1], [0, 1, 2], [-1, 0]])
    return Case(wb.Unpacker(list(indices)), [items], [items[i] for i in indices])


def flatten(ctx):
    lists = [ints(ctx, f"l{i}") for i in range(ctx.length("n", 0, 3))]
    return Case(wb.Flatten(), [lists], [[x for a in lists for x in a]])


def product(ctx):
    args = [ints(ctx, f"l{i}") for i in range(ctx.length("n", 1, 3))]
    expected = [()]
    for arg in args:
        expected = [combo + (x,) for combo in expected for x in arg]
    return Case(wb.Product(len(args)), args, [expected])


def filtering(ctx):
    items = [tool(ctx, f"t{i}") for i in range(ctx.length("n", 0, 2))]
    low, high = ctx.int("low"), ctx.int("high")
    logical = ctx.choice("logical", ["and", "or", "xor"])
    filters = [DessiaFilter("x", ">", low), DessiaFilter("y", "<=", high)]
    keep = {"and": lambda p, q: p and q, "or": lambda p, q: p or q, "xor": lambda p, q: p != q}[logical]
    return Case(wb.Filter(filters, logical), [items], [[t for t in items if keep(bool(t.x > low), bool(t.y <= high))]])


def attribute(ctx):
    t = tool(ctx, "t")
    t.sub = tool(ctx, "s")
    name = ctx.choice("attribute", ["x", "y", "sub/x", "name", "sub"])
    value = {"x": t.x, "y": t.y, "sub/x": t.sub.x, "name": t.name, "sub": t.sub}[name]
    return Case(wb.ModelAttribute(name), [t], [value])


def typed_attribute(ctx):
    t = tool(ctx, "t")
    name = ctx.choice("attribute", ["x", "y", "name"])
    return Case(wb.GetModelAttribute(AttributeType(Tool, name)), [t], [getattr(t, name)])


def setting(ctx):
    t, value = tool(ctx, "t"), ctx.int("value")
    name = ctx.choice("attribute", ["x", "y"])
    expected = Tool(t.x, t.y, name=t.name)
    expected.__dict__[name] = value
    return Case(wb.SetModelAttribute(AttributeType(Tool, name)), [t, value], [expected])


def addition(ctx):
    args = [ctx.int(f"a{i}") if i != 1 else ctx.real(f"a{i}") for i in range(ctx.length("n", 1, 3))]
    total = args[0]
    for a in args[1:]:
        total = total + a
    return Case(wb.Sum(len(args)), args, [total])


def subtraction(ctx):
    a, b = ctx.int("a"), ctx.real("b")
    return Case(wb.Substraction(), [a, b], [a - b])


def text(ctx):
    args = [ctx.str(f"a{i}", ctx.length(f"a{i}.n", 0, 2), LETTERS) for i in range(ctx.length("n", 1, 3))]
    separator = ctx.choice("separator", ["", "-", ", "])
    expected = args[0]
    for a in args[1:]:
        expected = expected + separator + a
    return Case(wb.ConcatenateStrings(len(args), separator), args, [expected], {i: "" for i in range(len(args))})


def export(ctx):
    t = tool(ctx, "t")
    is_text = ctx.flag("text")
    file = StringFile("out.ext") if is_text else BinaryFile("out.ext")
    (t.write_text if is_text else t.write_bytes)(file)
    return Case(wb.Export(MethodType(Tool, "write_text" if is_text else "write_bytes"), is_text, "ext", "file"),
                [t, "out"], [file], {1: "file"})


CASES = {"instantiate": instantiate, "class method": class_method, "static method": static_method,
         "model method": model_method, "following method": following_method, "changing method": changing_method,
         "sequence": sequence, "concatenate": concatenation, "nested": nested, "for each": for_each, "unpacker": unpacker,
         "flatten": flatten, "product": product, "filter": filtering, "attribute": attribute,
         "typed attribute": typed_attribute, "setting": setting, "sum": addition, "difference": subtraction,
         "strings": text, "export": export}


def plain(value):
    """ Data of a value, names included. """
    if isinstance(value, (StringFile, BinaryFile)):
        return [value.__class__.__name__, value.filename, str(value.getvalue())]
    if isinstance(value, DessiaObject):
        return [value.__class__.__name__, {k: plain(v) for k, v in value.__dict__.items()}]
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value
