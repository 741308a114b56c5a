""" C29: running the script of a workflow rebuilds it. """
from typing import Any, Dict, List, Optional, Tuple, Union

from dessia_common.core import DessiaFilter, DessiaObject
from dessia_common.files import StringFile
from dessia_common.typings import (AttributeType, CadViewType, ClassMethodType, InstanceOf, MarkdownType, MethodType,
                                   PlotDataType)
from dessia_common.workflow import blocks as wb
from dessia_common.workflow.core import Pipe, Variable, Workflow
from harness.stdblocks import Tool
from symex.ctx import harness

# anything printable, quotes, backslashes and ends of lines included
CHARACTERS = [(32, 126), "\n\r"]


def method(type_):
    """ What a method or attribute type points. """
    return [type_.__class__.__name__, type_.class_, type_.name]


def one_filter(f):
    return [f.attribute, f.comparison_operator, f.bound, f.name]


def view(v):
    return [v.__class__.__name__, list(v.attributes), v.name]


def display(b):
    return [method(b.selector), b.load_by_default]


# Settings of each kind of block
SETTINGS = {
    wb.InstantiateModel: lambda b: [b.model_class], wb.ClassMethod: lambda b: method(b.method_type),
    wb.ModelMethod: lambda b: method(b.method_type), wb.Sequence: lambda b: [len(b.inputs)],
    wb.Concatenate: lambda b: [len(b.inputs)], wb.WorkflowBlock: lambda b: [described(b.workflow)],
    wb.ForEach: lambda b: [settings(b.workflow_block), b.iter_input_index], wb.Unpacker: lambda b: [list(b.indices)],
    wb.Flatten: lambda b: [], wb.Product: lambda b: [len(b.inputs)],
    wb.Filter: lambda b: [[one_filter(f) for f in b.filters], b.logical_operator],
    wb.MultiPlot: lambda b: [list(b.attributes)] + display(b),
    wb.DeprecatedMultiPlot: lambda b: [list(b.attributes), b.load_by_default],
    wb.MultiObject: lambda b: [[view(v) for v in b.configurations]] + display(b),
    wb.Markdown: display, wb.PlotData: display, wb.CadView: display,
    wb.ModelAttribute: lambda b: [b.attribute_name], wb.GetModelAttribute: lambda b: method(b.attribute_type),
    wb.SetModelAttribute: lambda b: method(b.attribute_type), wb.Sum: lambda b: [len(b.inputs)],
    wb.Substraction: lambda b: [], wb.ConcatenateStrings: lambda b: [len(b.inputs), b.separator],
    wb.Export: lambda b: [method(b.method_type), b.filename, b.extension, b.text],
    wb.Archive: lambda b: [len(b.inputs), b.filename]}


def settings(block):
    """ Kind, settings, name, position and locks of a block. """
    locks = [[v.locked, v.default_value if v.locked else None] for v in block.inputs]
    return [block.__class__.__name__, block.name, list(block.position), SETTINGS[type(block)](block), locks,
            len(block.outputs)]


def outside(variable):
    """ A variable that no block holds. """
    return [variable.name, variable.label, list(variable.position), wrapped(variable.type_), variable.locked,
            variable.default_value if variable.locked else None]


def wrapped(type_):
    """ Scripts write optional types as the types they wrap. """
    return {Optional[int]: int, Optional[List[int]]: List[int], Optional[Tool]: Tool}.get(type_, type_)


def address(workflow, variable):
    """ Where a variable is, found by identity. """
    for i, block in enumerate(workflow.blocks):
        for side, ports in enumerate([block.inputs, block.outputs]):
            for k, port in enumerate(ports):
                if port is variable:
                    return [i, side, k]
    return outside(variable)


def described(workflow):
    """ All that a script carries of a workflow. """
    return [workflow.name, workflow.description, workflow.documentation, [settings(b) for b in workflow.blocks],
            [[address(workflow, p.input_variable), address(workflow, p.output_variable)] for p in workflow.pipes],
            address(workflow, workflow.output)]


def same(ctx, a, b):
    """ Condition: b, which comes from a script, is a. """
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return ctx.all_([same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        pairs = [[ctx.all_([same(ctx, k, ctx.read(k2)), same(ctx, v, b[k2])]) for k2 in b] for k, v in a.items()]
        return ctx.all_([ctx.any_(conditions) for conditions in pairs])
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        return ctx.eq(a, ctx.read(b))
    if isinstance(a, bool) != isinstance(b, bool) or (a is None) != (b is None):
        return False
    return ctx.eq(a, b)


def rebuilt(ctx, workflow):
    """ The workflow the script of this one makes. """
    return ctx.run_script(workflow.to_script())["workflow"]


def text(ctx, tag, most=1):
    return ctx.str(tag, ctx.length(f"{tag}.n", 0, most), CHARACTERS)


def literal(ctx, tag):
    """ A value that can be written in a script. """
    kind = ctx.choice(tag, ["int", "text", "float", "flag", "list", "pair", "map", "none", "nothing"])
    if kind == "int":
        return ctx.int(f"{tag}.int")
    if kind == "text":
        return ctx.str(f"{tag}.text", 1, CHARACTERS)
    if kind == "float":
        return ctx.real(f"{tag}.float")
    if kind == "flag":
        return ctx.flag(f"{tag}.flag")
    if kind == "list":
        return [ctx.int(f"{tag}.0"), ctx.str(f"{tag}.1", 1, CHARACTERS), [ctx.real(f"{tag}.2")]]
    if kind == "pair":
        return (ctx.int(f"{tag}.0"), None)
    if kind == "map":
        return {"k": ctx.int(f"{tag}.0"), "l": [ctx.flag(f"{tag}.flag")]}
    return None if kind == "none" else []


def position(ctx, tag):
    return (ctx.real(f"{tag}.x"), ctx.real(f"{tag}.y"))


def common(ctx):
    return {"name": text(ctx, "name", ctx.bound(1, 2)), "position": position(ctx, "p")}


def inner(**texts):
    """ A small workflow to nest. """
    gather = wb.Sequence(2, name="inner")
    return Workflow([gather], [], gather.outputs[0], **{"name": "nested", **texts})


def kinds(ctx):
    """ One block of each kind, with symbolic settings. """
    number = ctx.bound(3, 4)
    chosen = {
        "instantiate": lambda k: wb.InstantiateModel(Tool, **k),
        "class method": lambda k: wb.ClassMethod(ClassMethodType(Tool, ctx.choice("method", ["made", "mixed"])), **k),
        "method": lambda k: wb.ModelMethod(MethodType(Tool, ctx.choice("method", ["scaled", "m"])), **k),
        "sequence": lambda k: wb.Sequence(ctx.length("n", 1, number), **k),
        "concatenate": lambda k: wb.Concatenate(ctx.length("n", 1, number), **k),
        "workflow": lambda k: wb.WorkflowBlock(inner(), **k),
        "for each": lambda k: wb.ForEach(wb.WorkflowBlock(inner(), name="wb"), ctx.choice("index", [0, 1]), **k),
        "unpacker": lambda k: wb.Unpacker(ctx.choice("indices", [[0], [2, 0], [1, 1], [-1]]), **k),
        "flatten": lambda k: wb.Flatten(**k),
        "product": lambda k: wb.Product(ctx.length("n", 1, number), **k),
        "filter": lambda k: wb.Filter(some_filters(ctx), ctx.choice("logical", ["and", "or", "xor"]), **k),
        "multiplot": lambda k: wb.MultiPlot(text(ctx, "selector"), ["x", ctx.str("attribute", 1, CHARACTERS)],
                                            ctx.flag("load"), **k),
        "deprecated multiplot": lambda k: wb.DeprecatedMultiPlot(["x", ctx.str("attribute", 1, CHARACTERS)],
                                                                 ctx.flag("load"), **k),
        "multiobject": lambda k: wb.MultiObject("views", some_views(ctx), ctx.flag("load"), **k),
        "markdown": lambda k: wb.Markdown(MarkdownType(Tool, text(ctx, "selector")), load_by_default=ctx.flag("load"),
                                          **k),
        "plot": lambda k: wb.PlotData(PlotDataType(Tool, text(ctx, "selector")), load_by_default=ctx.flag("load"), **k),
        "cad": lambda k: wb.CadView(CadViewType(Tool, text(ctx, "selector")), load_by_default=ctx.flag("load"), **k),
        "attribute": lambda k: wb.ModelAttribute(text(ctx, "attribute", 2), **k),
        "get": lambda k: wb.GetModelAttribute(AttributeType(Tool, ctx.choice("attribute", ["x", "y"])), **k),
        "set": lambda k: wb.SetModelAttribute(AttributeType(Tool, ctx.choice("attribute", ["x", "y"])), **k),
        "sum": lambda k: wb.Sum(ctx.length("n", 1, number), **k),
        "difference": lambda k: wb.Substraction(**k),
        "strings": lambda k: wb.ConcatenateStrings(ctx.length("n", 1, number), text(ctx, "separator"), **k),
        "export": lambda k: wb.Export(MethodType(Tool, "write_text"), ctx.flag("is text"), ctx.str("ext", 1, CHARACTERS),
                                      ctx.str("file", 1, CHARACTERS), **k),
        "archive": lambda k: wb.Archive(ctx.length("n", 1, number), ctx.str("file", 1, CHARACTERS), **k)}
    return chosen[ctx.choice("kind", sorted(chosen))](common(ctx))


# One block of each kind, with plain settings
PLAIN = {
    "instantiate": lambda: wb.InstantiateModel(Tool), "class method": lambda: wb.ClassMethod(ClassMethodType(Tool, "made")),
    "method": lambda: wb.ModelMethod(MethodType(Tool, "scaled")), "sequence": lambda: wb.Sequence(2),
    "concatenate": lambda: wb.Concatenate(2), "workflow": lambda: wb.WorkflowBlock(inner()),
    "for each": lambda: wb.ForEach(wb.WorkflowBlock(inner()), 0), "unpacker": lambda: wb.Unpacker([1]),
    "flatten": wb.Flatten, "product": lambda: wb.Product(2), "filter": lambda: wb.Filter([DessiaFilter("x", ">", 1)], "or"),
    "multiplot": lambda: wb.MultiPlot("m", ["x"]), "deprecated multiplot": lambda: wb.DeprecatedMultiPlot(["x"]),
    "multiobject": lambda: wb.MultiObject("o", [wb.ScatterView(("x", "y")), wb.ParallelView(["x"])]),
    "markdown": lambda: wb.Markdown(MarkdownType(Tool, "d")), "plot": lambda: wb.PlotData(PlotDataType(Tool, "p")),
    "cad": lambda: wb.CadView(CadViewType(Tool, "c")), "attribute": lambda: wb.ModelAttribute("x"),
    "get": lambda: wb.GetModelAttribute(AttributeType(Tool, "x")), "set": lambda: wb.SetModelAttribute(AttributeType(Tool, "x")),
    "sum": wb.Sum, "difference": wb.Substraction, "strings": lambda: wb.ConcatenateStrings(2),
    "export": lambda: wb.Export(MethodType(Tool, "write_text"), True, "txt", "file"), "archive": lambda: wb.Archive(1)}


def some_filters(ctx):
    filters = [DessiaFilter("x", ">", ctx.int("bound")), DessiaFilter(text(ctx, "attr"), "==", ctx.str("b", 1, CHARACTERS))]
    return filters[:ctx.length("filters", 0, 2)]


def some_views(ctx):
    views = [wb.ScatterView(("x", ctx.str("attribute", 1, CHARACTERS)), text(ctx, "view")), wb.ParallelView(["x"]),
             wb.ParallelView([])]
    return ctx.choice("views", [views[:1], views[1:], [views[1], views[0]], []])


@harness("C29", "pairs", shards=2, budget=120,
         bounds="a block of each kind, next to a block of each kind or to a free variable of 19 types")
def pairs(ctx):
    """ Blocks and variables of any kinds are rebuilt next to each other. """
    first = PLAIN[ctx.choice("first", sorted(PLAIN))]()
    blocks, pipes = [first], []
    if ctx.flag("variable"):
        pipes.append(Pipe(Variable(type_=ctx.choice("type", TYPES), name="v"), first.inputs[0]))
    else:
        blocks.append(PLAIN[ctx.choice("second", sorted(PLAIN))]())
    workflow = Workflow(blocks, pipes, first.outputs[0], name="pair")
    ctx.scripts()
    ctx.check(same(ctx, described(workflow), described(rebuilt(ctx, workflow))), "the workflow is rebuilt")


def locked(ctx, block):
    """ One of the inputs of the block, perhaps locked. """
    i = ctx.choice("lock", [None, 0, len(block.inputs) - 1])
    if i is not None:
        block.inputs[i].lock(literal(ctx, "locked"))


@harness("C29", "kinds", shards=4, budget=240,
         bounds="each kind of block, with any name of at most 1 printable character or end of line (2 in the thorough "
                "tier) and any position; texts of the settings of 1 such character; 1 to 3 (4) inputs")
def block_kinds(ctx):
    """ A workflow of one block, of any kind and settings. """
    block = kinds(ctx)
    workflow = Workflow([block], [], block.outputs[0], name="one")
    ctx.scripts()
    ctx.check(same(ctx, described(workflow), described(rebuilt(ctx, workflow))), "the block is rebuilt")


@harness("C29", "locks", shards=4, budget=240,
         bounds="a block of 2 inputs whose first or last input is locked, or a free variable: on any number, character, "
                "flag, missing value, or nested container of these, over or without a default value")
def locks(ctx):
    """ Locked inputs are locked on the same values. """
    block = ctx.choice("block", [wb.Sequence, wb.ConcatenateStrings])(2)
    locked(ctx, block)
    variable = Variable(name="v")
    if ctx.flag("locked variable"):
        variable.lock(ctx.choice("held", [ctx.int("v.int"), ctx.str("v.text", 1, CHARACTERS), [ctx.int("v.0")]]))
    after = wb.Flatten()
    workflow = Workflow([block, after], [Pipe(variable, after.inputs[0])], block.outputs[0], name="locks")
    ctx.scripts()
    again = rebuilt(ctx, workflow)
    ctx.check(same(ctx, described(workflow), described(again)), "the workflow is rebuilt")
    for v, v2 in zip(workflow.inputs, again.inputs):
        ctx.check(v.locked == v2.locked, "the same workflow inputs are locked")


TYPES = [int, str, float, bool, List[int], Dict[str, int], Tuple[int, str], Tuple[int, ...], Union[Tool, DessiaObject],
         Tool, List[Tool], Dict[str, List[Tool]], InstanceOf[Tool], Any, None, Optional[int], Optional[List[int]],
         Optional[Tool], StringFile]


@harness("C29", "variables", shards=2, budget=120,
         bounds="2 free variables, of 19 types and any position, with names and labels of at most 1 printable character "
                "or end of line, feeding 3 inputs in any way")
def variables(ctx):
    """ Free variables are rebuilt with their types, names, labels and positions. """
    first = Variable(type_=ctx.choice("type", TYPES), name=text(ctx, "name"), label=text(ctx, "label"),
                     position=position(ctx, "p"))
    second = Variable(type_=List[str], name="second", label="2")
    block, other = wb.Sequence(2), wb.Flatten()
    pipes = [Pipe(first, block.inputs[0])]
    feed = ctx.choice("feed", ["apart", "swapped", "shared"])
    if feed != "shared":
        pipes.append(Pipe(second, block.inputs[1]))
    if feed == "swapped":
        pipes.reverse()
    pipes.append(Pipe(first if feed == "shared" else second, other.inputs[0]))
    workflow = Workflow([block, other], pipes, block.outputs[0], name="variables")
    ctx.scripts()
    again = rebuilt(ctx, workflow)
    ctx.check(same(ctx, described(workflow), described(again)), "the workflow is rebuilt")
    ctx.check(same(ctx, [outside(v) for v in workflow.nonblock_variables],
                   [outside(v) for v in again.nonblock_variables]), "the free variables are in the same order")


@harness("C29", "wirings", shards=4, budget=240,
         bounds="3 blocks of 2, 2 and 3 inputs (one of 2 outputs) and 2 free variables, wired in any way, listed in any "
                "order, either output")
def wirings(ctx):
    """ The same pipes, in the same order, whatever the wiring. """
    f, g, h = wb.Unpacker([0, 1], name="f"), wb.Sum(2, name="g"), wb.Sequence(3, name="h")
    outside_ = [Variable(type_=int, name="a"), Variable(type_=int, name="b")]
    feeds = [(f.inputs[0], [None, outside_[0]]),
             (g.inputs[0], [None, outside_[1], f.outputs[0], f.outputs[1]]), (g.inputs[1], [None, f.outputs[0]]),
             (h.inputs[0], [None, outside_[0], f.outputs[1], g.outputs[0]]), (h.inputs[1], [None, g.outputs[0]]),
             (h.inputs[2], [outside_[1], f.outputs[0]])]
    pipes = []
    for i, (port, sources) in enumerate(feeds):
        source = ctx.choice(f"feed{i}", sources)
        if source is not None:
            pipes.append(Pipe(source, port))
    if ctx.flag("reverse"):
        pipes.reverse()
    blocks = ctx.choice("order", [[f, g, h], [h, g, f], [g, h, f]])
    workflow = Workflow(blocks, pipes, ctx.choice("output", [h.outputs[0], f.outputs[1]]), name="wired")
    ctx.scripts()
    again = rebuilt(ctx, workflow)
    ctx.check(same(ctx, described(workflow), described(again)), "the workflow is rebuilt")
    ctx.check(again == workflow, "the rebuilt workflow is equal")


@harness("C29", "documentations", shards=2, budget=120,
         bounds="documentation, description or name of at most 3 (4 in the thorough tier) printable characters or ends "
                "of lines, of the workflow or of a nested one")
def documentations(ctx):
    """ Documentations, descriptions and names are kept as they are, quotes and ends of lines included. """
    written = ctx.choice("written", ["documentation", "description", "name"])
    texts = {"documentation": "about", written: text(ctx, written, ctx.bound(3, 4))}
    if ctx.flag("nested"):
        block = wb.WorkflowBlock(inner(**texts))
        workflow = Workflow([block], [], block.outputs[0], documentation="outer", description="all of it", name="w")
    else:
        workflow = inner(**texts)
    ctx.scripts()
    ctx.check(same(ctx, described(workflow), described(rebuilt(ctx, workflow))), "the workflow is rebuilt")


def sub_workflow(ctx, tag, depth):
    """ A workflow to nest, with a free variable, a locked input and perhaps workflows of its own. """
    gather, flat = wb.Sequence(2, name=f"{tag}.gather"), wb.Flatten(name=f"{tag}.flat")
    free = Variable(type_=int, name=f"{tag}.free", label=f"{tag}.label")
    blocks, pipes = [gather, flat], [Pipe(free, gather.inputs[0]), Pipe(gather.outputs[0], flat.inputs[0])]
    if ctx.flag(f"{tag}.locked"):
        gather.inputs[1].lock(ctx.int(f"{tag}.lock"))
    if depth:
        deeper = nesting(ctx, f"{tag}.in", depth - 1)
        blocks.append(deeper)
        pipes.append(Pipe(flat.outputs[0], deeper.inputs[0]))
    return Workflow(blocks, pipes, blocks[-1].outputs[0], documentation=f"{tag} documentation",
                    description=f"about {tag}", name=f"{tag}.workflow")


def nesting(ctx, tag, depth):
    """ A block that runs a workflow, once or for each item. """
    block = wb.WorkflowBlock(sub_workflow(ctx, tag, depth), name=f"{tag}.block")
    if ctx.flag(f"{tag}.each"):
        return wb.ForEach(block, ctx.choice(f"{tag}.index", [0, len(block.inputs) - 1]), name=f"{tag}.for each",
                          position=(1, 2))
    return block


@harness("C29", "nested", shards=4, budget=300,
         bounds="2 blocks that run a workflow, once or for each item of either input, one nested in another or next to "
                "it, each with a free variable, a pipe and perhaps an input locked on any number")
def nested(ctx):
    """ Nested workflows are rebuilt in their places. """
    if ctx.flag("deep"):
        blocks = [nesting(ctx, "a", 1)]
    else:
        blocks = [nesting(ctx, "a", 0), nesting(ctx, "b", 0)]
    blocks.insert(0, wb.Flatten(name="first"))
    pipes = [Pipe(blocks[0].outputs[0], blocks[-1].inputs[0])]
    workflow = Workflow(blocks, pipes, blocks[-1].outputs[0], documentation="outer documentation", name="outer")
    ctx.scripts()
    again = rebuilt(ctx, workflow)
    ctx.check(same(ctx, described(workflow), described(again)), "the workflow is rebuilt")


@harness("C29", "runs", shards=8, budget=300,
         bounds="a run of a workflow of 2 or 3 blocks, a nested workflow perhaps, with 2 free variables (one perhaps "
                "unused) and free inputs, one perhaps locked or with a default value, on any literal values")
def runs(ctx):
    """ The script of a run makes the same workflow again, and runs it on the same values. """
    gather, each = wb.Sequence(3, name="gather"), wb.Sequence(2, name="each")
    free, other = Variable(type_=Dict[str, int], name="free"), Variable(name="other")
    pipes = [Pipe(free, gather.inputs[1])]
    if ctx.flag("other"):
        pipes.insert(ctx.choice("place", [0, 1]), Pipe(other, each.inputs[0]))
    if ctx.flag("piped"):
        pipes.append(Pipe(each.outputs[0], gather.inputs[2]))
    blocks = [gather, each]
    if ctx.flag("nested"):
        small = wb.Sequence(2, name="small")
        pipe = [Pipe(Variable(type_=int, name="in"), small.inputs[1])] if ctx.flag("inner variable") else []
        block = wb.WorkflowBlock(Workflow([small], pipe, small.outputs[0], name="sub"), name="sub")
        blocks.insert(ctx.choice("nested place", [0, 2]), block)
        pipes.append(Pipe(block.outputs[0], each.inputs[1]))
    state = ctx.choice("state", ["free", "default", "locked"])
    if state == "locked":
        gather.inputs[0].lock(ctx.int("lock"))
    elif state == "default":
        gather.inputs[0].default_value = ctx.int("default")
    workflow = Workflow(blocks, pipes, gather.outputs[0], name="run")
    special = ctx.choice("special", list(range(len(workflow.inputs))))
    values = {i: literal(ctx, "value") if i == special else ctx.int(f"value{i}")
              for i, v in enumerate(workflow.inputs) if v is not gather.inputs[0] or state == "free"}
    run = workflow.run(values)
    ctx.scripts()
    stream = StringFile("script.py")
    run.save_script_to_stream(stream)
    names = ctx.run_script(stream.getvalue())
    ctx.check(same(ctx, described(workflow), described(names["workflow"])), "the workflow is rebuilt")
    again = names["workflow_run"]
    ctx.check(same(ctx, run.input_values, again.input_values), "the run has the same input values")
    ctx.check(same(ctx, run.output_value, again.output_value), "the run has the same output")


@harness("C29", "saved", bounds="a workflow of any name and documentation of one printable character or end of line",
         budget=60)
def saved(ctx):
    """ A saved script is the script; a workflow without an output has none. """
    block = wb.Sequence(1, name=text(ctx, "name"))
    workflow = Workflow([block], [], block.outputs[0], documentation=text(ctx, "doc"), name="saved")
    ctx.scripts()
    stream = StringFile("script.py")
    workflow.save_script_to_stream(stream)
    ctx.check(same(ctx, described(workflow), described(ctx.run_script(stream.getvalue())["workflow"])),
              "the saved script rebuilds the workflow")
    try:
        Workflow([wb.Sequence(1)], [], None).to_script()
        refused = False
    except ValueError:
        refused = True
    ctx.check(refused, "a workflow without an output has no script")


@harness("C29", "many", bounds="12 or 13 blocks in a chain, a free variable for any one of them, blocks listed in 2 orders")
def many(ctx):
    """ Names of blocks, variables and pipes with two digits. """
    count = ctx.choice("count", [12, 13])
    blocks = [wb.Sequence(2, name=f"s{i}") for i in range(count)]
    frees = [Variable(name="free", type_=int), Variable(name="other", type_=int)]
    at = ctx.choice("at", [1, 10, 11])
    pipes = [Pipe(a.outputs[0], b.inputs[i % 2]) for i, (a, b) in enumerate(zip(blocks, blocks[1:]))]
    pipes += [Pipe(frees[0], blocks[0].inputs[1]), Pipe(frees[1], blocks[at].inputs[at % 2])]
    order = blocks[::-1] if ctx.flag("backwards") else blocks[5:] + blocks[:5]
    workflow = Workflow(order, pipes, blocks[-1].outputs[0], name="many")
    ctx.scripts()
    again = rebuilt(ctx, workflow)
    ctx.check(same(ctx, described(workflow), described(again)), "the workflow is rebuilt")
    ctx.check(again == workflow, "the rebuilt workflow is equal")
