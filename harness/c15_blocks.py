""" C15: standard workflow blocks compute what they are documented to compute. """
from zipfile import ZipFile

from dessia_common.files import BinaryFile, StringFile
from dessia_common.typings import MethodType
from dessia_common.workflow import blocks as wb
from dessia_common.workflow.core import Pipe, Variable, Workflow
from symex.ctx import harness
from harness.flows import RUN, start
from harness.models import LETTERS
from harness.stdblocks import CASES, Tool, plain


@harness("C15", bounds="20 kinds of blocks, 1..3 inputs, lists of 0..3 elements, integers, reals, strings (<= 2) and objects",
         shards=8)
def evaluation(ctx):
    """ Each block alone. """
    start(ctx)
    case = CASES[ctx.choice("block", list(CASES))](ctx)
    block, args = case.block, case.args
    ctx.check(len(block.inputs) == len(args), "one input per argument")
    pairs = list(zip(block.inputs, args))
    before = [plain(a) for a in args]
    results = block.evaluate(dict(pairs))
    ctx.check(len(results) == len(block.outputs) == len(case.outputs), "one value per output")
    ctx.check(ctx.same(plain(results), plain(case.outputs)), "the documented values")
    if block.__class__ is not wb.SetModelAttribute and getattr(block, "method_type", None) is None:
        ctx.check(ctx.same([plain(a) for a in args], before), "inputs are left as they were")


@harness("C15", bounds="the same blocks in a workflow: inputs entered, fed by a variable, or left to their defaults", shards=8)
def in_workflow(ctx):
    """ Each block as part of a workflow. """
    start(ctx)
    kind = ctx.choice("block", list(CASES))
    case = CASES[kind](ctx)
    block, args = case.block, list(case.args)
    way = ctx.choice("way", ["entered", "piped", "defaults"])
    pipes = []
    if way == "piped":
        nbv = Variable(name="fed", type_=block.inputs[-1].type_)
        pipes = [Pipe(nbv, block.inputs[-1])]
    workflow = Workflow([block], pipes, block.outputs[0], name="wf")
    if way == "defaults":
        ctx.assume(len(case.optional) > 0)
        values = {i: a for i, a in enumerate(args) if i not in case.optional}
        defaults = {i.name: i.default_value for i in block.inputs if i.has_default_value}
        ctx.check(ctx.same(defaults, {block.inputs[i].name: v for i, v in case.optional.items()}),
                  "default values are those of the signature")
        run = workflow.run(values)
        ctx.check(run.output_value is not None, "the block runs on its defaults")
        return
    values = dict(enumerate(args))      # a non-block variable is the last input of the workflow, as its target was
    run = workflow.run(values)
    ctx.check(ctx.same(plain(run.output_value), plain(case.outputs[0])), "the documented value")


class Grumpy(Tool):
    """ A model whose method fails. """

    def failing(self, factor: int) -> int:
        """ Counts its calls, then raises. """
        RUN["calls"].append(factor)
        raise TypeError("cannot do this")


@harness("C15", bounds="a method that raises, any argument", shards=1)
def failures(ctx):
    """ A failing method is called once, and its error is the one seen. """
    start(ctx)
    block = wb.ModelMethod(MethodType(Grumpy, "failing"))
    factor = ctx.int("factor")
    try:
        block.evaluate(dict(zip(block.inputs, [Grumpy(1), factor])))
        raised = False
    except TypeError:
        raised = True
    ctx.check(raised, "the error of the method is seen")
    ctx.check(ctx.same(RUN["calls"], [factor]), "the method was called once")


@harness("C15", bounds="1..2 files of each kind, in an archive", shards=1)
def archives(ctx):
    """ An archive holds every file given, under its name. """
    n = ctx.length("n", 1, 2)
    files = []
    for i in range(n):
        file = StringFile(f"file{i}.txt") if ctx.flag(f"text{i}") else BinaryFile(f"file{i}.bin")
        content = ctx.choice(f"content{i}", ["", "abc"])
        file.write(content if isinstance(file, StringFile) else content.encode())
        files.append((file, content))
    block = wb.Archive(n, filename="arch")
    archive = block.evaluate(dict(zip(block.inputs, [f for f, _ in files] + ["all"])))[0]
    ctx.check(archive.filename == "all.zip", "the archive is named as asked")
    archive.seek(0)
    with ZipFile(archive) as zipped:
        ctx.check(zipped.namelist() == [f.filename for f, _ in files], "one entry per file, in order")
        for f, content in files:
            ctx.check(zipped.read(f.filename).decode() == content, "with its content")


@harness("C15", bounds="11 or 12 inputs of Sequence, Concatenate and ConcatenateStrings; 3 indices among 12 elements of Unpacker")
def wide(ctx):
    """ More than ten inputs or elements. """
    count = ctx.choice("count", [11, 12])
    kind = ctx.choice("block", ["sequence", "concatenate", "strings", "unpacker", "in workflow"])
    numbers = [ctx.int(f"v{i}") for i in range(count)]
    if kind in ("sequence", "in workflow"):
        block, args, expected = wb.Sequence(count), numbers, [numbers]
    elif kind == "concatenate":
        block, args, expected = wb.Concatenate(count), [[n] for n in numbers], [numbers]
    elif kind == "strings":
        texts = [ctx.str(f"s{i}", 1, LETTERS) for i in range(count)]
        block, args, expected = wb.ConcatenateStrings(count, ", "), texts, [", ".join(texts)]
    else:
        indices = ctx.choice("indices", [[10, 2, 1], [0, 10, 9], [-1, -11, 10], list(range(count))])
        block, args, expected = wb.Unpacker(list(indices)), [numbers], [numbers[i] for i in indices]
    if kind == "in workflow":
        workflow = Workflow([block], [], block.outputs[0])
        ctx.check(ctx.same(workflow.run(dict(enumerate(args))).output_value, expected[0]), "the documented value")
        return
    results = block.evaluate(dict(zip(block.inputs, args)))
    ctx.check(ctx.same(list(results), expected), "the documented values")
