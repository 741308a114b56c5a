""" Blocks with unspecified functions, and symbolic wirings of them, for the workflow harnesses. """
from dessia_common.core import DessiaObject
from dessia_common.workflow.core import Block, Pipe, Step, Variable, Workflow

RUN = {"ctx": None, "calls": []}


def start(ctx):
    """ Binds the blocks to the run of a harness. """
    RUN["ctx"] = ctx
    RUN["calls"] = []


def apply(tag, out, args):
    """ The unspecified function computed by output number out of block tag. """
    return RUN["ctx"].uf(f"{tag}.{out}", list(args))


class Op(Block):
    """ A block that computes arbitrary (uninterpreted) functions of its inputs, named alike from block to block. """

    def __init__(self, tag: str, arity: int, outs: int = 1, name: str = "Op", position=(0, 0)):
        self.tag = tag
        self.arity = arity
        self.outs = outs
        super().__init__(inputs=[Variable(type_=int, name=f"in{i}") for i in range(arity)],
                         outputs=[Variable(type_=int, name=f"out{i}") for i in range(outs)],
                         name=name, position=position)

    @classmethod
    def dict_to_object(cls, dict_, **kwargs):
        """ As the blocks of the library do. """
        block = cls(tag=dict_["tag"], arity=dict_["arity"], outs=dict_["outs"], name=dict_["name"],
                    position=dict_["position"])
        block.deserialize_variables(dict_)
        return block

    def equivalent_hash(self):
        return len(self.tag) + 5 * self.arity + 11 * self.outs

    def equivalent(self, other):
        return super().equivalent(other) and (self.tag, self.arity, self.outs) == (other.tag, other.arity, other.outs)

    def evaluate(self, values, **kwargs):
        args = [values[i] for i in self.inputs]
        RUN["calls"].append((self.tag, args))
        return [apply(self.tag, k, args) for k in range(self.outs)]


PERMUTATIONS = {1: [(0,)], 2: [(0, 1), (1, 0)],
                3: [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]}


class Flow:
    """ A wiring: what each input of each block is fed by. """

    def __init__(self, blocks, sources, nbvs, output, order=None, reverse_pipes=False, build=True, **kwargs):
        self.ops = blocks                        # in dependency order
        self.sources = sources                   # sources[b][i] = None | ("nbv", j) | ("out", b, k)
        self.nbvs = nbvs
        self.output = output                     # (b, k)
        order = order or tuple(range(len(blocks)))
        self.order = order
        self.pipes = []
        for b, feeds in enumerate(sources):
            for i, source in enumerate(feeds):
                if source is None:
                    continue
                upstream = nbvs[source[1]] if source[0] == "nbv" else blocks[source[1]].outputs[source[2]]
                self.pipes.append(Pipe(upstream, blocks[b].inputs[i]))
        if reverse_pipes:
            self.pipes.reverse()
        self.workflow = None
        if build:
            self.workflow = Workflow([blocks[i] for i in order], self.pipes,
                                     blocks[output[0]].outputs[output[1]], **kwargs)

    def free_inputs(self):
        """ The variables that must be workflow inputs: unfed block inputs and connected non-block variables. """
        res = [self.ops[b].inputs[i] for b, feeds in enumerate(self.sources) for i, s in enumerate(feeds) if s is None]
        used = [s[1] for feeds in self.sources for s in feeds if s is not None and s[0] == "nbv"]
        return res + [v for j, v in enumerate(self.nbvs) if j in used]

    def needed(self, b=None):
        """ Blocks the output (or block b) depends on, itself included. """
        todo, seen = [self.output[0] if b is None else b], []
        while todo:
            b = todo.pop()
            if b not in seen:
                seen.append(b)
                todo.extend(s[1] for s in self.sources[b] if s is not None and s[0] == "out")
        return sorted(seen)

    def expected(self, values):
        """ {block: its output values} by composition; values: [(variable, value)]. """
        results = {}

        def read(var):
            for v, value in values:
                if v is var:
                    return value
            raise KeyError(var.name)
        for b, op in enumerate(self.ops):
            args = []
            for i, s in enumerate(self.sources[b]):
                if s is None:
                    args.append(read(op.inputs[i]))
                elif s[0] == "nbv":
                    args.append(read(self.nbvs[s[1]]))
                else:
                    args.append(results[s[1]][1][s[2]])
            results[b] = (args, [apply(op.tag, k, args) for k in range(op.outs)])
        return results


def position_of(items, item):
    """ Index by identity. """
    for i, x in enumerate(items):
        if x is item:
            return i
    return None


def three(ctx, orders=True, outs=1, second_output=True, build=True, **kwargs):
    """ Any wiring of three blocks (1, 2 and 2 inputs), two non-block variables, in any listing order. """
    blocks = [Op("f", 1, 2), Op("g", 2, 1), Op("h", 2, outs)]
    nbvs = [Variable(type_=int, name="in0")]
    sources = [[ctx.choice("f0", [None, ("nbv", 0)])],
               [ctx.choice("g0", [None, ("nbv", 0), ("out", 0, 0), ("out", 0, 1)]),
                ctx.choice("g1", [None, ("out", 0, 0)])],
               [ctx.choice("h0", [None, ("nbv", 0), ("out", 0, 1), ("out", 1, 0)]),
                ctx.choice("h1", [None, ("out", 0, 0), ("out", 1, 0)])]]
    output = ctx.choice("output", [(2, 0), (1, 0)]) if second_output else (2, 0)
    order = ctx.choice("order", PERMUTATIONS[3]) if orders else (0, 1, 2)
    reverse = ctx.flag("reverse pipes") if orders else False
    return Flow(blocks, sources, nbvs, output, order, reverse, build, **kwargs)


class View(Op):
    """ A display block: evaluated on demand, on a finished run, from the values memorised for it. """
    _displayable_input = 0
    selector = None
    type_ = "view"

    def _display_settings(self, block_index, reference_path="#"):
        return None


def displayed(ctx):
    """ A workflow of two blocks and two steps, the second of which may show what a block computes. """
    ops = [Op("f", 2, 1), Op("g", 2, 1)]
    for op in ops:
        op.outputs[0].type_ = DessiaObject
    flow = Flow(ops, [[None, None], [("out", 0, 0), None]], [], (1, 0), build=False)
    steps = [Step("s"), Step("t", documentation="doc")]
    for i, v in enumerate([ops[0].inputs[0], ops[0].inputs[1], ops[1].inputs[1]]):
        where = ctx.choice(f"where{i}", ["first", "second", "spare"])
        if where != "spare":
            steps[where == "second"].inputs.append(v)
    workflow = Workflow(ops, flow.pipes, ops[1].outputs[0], steps=steps, name="wf")
    shown = ctx.choice("shown", ["none", "first", "second"])
    if shown != "none":
        variable = ops[shown == "second"].outputs[0]
        workflow.add_step_display(position_of(workflow.variables, variable), 1, "Markdown")
    return workflow


def variables_outside(ctx, **kwargs):
    """ Two blocks, each input free, fed by the first block or by one of two non-block variables named alike or not. """
    ops = [Op("f", 2, 1), Op("g", 2, 1)]
    nbvs = [Variable(type_=int, name="in0", label="a", position=(1, 2)),
            Variable(type_=int, name=ctx.choice("second name", ["in0", "other"]), label="a", position=(1, 2))]
    feeds = [None, ("nbv", 0), ("nbv", 1)]
    sources = [[ctx.choice("f0", feeds), ctx.choice("f1", feeds)], [ctx.choice("g0", feeds), ("out", 0, 0)]]
    if ctx.flag("wired first"):
        sources[1].reverse()
    return Flow(ops, sources, nbvs, (1, 0), (1, 0) if ctx.flag("backwards") else None, ctx.flag("reverse"), **kwargs)


def wide_flow(ctx, **kwargs):
    """ More than ten blocks, pipes, ports and variables outside of blocks. """
    fed = ctx.choice("fed", [0, 5, 11])
    outside = ctx.choice("outside", [0, 11]) if fed != 11 else 0
    blocks = [Op(f"b{i}", 1) for i in range(fed)] + [Op("last", 12, 2)]
    nbvs = [Variable(type_=int, name=f"out{i}") for i in range(outside)]
    last = []
    for i in range(12):
        if i < fed and (7 * i) % 11 < fed:
            last.append(("out", (7 * i) % 11, 0))
        else:
            last.append(("nbv", (5 * i) % 11) if outside else None)
    used = sorted({s[1] for s in last if s and s[0] == "nbv"})
    last = [("nbv", used.index(s[1])) if s and s[0] == "nbv" else s for s in last]
    nbvs = [nbvs[i] for i in used]
    count = len(blocks)
    order = tuple(range(count))[::-1] if ctx.flag("backwards") else None
    return Flow(blocks, [[None]] * fed + [last], nbvs, (count - 1, ctx.choice("output", [0, 1])), order, **kwargs)
