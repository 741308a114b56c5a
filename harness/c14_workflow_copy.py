""" C14: workflow copies are equivalent and independent. """
from copy import deepcopy

from dessia_common.typings import MarkdownType
from dessia_common.workflow import blocks
from dessia_common.workflow.core import Block, Step, Variable, Workflow
from symex.ctx import harness
from harness.c13_workflow_dict import WIRINGS, addresses, describe, port
from harness.flows import Flow, Op, RUN, View, displayed, position_of, start, three, variables_outside, wide_flow
from harness.models import LETTERS
from harness.stdblocks import CASES, Tool, plain


def copied(ctx, obj):
    """ A copy, by one of the ways there are. """
    return deepcopy(obj) if ctx.flag("deepcopy") else obj.copy()


def shared_parts(one, other):
    """ Blocks, pipes, variables and steps two workflows have in common. """
    mine = list(one.blocks) + list(one.pipes) + list(one.variables) + list(one.steps)
    theirs = list(other.blocks) + list(other.pipes) + list(other.variables) + list(other.steps)
    return any(a is b for a in mine for b in theirs)


def laws(ctx, workflow):
    """ What every copy must be. """
    before = describe(workflow)
    copy = copied(ctx, workflow)
    ctx.check(ctx.same(before, describe(workflow)), "copying leaves the original unchanged")
    ctx.check(copy.__class__ is workflow.__class__ and copy.name == workflow.name, "same class and name")
    ctx.check(ctx.same(before, describe(copy)), "same blocks, pipes, output, locks, labels and steps")
    ctx.check(copy == workflow and workflow == copy, "compares equal")
    ctx.check(ctx.eq(hash(copy), hash(workflow)), "hashes alike")
    ctx.check(not shared_parts(workflow, copy), "no part is shared")
    return copy


@harness("C14", bounds="every wiring of 3 blocks and one non-block variable, 2 listing orders of the blocks, 2 of the pipes",
         shards=8)
def wirings(ctx):
    """ The copy has the same wiring and computes the same. """
    start(ctx)
    flow = three(ctx, orders=False, name="wf")
    order = ctx.choice("order", [(0, 1, 2), (2, 0, 1)])
    flow = Flow(flow.ops, flow.sources, flow.nbvs, flow.output, order, ctx.flag("reverse"), name="wf", description="d",
                documentation="doc")
    workflow = flow.workflow
    copy = laws(ctx, workflow)
    values = {i: ctx.int(f"v{i}") for i in range(len(workflow.inputs))}
    ctx.check(ctx.eq(workflow.run(values).output_value, copy.run(values).output_value), "computes the same")


@harness("C14", bounds="2 blocks, each of 3 inputs free or fed by one of two non-block variables, named alike or not; 2 listing "
                       "orders of blocks and pipes", shards=4)
def outside_variables(ctx):
    """ Variables outside of blocks stay as many as they are, each feeding what it fed. """
    start(ctx)
    workflow = variables_outside(ctx, name="wf").workflow
    copy = laws(ctx, workflow)
    values = {i: ctx.int(f"v{i}") for i in range(len(workflow.inputs))}
    ctx.check(ctx.eq(workflow.run(values).output_value, copy.run(values).output_value), "computes the same")


def configured(ctx):
    """ Two blocks and a non-block variable, with whatever a user can set. """
    ops = [Op("f", 2, 1, name="first", position=(ctx.int("px"), 3)), Op("g", 2, 1, name="second")]
    nbv = Variable(type_=int, name="in0", label="lx" if ctx.flag("nbv label") else "", position=(1, 2))
    flow = Flow(ops, [[None, ("nbv", 0)], [("out", 0, 0), None]], [nbv], (1, 0), build=False)
    variables = [ops[0].inputs[0], nbv, ops[1].inputs[1]]
    for i, v in enumerate(variables):
        setting = ctx.choice(f"setting{i}", ["none", "default", "locked"] if i < 2 else ["none", "default"])
        if setting == "default":
            v.default_value = ctx.int(f"d{i}")
        elif setting == "locked":
            v.lock(ctx.int(f"d{i}"))
    if ctx.flag("label"):
        ops[0].inputs[0].label = ctx.str("lab", 1, LETTERS)
        ops[1].outputs[0].label = "out"
    steps = [Step("s", [nbv], documentation="text"), Step("t", [ops[0].inputs[0]])] if ctx.flag("steps") else None
    workflow = Workflow(ops, flow.pipes, ops[1].outputs[0], steps=steps, description="desc", documentation="doc", name="wf")
    return workflow, variables


def outcome(workflow, values):
    """ The result of a run, or that it was refused. """
    try:
        return ["value", workflow.run(values).output_value]
    except ValueError:
        return ["refused"]


EDITS = ["lock", "unlock", "default", "label", "step", "move", "remove block", "run", "text"]


def edit(workflow, kind, i, value):
    """ One edit of a workflow by its user. """
    if kind == "lock":
        workflow.lock_input(i, value)
    elif kind == "unlock":
        for v in workflow.inputs:
            v.unlock(keep_default=False)
    elif kind == "default":
        workflow.set_input_default(i, value)
    elif kind == "label":
        workflow.rename_input(i, "renamed")
        workflow.blocks[0].name = "renamed"
        workflow.blocks[0].position = (7, 7)
        workflow.name = "renamed"
    elif kind == "step":
        workflow.insert_step("new", 0)
        workflow.change_input_step(i, 0)
        for step in workflow.steps:
            step.label = "changed"
    elif kind == "move":
        workflow.reset_steps()
    elif kind == "remove block":
        workflow.blocks.pop()
        workflow.pipes.pop()
        workflow.nonblock_variables.clear()
    elif kind == "run":
        workflow.run({j: value for j in range(len(workflow.inputs))})
    else:
        workflow.description = "changed"
        workflow.documentation = "changed"


@harness("C14", bounds="2 blocks; labels, positions, defaults, locks, texts, steps; one edit of 9 kinds on either side; "
                       "input values entered or left out", shards=8)
def edits(ctx):
    """ The copy is the same workflow, and editing one never affects the other. """
    start(ctx)
    workflow, _ = configured(ctx)
    copy = laws(ctx, workflow)
    values = {i: ctx.int(f"v{i}") for i in range(3)}
    if ctx.flag("leave out"):
        values = {2: values[2]}
    expected = outcome(workflow, values)
    ctx.check(ctx.same(outcome(copy, values), expected), "computes the same, or refuses as well")
    before = describe(workflow)
    one, other = (copy, workflow) if ctx.flag("edit the copy") else (workflow, copy)
    edit(one, ctx.choice("edit", EDITS), ctx.choice("edited", [0, 1]), ctx.int("new"))
    ctx.check(ctx.same(describe(other), before), "editing one leaves the other unchanged")
    ctx.check(ctx.same(outcome(other, values), expected), "and computing the same")


class Fill(Block):
    """ A block that makes a list, or that adds to the list it receives. """

    def __init__(self, tag: str, arity: int, name: str = "Fill", position=(0, 0)):
        self.tag = tag
        self.arity = arity
        self.outs = 1
        super().__init__(inputs=[Variable(type_=int, name=f"{tag}.in{i}") for i in range(arity)],
                         outputs=[Variable(type_=list, name=f"{tag}.out")], name=name, position=position)

    def equivalent_hash(self):
        return len(self.tag)

    def evaluate(self, values, **kwargs):
        args = [values[i] for i in self.inputs]
        RUN["calls"].append((self.tag, args))
        if isinstance(args[0], list):
            args[0].append(len(args[0]))
            return [args[0]]
        return [[args[0]]]


def state_view(state):
    """ What can be seen of a state. """
    workflow = state.workflow
    return {"entered": {str(k): v for k, v in state.input_values.items()},
            "values": [[state.values[p]] if p in state.values else None for p in workflow.pipes],
            "activated": [bool(state.activated_items[x]) for x in workflow.pipes + workflow.blocks + workflow.variables],
            "output": [list(state.output_value)] if isinstance(state.output_value, list) else state.output_value,
            "progress": state.progress, "name": state.name, "log": state.log}


def frozen(value):
    """ An independent copy of plain data. """
    if isinstance(value, dict):
        return {k: frozen(v) for k, v in value.items()}
    if isinstance(value, list):
        return [frozen(v) for v in value]
    return value


@harness("C14", bounds="2 wirings of 3 blocks, states stopped after 0..3 steps (inputs entered or blocks evaluated), then "
                       "either side continued", shards=8)
def states(ctx):
    """ A copied state is at the same point, and going on with one leaves the other where it was. """
    start(ctx)
    kind = ctx.choice("wiring", list(WIRINGS))
    flow = Flow([Op("f", 1, 2), Op("g", 2), Op("h", 2)], WIRINGS[kind], [Variable(type_=int, name="in0")], (2, 0), name="wf")
    workflow = flow.workflow
    values = [(position_of(workflow.inputs, v), v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    results = flow.expected([(v, value) for _, v, value in values])
    state = workflow.start_run(name="state")
    entered = []
    for n in range(3):
        step = ctx.choice(f"step{n}", [f"enter{i}" for i in range(len(values))] + ["next", "stop"])
        if step == "stop":
            break
        if step == "next":
            state.evaluate_next_block()
        else:
            i = int(step[5:])
            state.add_input_value(values[i][0], values[i][2])
            entered.append(i)
    before = frozen(state_view(state))
    copy = copied(ctx, state)
    ctx.check(ctx.same(state_view(state), before), "copying leaves the original unchanged")
    ctx.check(ctx.same(state_view(copy), before), "the copy is at the same point")
    ctx.check(not shared_parts(state.workflow, copy.workflow), "no part of the workflow is shared")
    ctx.check(ctx.same(describe(workflow), describe(copy.workflow)), "the same workflow")
    ctx.check(state == copy and copy == state, "compares equal")
    one, other = (copy, state) if ctx.flag("continue the copy") else (state, copy)
    for i, (index, _, value) in enumerate(values):
        if i not in entered:
            one.add_input_value(index, value)
    one.continue_run()
    ctx.check(one.progress == 1 and bool(ctx.eq(one.output_value, results[2][1][0])), "either can be continued to the end")
    ctx.check(ctx.same(state_view(other), before), "the other stays where it was")
    for i, (index, _, value) in enumerate(values):
        if i not in entered:
            other.add_input_value(index, value)
    other.continue_run()
    ctx.check(ctx.eq(other.output_value, results[2][1][0]), "and can be continued as well")


@harness("C14", bounds="3 blocks that modify the list they pass on; states stopped anywhere; runs", shards=2)
def mutable_values(ctx):
    """ Values held by a state or a run are its own. """
    start(ctx)
    ops = [Fill("f", 1), Fill("g", 1), Fill("h", 1)]
    flow = Flow(ops, [[None], [("out", 0, 0)], [("out", 1, 0)]], [], (2, 0), name="wf")
    workflow = flow.workflow
    x = ctx.int("x")
    done = ctx.choice("done", [0, 1, 2, 3])
    state = workflow.start_run({0: x}, name="state")
    for _ in range(done):
        state.evaluate_next_block()
    if done == 3 and ctx.flag("as a run"):
        state.continue_run()
        state = state.to_workflow_run(name="run")
        before = frozen(state_view(state))
        copy = copied(ctx, state)
        ctx.check(copy.__class__ is state.__class__, "a run again")
        ctx.check(ctx.same(state_view(copy), before), "the copy is the same run")
        one, other = (copy, state) if ctx.flag("change the copy") else (state, copy)
        one.output_value.append(ctx.int("more"))
        for value in one.values.values():
            value.append(1)
        ctx.check(ctx.same(state_view(other), before), "changing the values of one leaves the other unchanged")
        return
    before = frozen(state_view(state))
    copy = copied(ctx, state)
    one, other = (copy, state) if ctx.flag("continue the copy") else (state, copy)
    one.continue_run()
    ctx.check(ctx.same(state_view(other), before), "continuing one leaves the values of the other unchanged")
    other.continue_run()
    ctx.check(ctx.same([list(one.output_value)], [list(other.output_value)]), "both reach the same result")
    ctx.check(ctx.same(list(one.output_value), [x, 1, 2]), "the right one")


@harness("C14", bounds="a display branch of 1 block on 3 wirings; a copied run displays the same", shards=1)
def displays(ctx):
    """ A copied run can still show what its original shows. """
    start(ctx)
    ops = [Op("f", 1, 2), Op("g", 2), Op("h", 2), View("w", 2, name="v")]
    sources = [list(s) for s in WIRINGS["chain"]]
    sources.append([ctx.choice("w0", [("out", 0, 1), ("out", 1, 0), ("out", 2, 0)]), ctx.choice("w1", [None, ("out", 0, 0)])])
    flow = Flow(ops, sources, [], (2, 0), name="wf")
    workflow = flow.workflow
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    results = flow.expected(values)
    run = workflow.run({position_of(workflow.inputs, v): value for v, value in values}, name="run")
    copy = copied(ctx, run)
    ctx.check(copy.name == "run" and copy.__class__ is run.__class__, "a run again")
    ctx.check(copy == run and run == copy, "compares equal")
    ctx.check(ctx.eq(copy.block_display(position_of(workflow.blocks, ops[3])), results[3][1][0]),
              "its displays are those of the run")


@harness("C14", bounds="a list default on a block input or a non-block variable, locked or not, changed in place", shards=1)
def mutable_defaults(ctx):
    """ Default values are each workflow's own. """
    start(ctx)
    ops = [Op("f", 2, 1)]
    nbv = Variable(type_=list, name="x")
    flow = Flow(ops, [[None, ("nbv", 0)]], [nbv], (0, 0), build=False)
    v = nbv if ctx.flag("nonblock") else ops[0].inputs[0]
    v.default_value = [ctx.int("d"), [ctx.int("e")]]
    if ctx.flag("locked"):
        v.lock()
    workflow = Workflow(ops, flow.pipes, ops[0].outputs[0], name="wf")
    copy = copied(ctx, workflow)
    i = position_of(workflow.inputs, v)
    one, other = (copy, workflow) if ctx.flag("change the copy") else (workflow, copy)
    before = frozen(other.inputs[i].default_value)
    one.inputs[i].default_value[1].append(1)
    one.inputs[i].default_value.append(1)
    ctx.check(ctx.same(other.inputs[i].default_value, before), "changing a default in place leaves the other unchanged")


@harness("C14", bounds="2 steps sharing 3 inputs in any way, a display on the output of either block or none", shards=2)
def step_displays(ctx):
    """ Steps and their displays are copied. """
    start(ctx)
    workflow = displayed(ctx)
    laws(ctx, workflow)


@harness("C14", bounds="the 21 standard blocks with their settings, entered values any", shards=8)
def standard_blocks(ctx):
    """ Every standard block is copied with its settings, and computes the same. """
    start(ctx)
    kind = ctx.choice("block", list(CASES) + ["archive", "markdown"])
    if kind == "archive":
        block = blocks.Archive(2, filename="arch", position=(3, 4))
    elif kind == "markdown":
        block = blocks.Markdown(MarkdownType(Tool, "Markdown"), load_by_default=True, position=(3, 4))
    else:
        case = CASES[kind](ctx)
        block = case.block
    block.position = (3, 4)
    block.inputs[0].label = "lab"
    workflow = Workflow([block], [], block.outputs[0], name="wf")
    copy = copied(ctx, workflow)
    other = copy.blocks[0]
    ctx.check(other is not block and other.__class__ is block.__class__, "a new block of the same kind")
    ctx.check(other.name == block.name and list(other.position) == [3, 4], "in its place")
    ctx.check(len(other.inputs) == len(block.inputs) and len(other.outputs) == len(block.outputs), "the same ports")
    for v, w in zip(block.inputs + block.outputs, other.inputs + other.outputs):
        ctx.check(v is not w and bool(ctx.same([v.name, port(v)], [w.name, port(w)])), "the same port")
    ctx.check(workflow == copy and copy == workflow, "compares equal")
    ctx.check(block.equivalent(other) and other.equivalent(block), "is equivalent")
    if kind == "markdown":
        ctx.check(other.selector.__class__ is block.selector.__class__ and other.load_by_default, "the same display")
    if kind in CASES:
        results = other.evaluate(dict(zip(other.inputs, case.args)))
        ctx.check(ctx.same(plain(results), plain(case.outputs)), "computes the same")


@harness("C14", bounds="a block of 12 inputs, fed by 0, 5 or 11 blocks, 0 or 11 variables outside of blocks; 2 orders; steps of any "
                       "one of the inputs", budget=100)
def wide(ctx):
    """ More than ten inputs, blocks and pipes. """
    start(ctx)
    workflow = wide_flow(ctx, name="wf").workflow
    workflow.steps = [Step(label="one"), Step(label="two")]
    chosen = min(ctx.choice("input", [0, 1, 2, 9, 10, 11]), len(workflow.inputs) - 1)
    workflow.change_input_step(chosen, 1)
    copy = laws(ctx, workflow)
    values = {i: ctx.int(f"v{i}") for i in range(len(workflow.inputs))}
    ctx.check(ctx.eq(workflow.run(values).output_value, copy.run(values).output_value), "computes the same")
    state = workflow.start_run({i: values[i] for i in values if i != chosen})
    state.continue_run()
    twin = deepcopy(state)
    ctx.check(ctx.same(state_view(state), state_view(twin)), "the copy of a state is at the same point")
    for s in (state, twin):
        s.add_input_value(chosen, values[chosen])
        s.continue_run()
    ctx.check(ctx.eq(state.output_value, twin.output_value), "both finish with the same output")
