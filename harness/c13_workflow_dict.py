""" C13: workflows, states and runs survive serialization. """
import json

from dessia_common.schemas.core import UNDEFINED
from dessia_common.typings import MarkdownType
from dessia_common.workflow import blocks
from dessia_common.workflow.core import Step, Variable, Workflow, WorkflowRun, WorkflowState
from symex.ctx import harness
from harness.flows import Flow, Op, RUN, View, displayed, position_of, start, three, variables_outside, wide_flow
from harness.models import LETTERS
from harness.stdblocks import CASES, Tool, plain


def address(workflow, variable):
    """ Where a variable is, found by identity. """
    for b, block in enumerate(workflow.blocks):
        for side, ports in enumerate((block.inputs, block.outputs)):
            i = position_of(ports, variable)
            if i is not None:
                return (b, side, i)
    i = position_of(workflow.nonblock_variables, variable)
    return "nowhere" if i is None else i


def port(v):
    """ What a user sets on a variable. """
    return [v.label, v.locked, None if v.default_value is UNDEFINED else [v.default_value]]


def describe(workflow):
    """ Everything a user put in a workflow. """
    return {"blocks": [[b.__class__.__name__, b.tag, b.arity, b.outs, b.name, list(b.position),
                        [port(v) for v in b.inputs], [port(v) for v in b.outputs]] for b in workflow.blocks],
            "pipes": [[address(workflow, p.input_variable), address(workflow, p.output_variable)]
                      for p in workflow.pipes],
            "variables": [[v.name, list(v.position), port(v)] for v in workflow.nonblock_variables],
            "output": None if workflow.output is None else address(workflow, workflow.output),
            "inputs": [address(workflow, v) for v in workflow.inputs],
            "steps": [[s.label, s.documentation, [address(workflow, v) for v in s.inputs],
                       [address(workflow, v) for v in s.group_inputs], s.display_variable_index,
                       s.display_setting.to_dict() if s.display_setting else None] for s in workflow.steps],
            "spare": sorted(str(address(workflow, v)) for v in workflow.spare_inputs),
            "memorized": [p.memorize for p in workflow.pipes],
            "texts": [workflow.name, workflow.description, workflow.documentation]}


def through_json(dict_):
    return json.loads(json.dumps(dict_))


def addresses(ctx, workflow):
    """ The address of each variable leads back to it. """
    for v in workflow.variables:
        index = workflow.variable_indices(v)
        ctx.check(index == address(workflow, v), "the address is where the variable is")
        ctx.check(workflow.variable_from_index(index) is v, "the address leads back to the variable")
        ctx.check(workflow.is_variable_nbv(v) == isinstance(index, int), "non-block variables are known as such")
    for p in workflow.pipes:
        ctx.check(workflow.pipe_from_variable_indices(*workflow.pipe_variable_indices(p)) is p,
                  "the addresses of a pipe lead back to it")
    for i, v in enumerate(workflow.inputs):
        ctx.check(workflow.input_index(v) == i, "the index of an input leads back to it")


def same_workflow(ctx, original, rebuilt):
    """ The rebuilt workflow is the original's data, with its own parts. """
    ctx.check(ctx.same(describe(original), describe(rebuilt)), "same blocks, pipes, output, locks, labels and positions")
    ctx.check(rebuilt is not original and not any(a is b for a in original.blocks for b in rebuilt.blocks),
              "built anew")
    ctx.check(original == rebuilt and rebuilt == original, "compares equal")
    ctx.check(ctx.eq(hash(original), hash(rebuilt)), "hashes alike")


@harness("C13", bounds="every wiring of 3 blocks and one non-block variable, every listing order of the blocks", shards=8)
def wirings(ctx):
    """ The wiring survives, and computes the same. """
    start(ctx)
    flow = three(ctx, orders=False, name="wf", description="d", documentation="doc")
    order = ctx.choice("order", [(0, 1, 2), (2, 0, 1)])
    flow = Flow(flow.ops, flow.sources, flow.nbvs, flow.output, order, ctx.flag("reverse"), name="wf", description="d",
                documentation="doc")
    workflow = flow.workflow
    addresses(ctx, workflow)
    before = describe(workflow)
    dict_ = through_json(workflow.to_dict())
    rebuilt = Workflow.dict_to_object(dict_)
    same_workflow(ctx, workflow, rebuilt)
    addresses(ctx, rebuilt)
    ctx.check(ctx.same(before, describe(workflow)), "the original is unchanged")
    values = {i: ctx.int(f"v{i}") for i in range(len(workflow.inputs))}
    ctx.check(ctx.eq(workflow.run(values).output_value, rebuilt.run(values).output_value), "computes the same")


@harness("C13", bounds="2 blocks, each of 3 inputs free or fed by one of two non-block variables, named alike or not; 2 listing "
                       "orders of blocks and pipes", shards=4)
def outside_variables(ctx):
    """ Variables outside of blocks stay as many as they are, each feeding what it fed. """
    start(ctx)
    workflow = variables_outside(ctx, name="wf").workflow
    addresses(ctx, workflow)
    rebuilt = Workflow.dict_to_object(through_json(workflow.to_dict()))
    same_workflow(ctx, workflow, rebuilt)
    addresses(ctx, rebuilt)
    values = {i: ctx.int(f"v{i}") for i in range(len(workflow.inputs))}
    ctx.check(ctx.eq(workflow.run(values).output_value, rebuilt.run(values).output_value), "computes the same")


@harness("C13", bounds="2 blocks; labels, positions, defaults, locks, texts; 2 steps or none; "
                       "through to_dict or a stream; int, string and None defaults", shards=8)
def settings(ctx):
    """ What users set on a workflow survives. """
    start(ctx)
    ops = [Op("f", 2, 1, name=ctx.choice("block name", ["Op", "first"]), position=(ctx.int("px"), 3)),
           Op("g", 2, 1, name="second", position=(0, 0))]
    nbv = Variable(type_=int, name="in0", label="lx" if ctx.flag("nbv label") else "", position=(1, 2))
    flow = Flow(ops, [[None, ("nbv", 0)], [("out", 0, 0), None]], [nbv], (1, 0), (1, 0) if ctx.flag("backwards") else None,
                build=False)
    blocks = [ops[i] for i in flow.order]
    for i, v in enumerate([ops[0].inputs[0], nbv, ops[1].inputs[1]]):
        setting = ctx.choice(f"setting{i}", ["none", "default", "locked"])
        default = ctx.choice(f"default{i}", ["int", "str", "none"]) if setting != "none" and i < 2 else "int"
        value = {"int": ctx.int(f"d{i}"), "str": ctx.str(f"s{i}", 1, LETTERS), "none": None}[default]
        if setting == "default":
            v.default_value = value
        elif setting == "locked":
            v.lock(value)
    if ctx.flag("label"):
        ops[0].inputs[0].label = ctx.str("lab", 1, LETTERS)
        ops[1].outputs[0].label = "out"
    steps = None
    if ctx.flag("steps"):
        steps = [Step("s", [nbv], documentation="text"), Step("t", [ops[0].inputs[0]])]
    workflow = Workflow(blocks, flow.pipes, ops[1].outputs[0], steps=steps,
                        description="desc", documentation="doc", name="wf")
    dict_ = through_json(workflow.to_dict())
    rebuilt = Workflow.dict_to_object(dict_)
    same_workflow(ctx, workflow, rebuilt)
    ctx.check([(s.id_, s.group_id) for s in rebuilt.steps] == [(s.id_, s.group_id) for s in workflow.steps],
              "steps keep their identifiers")
    again = through_json(rebuilt.to_dict())
    ctx.check(ctx.same(dict_, again), "the dictionary form is stable")


@harness("C13", bounds="no output; no block; a display branch; 2 workflows each", shards=1)
def special(ctx):
    """ Incomplete and empty workflows, memorised pipes. """
    start(ctx)
    kind = ctx.choice("kind", ["empty", "no output", "no pipe", "view"])
    if kind == "empty":
        workflow = Workflow.generate_empty()
    else:
        ops = [Op("f", 1, 2), Op("g", 1), View("w", 1, name="v")]
        sources = [[None], [None if kind == "no pipe" else ("out", 0, 0)], [("out", 0, 1) if kind == "view" else None]]
        flow = Flow(ops, sources, [], (1, 0), build=False)
        workflow = Workflow(ops, flow.pipes, None if kind == "no output" else ops[1].outputs[0], name="wf")
        if kind == "no output":
            return      # a workflow without output cannot be built at all: nothing to say
    rebuilt = Workflow.dict_to_object(through_json(workflow.to_dict()))
    same_workflow(ctx, workflow, rebuilt)


WIRINGS = {"chain": [[None], [("out", 0, 0), None], [("out", 1, 0), ("out", 0, 1)]],
           "fork": [[("nbv", 0)], [("nbv", 0), None], [("out", 0, 0), ("out", 1, 0)]]}


@harness("C13", bounds="2 wirings of 3 blocks, states stopped after 0..3 steps (inputs entered or blocks evaluated), with or "
                       "without pointers, then continued", shards=8)
def states(ctx):
    """ A state survives at any point of its run, and can be continued. """
    start(ctx)
    kind = ctx.choice("wiring", list(WIRINGS))
    ops = [Op("f", 1, 2), Op("g", 2), Op("h", 2)]
    flow = Flow(ops, WIRINGS[kind], [Variable(type_=int, name="in0")], (2, 0), name="wf")
    workflow = flow.workflow
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    results = flow.expected(values)
    state = workflow.start_run(name="state")
    entered = []
    for n in range(3):
        step = ctx.choice(f"step{n}", [f"enter{i}" for i in range(len(values))] + ["next", "stop"])
        if step == "stop":
            break
        if step == "next":
            state.evaluate_next_block()
        else:
            i = int(step[5:])
            state.add_input_value(position_of(workflow.inputs, values[i][0]), values[i][1])
            entered.append(i)
    dict_ = through_json(state.to_dict(use_pointers=ctx.flag("pointers")))
    rebuilt = WorkflowState.dict_to_object(dict_)
    ctx.check(ctx.same(describe(workflow), describe(rebuilt.workflow)), "the same workflow")
    ctx.check(rebuilt.progress == state.progress and rebuilt.name == state.name, "the same progress")
    ctx.check(ctx.same(state.input_values, rebuilt.input_values), "the same entered values")
    ctx.check(state == rebuilt and rebuilt == state, "compares equal")
    RUN["calls"] = []
    for i, (v, value) in enumerate(values):
        if i not in entered:
            rebuilt.add_input_value(workflow.inputs.index(v), value)
    rebuilt.continue_run()
    ctx.check(rebuilt.progress == 1, "the rebuilt state can be continued to the end")
    ctx.check(ctx.eq(rebuilt.output_value, results[2][1][0]), "and gives the same output")
    ctx.check(len(RUN["calls"]) == sum(1 for b in workflow.blocks if not state.activated_items[b]),
              "evaluating only what was left")


@harness("C13", bounds="2 wirings of 3 blocks, with a display branch or not, with or without pointers", shards=4)
def runs(ctx):
    """ A run survives, and its displays can still be computed. """
    start(ctx)
    kind = ctx.choice("wiring", list(WIRINGS))
    ops = [Op("f", 1, 2), Op("g", 2), Op("h", 2)]
    sources = [list(s) for s in WIRINGS[kind]]
    viewed = ctx.flag("view")
    if viewed:
        ops.append(View("w", 2, name="v"))
        sources.append([ctx.choice("w0", [("out", 0, 1), ("out", 1, 0), ("out", 2, 0)]), ctx.choice("w1", [None, ("out", 0, 0)])])
    flow = Flow(ops, sources, [Variable(type_=int, name="in0")], (2, 0), name="wf")
    workflow = flow.workflow
    values = [(v, ctx.int(f"v{i}")) for i, v in enumerate(flow.free_inputs())]
    results = flow.expected(values)
    run = workflow.run({position_of(workflow.inputs, v): value for v, value in values}, name="run")
    dict_ = through_json(run.to_dict(use_pointers=ctx.flag("pointers")))
    rebuilt = WorkflowRun.dict_to_object(dict_)
    ctx.check(rebuilt.__class__ is WorkflowRun and rebuilt.name == "run", "a run again")
    ctx.check(ctx.eq(rebuilt.output_value, results[2][1][0]), "the same output")
    ctx.check(ctx.same(run.input_values, rebuilt.input_values), "the same entered values")
    ctx.check(run == rebuilt and rebuilt == run, "compares equal")
    if viewed:
        index = position_of(workflow.blocks, ops[3])
        ctx.check(ctx.eq(rebuilt.block_display(index), results[3][1][0]), "its displays are those of the run")


@harness("C13", bounds="2 steps sharing 3 inputs in any way, a display on the output of either block or none", shards=2)
def step_displays(ctx):
    """ Steps and their displays survive. """
    start(ctx)
    workflow = displayed(ctx)
    rebuilt = Workflow.dict_to_object(through_json(workflow.to_dict()))
    same_workflow(ctx, workflow, rebuilt)


@harness("C13", bounds="the 21 standard blocks with their settings, an input with a default or locked, entered values any",
         shards=8)
def standard_blocks(ctx):
    """ Every standard block survives with its settings, and computes the same. """
    start(ctx)
    kind = ctx.choice("block", list(CASES) + ["archive", "markdown"])
    if kind == "archive":
        block = blocks.Archive(2, filename="arch", position=(3, 4))
    elif kind == "markdown":
        block = blocks.Markdown(MarkdownType(Tool, "Markdown"), load_by_default=True, position=(3, 4))
    else:
        case = CASES[kind](ctx)
        block = case.block
    block.position = (3, 4)
    block.inputs[0].label = "lab"
    workflow = Workflow([block], [], block.outputs[0], name="wf")
    rebuilt = Workflow.dict_to_object(through_json(workflow.to_dict()))
    other = rebuilt.blocks[0]
    ctx.check(other.__class__ is block.__class__ and other.name == block.name and list(other.position) == [3, 4],
              "the same block, in its place")
    ctx.check(len(other.inputs) == len(block.inputs) and len(other.outputs) == len(block.outputs), "the same ports")
    for v, w in zip(block.inputs + block.outputs, other.inputs + other.outputs):
        ctx.check(ctx.same([v.name, port(v)], [w.name, port(w)]), "the same port")
    ctx.check(workflow == rebuilt and rebuilt == workflow, "compares equal")
    ctx.check(block.equivalent(other) and other.equivalent(block), "is equivalent")
    if kind in CASES:
        results = other.evaluate(dict(zip(other.inputs, case.args)))
        ctx.check(ctx.same(plain(results), plain(case.outputs)), "computes the same")


@harness("C13", bounds="a block of 12 inputs, fed by 0, 5 or 11 blocks, 0 or 11 variables outside of blocks; 2 orders; steps of any "
                       "one of the inputs", budget=100)
def wide(ctx):
    """ More than ten inputs, blocks and pipes. """
    start(ctx)
    workflow = wide_flow(ctx, name="wf").workflow
    workflow.steps = [Step(label="one"), Step(label="two")]
    chosen = ctx.choice("input", [0, 1, 2, 9, 10, 11])
    workflow.change_input_step(min(chosen, len(workflow.inputs) - 1), 1)
    workflow.inputs[min(chosen, len(workflow.inputs) - 1)].default_value = ctx.int("default")
    addresses(ctx, workflow)
    dict_ = through_json(workflow.to_dict())
    rebuilt = Workflow.dict_to_object(dict_)
    same_workflow(ctx, workflow, rebuilt)
    addresses(ctx, rebuilt)
    values = {i: ctx.int(f"v{i}") for i in range(len(workflow.inputs))}
    run, again = workflow.run(values), rebuilt.run(values)
    ctx.check(ctx.eq(run.output_value, again.output_value), "computes the same")
    back = WorkflowRun.dict_to_object(through_json(run.to_dict()))
    ctx.check(ctx.same(back.input_values, run.input_values), "the inputs of the run survive")
    ctx.check(ctx.same(back.output_value, run.output_value), "the output of the run survives")
    state = workflow.start_run({i: values[i] for i in values if i != chosen})
    state.continue_run()
    kept = WorkflowState.dict_to_object(through_json(state.to_dict()))
    ctx.check(ctx.same(kept.input_values, state.input_values), "the inputs of the state survive")
    ctx.check(kept.progress == state.progress, "the progress of the state survives")
