""" C12: form steps partition the inputs. """
from dessia_common.core import DessiaObject
from dessia_common.workflow.blocks import InstantiateModel
from dessia_common.workflow.core import Pipe, Step, Variable, Workflow
from symex.ctx import harness
from harness.flows import Op, position_of, start


def build(steps):
    """ A workflow of three inputs (one is a non-block variable) with the given steps: [(label, [input number])]. """
    first, second = Op("f", 2), Op("g", 2)
    nbv = Variable(type_=int, name="in0")
    pipes = [Pipe(nbv, first.inputs[1]), Pipe(first.outputs[0], second.inputs[0]), Pipe(nbv, second.inputs[1])]
    inputs = [first.inputs[0], nbv]
    workflow = Workflow([first, second], pipes, second.outputs[0])
    inputs = list(workflow.inputs)
    if steps:
        built = [Step(label=label, inputs=[inputs[i] for i in numbers]) for label, numbers in steps]
        workflow = Workflow([first, second], pipes, second.outputs[0], steps=built)
    return workflow


def wide(steps):
    """ Three inputs: two of one block and one of another. """
    first, second = Op("f", 2), Op("g", 2)
    pipes = [Pipe(first.outputs[0], second.inputs[0])]
    workflow = Workflow([first, second], pipes, second.outputs[0])
    if steps:
        inputs = list(workflow.inputs)
        built = [Step(label=label, inputs=[inputs[i] for i in numbers]) for label, numbers in steps]
        workflow = Workflow([first, second], pipes, second.outputs[0], steps=built)
    return workflow


def view(workflow):
    """ ([(label, [input number])], [spare input numbers]). """
    inputs = workflow.inputs
    return ([(s.label, [position_of(inputs, v) for v in s.inputs]) for s in workflow.steps],
            [position_of(inputs, v) for v in workflow.spare_inputs])


def partition(ctx, workflow):
    """ Each input once, in a step or spare. """
    steps, spare = view(workflow)
    places = [i for _, numbers in steps for i in numbers] + spare
    ctx.check(None not in places and sorted(places) == list(range(len(workflow.inputs))),
              "every input is in exactly one step or spare", f"{steps} {spare}")


def schema_agrees(ctx, workflow, schema):
    """ The form sent to the user shows the steps and their inputs. """
    steps, spare = view(workflow)
    shown = schema["steps"]
    ctx.check([s["label"] for s in shown] == [label for label, _ in steps], "the form shows the steps in order")
    for s, (_, numbers) in zip(shown, steps):
        ctx.check([p["key"] for p in s["properties"]] == [str(i) for i in numbers], "with their inputs in order")
    ctx.check(sorted(p["key"] for p in schema["spareProperties"]) == sorted(str(i) for i in spare), "and the spare inputs")


INITIAL = [[], [("s", [0]), ("t", [2, 1])], [("s", [1, 0, 2]), ("t", [])], [("s", []), ("t", [1])]]


def one_edit(ctx, n, workflow, model):
    """ Applies one edit to the workflow and to the model; the model is left alone when the edit must be refused. """
    steps, spare = model
    kinds = ["remove step", "move", "remove input", "reorder inputs", "reset"]
    if n < 2 or ctx.tier == "thorough":
        kinds = ["insert", "reorder steps", "move several", "rename"] + kinds
    op = ctx.choice(f"op{n}", kinds)
    label = f"new{n}"
    ok, maybe = True, False
    call = None
    after = ([(lab, list(numbers)) for lab, numbers in steps], list(spare))
    asteps, aspare = after

    def take(i):
        for _, numbers in asteps:
            if i in numbers:
                numbers.remove(i)
        if i in aspare:
            aspare.remove(i)
    if op == "insert":
        where = ctx.choice(f"at{n}", [None, 0, 1])
        call = lambda: workflow.insert_step(label, where)
        asteps.insert(len(asteps) if where is None else where, (label, []))
    elif op == "remove step":
        where = ctx.choice(f"at{n}", [0, 1, 2])
        call = lambda: workflow.remove_step(where)
        ok = where < len(steps)
        if ok:
            aspare.extend(asteps[where][1])
            del asteps[where]
    elif op == "reorder steps":
        order = ctx.choice(f"order{n}", [[0], [1, 0], [0, 0], [0, -1], [0, -2], [2, 0, 1], [0, 1, 3]])
        call = lambda: workflow.reorder_steps(order)
        ok = sorted(order) == list(range(len(steps)))
        maybe = not ok and len(order) == len(steps) and sorted(i % len(steps) for i in order) == list(range(len(steps)))
        if ok or maybe:
            asteps[:] = [steps[i] for i in order]
    elif op in ("move", "move several"):
        several = ctx.choice(f"which{n}", [[0], [1]] if op == "move" else [[0, 2], [2, 1]])
        where = ctx.choice(f"to{n}", [0, 1])
        call = lambda: workflow.change_inputs_step(several, where)
        ok = where < len(steps)
        if ok:
            for i in several:
                take(i)
                asteps[where][1].append(i)
    elif op == "remove input":
        which = ctx.choice(f"which{n}", [0, 1])
        call = lambda: workflow.remove_input_from_step(which)
        ok = which not in spare
        if ok:
            take(which)
            aspare.append(which)
    elif op == "reorder inputs":
        where = ctx.choice(f"at{n}", [0, 1])
        order = ctx.choice(f"order{n}", [[0], [1, 2], [2, 1, 0], [1, 1, 2], []])
        call = lambda: workflow.reorder_step_inputs(where, order)
        ok = where < len(steps) and sorted(order) == sorted(steps[where][1])
        if ok:
            asteps[where][1][:] = order
    elif op == "reset":
        call = workflow.reset_steps
        for _, numbers in asteps:
            aspare.extend(numbers)
        asteps.clear()
    else:
        where = ctx.choice(f"at{n}", [0, 1])
        call = lambda: workflow.rename_step(where, label)
        ok = where < len(steps)
        if ok:
            asteps[where] = (label, asteps[where][1])
    try:
        schema = call()
    except (ValueError, IndexError, AttributeError, KeyError):
        ctx.check(not ok, "an edit that makes sense is done", op)
        partition(ctx, workflow)
        ctx.check(view(workflow)[0] == steps, "an edit that is refused changes no step", op)
        return model
    ctx.check(ok or maybe, "an edit that makes no sense is refused", op)
    partition(ctx, workflow)
    got_steps, got_spare = view(workflow)
    ctx.check(got_steps == asteps, "only the named step or input moved", f"{op}: {got_steps} / {asteps}")
    ctx.check(sorted(got_spare) == sorted(aspare), "the others are spare")
    schema_agrees(ctx, workflow, schema)
    return got_steps, got_spare


@harness("C12", bounds="3 inputs, 4 initial step layouts, every sequence of 2 edits (3 on two of the layouts; "
                       "thorough: 3 on all) among 9 kinds (third: 5 kinds at quick) with valid and invalid indices", shards=8, budget=400)
def edits(ctx):
    """ Any sequence of edits. """
    start(ctx)
    initial = ctx.choice("initial", INITIAL)
    workflow = wide(initial)
    partition(ctx, workflow)
    model = view(workflow)
    ctx.check(model[0] == initial, "steps given at construction are kept")
    for n in range(ctx.bound(3 if INITIAL.index(initial) in (1, 2) else 2, 3)):
        model = one_edit(ctx, n, workflow, model)


@harness("C12", bounds="2 inputs, one of them a non-block variable, every sequence of 2 edits among moving, removing and "
                       "resetting", shards=2)
def nonblock_inputs(ctx):
    """ Inputs that are non-block variables. """
    start(ctx)
    workflow = build(ctx.choice("initial", [[], [("s", [0]), ("t", [1])], [("s", [1, 0]), ("t", [])]]))
    if not workflow.steps:
        workflow.insert_step("s")
    for n in range(3):
        op = ctx.choice(f"op{n}", ["move", "remove", "remove step", "reset"])
        which = ctx.choice(f"which{n}", [0, 1])
        before = view(workflow)
        try:
            if op == "move":
                workflow.change_inputs_step([which], 0)
                ctx.check(view(workflow)[0][0][1][-1] == which, "the input went to that step")
            elif op == "remove":
                workflow.remove_input_from_step(which)
                ctx.check(which in view(workflow)[1], "the input is spare")
            elif op == "remove step":
                workflow.remove_step(0)
                ctx.check(view(workflow)[0] == before[0][1:], "the other steps stay")
            else:
                workflow.reset_steps()
                ctx.check(not workflow.steps, "no step is left")
        except (ValueError, IndexError, AttributeError):
            ctx.check(view(workflow) == before, "refused edits change nothing")
        partition(ctx, workflow)


class Thing(DessiaObject):
    """ Displayable. """

    def __init__(self, first: int, second: DessiaObject = None, third: int = 0, name: str = ""):
        self.first = first
        self.second = second
        self.third = third
        super().__init__(name=name)


@harness("C12", bounds="2 blocks, 6 inputs dispatched over 2 steps or spare in 4 ways; display added to step 0 or 1 for the "
                       "first or second block's output, then maybe removed", shards=4)
def displays(ctx):
    """ Adding a display to a step brings the inputs it needs there, except those of earlier steps. """
    first, second = InstantiateModel(Thing, name="first"), InstantiateModel(Thing, name="second")
    pipes = [Pipe(first.outputs[0], second.inputs[1])]
    workflow = Workflow([first, second], pipes, second.outputs[0])
    inputs = list(workflow.inputs)
    n = len(inputs)
    layout = ctx.choice("layout", [[[], []], [[0], [1]], [[5, 1], [0, 6]], [[], [2, 0]]])
    workflow = Workflow([first, second], pipes, second.outputs[0],
                        steps=[Step("s", [inputs[i] for i in layout[0]]), Step("t", [inputs[i] for i in layout[1]])])
    partition(ctx, workflow)
    where, target = ctx.choice("step", [0, 1]), ctx.choice("target", [first, second])
    before = view(workflow)
    needed = [i for i in range(n) if any(inputs[i] is v for v in first.inputs)]
    if target is second:
        needed += [i for i in range(n) if any(inputs[i] is v for v in second.inputs)]
    index = position_of(workflow.variables, target.outputs[0])
    selector = target.outputs[0].available_display_settings[0].selector
    workflow.add_step_display(index, where, selector)
    partition(ctx, workflow)
    after = view(workflow)
    earlier = layout[0] if where == 1 else []
    here = after[0][where][1]
    ctx.check(set(here) == (set(layout[where]) | set(needed)) - set(earlier), "the inputs needed are there")
    ctx.check(after[0][0][1] == before[0][0][1] if where == 1 else
              after[0][1][1] == [i for i in before[0][1][1] if i not in needed], "other inputs stay")
    ctx.check(workflow.steps[where].display_setting.selector == selector and
              workflow.steps[where].display_variable_index == index, "the step has the display")
    ctx.check(workflow.steps[1 - where].display_setting is None, "and only that step")
    if ctx.flag("remove"):
        workflow.remove_step_display(where)
        ctx.check(workflow.steps[where].display_setting is None and view(workflow) == after,
                  "removing the display leaves the inputs")
