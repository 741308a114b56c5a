""" C31: the displays of form steps. """
from dessia_common.core import DessiaObject
from dessia_common.displays import DisplaySetting
from dessia_common.workflow.core import Block, Step, Variable, Workflow
from harness.flows import RUN, Flow, apply, position_of, start
from symex.ctx import harness


class Shown(DessiaObject):
    """ A model with displays. """

    def __init__(self, value: int, name: str = ""):
        self.value = value
        super().__init__(name=name)

    @classmethod
    def display_settings(cls, **kwargs):
        """ Displays found by decorators are checked in C30. """
        return [DisplaySetting("solid", "babylon_data", "solid", serialize_data=True),
                DisplaySetting("mirror", "babylon_data", "mirror", serialize_data=True, load_by_default=True)]

    def solid(self):
        """ Its value. """
        return {"value": self.value}

    def mirror(self):
        """ A function of its value. """
        return {"value": apply("mirror", 0, [self.value])}


SHOWN = {"solid": lambda v: v, "mirror": lambda v: apply("mirror", 0, [v])}


class Maker(Block):
    """ Computes an arbitrary function of its inputs; some of its outputs are models holding the value. """

    def __init__(self, tag: str, arity: int, outs, name: str = "Maker", position=(0, 0)):
        self.tag = tag
        self.arity = arity
        self.outs = outs
        super().__init__(inputs=[Variable(name=f"in{i}") for i in range(arity)],
                         outputs=[Variable(type_=o, name=f"out{i}", label=f"{tag}{i}") for i, o in enumerate(outs)],
                         name=name, position=position)

    def evaluate(self, values, **kwargs):
        args = [values[i] for i in self.inputs]
        RUN["calls"].append((self.tag, args))
        args = [a.value if isinstance(a, Shown) else -1 if a == "" else a for a in args]
        results = [apply(self.tag, k, args) for k in range(len(self.outs))]
        return [Shown(r) if o is Shown else r for r, o in zip(results, self.outs)]


def graph(ctx, **kwargs):
    """ Any wiring of three blocks and a free variable, with two displayable outputs at least. """
    blocks = [Maker("f", 1, [int, Shown]), Maker("g", 2, [Shown]), Maker("h", 2, [ctx.choice("last", [int, Shown])])]
    nbvs = [Variable(type_=int, name="free")]
    sources = [[ctx.choice("f0", [None, ("nbv", 0)])],
               [ctx.choice("g0", [None, ("nbv", 0), ("out", 0, 0), ("out", 0, 1)]), ctx.choice("g1", [None, ("out", 0, 1)])],
               [ctx.choice("h0", [("nbv", 0), ("out", 0, 0)]), ctx.choice("h1", [None, ("out", 1, 0)])]]
    return Flow(blocks, sources, nbvs, (2, 0), ctx.choice("order", [(0, 1, 2), (2, 0, 1)]),
                ctx.flag("reverse pipes") if ctx.tier == "thorough" else False, **kwargs)


def required(flow, workflow, b):
    """ Numbers of the unlocked workflow inputs block b depends on. """
    numbers = []
    for needed in flow.needed(b):
        for i, source in enumerate(flow.sources[needed]):
            if source is None or source[0] == "nbv":
                variable = flow.ops[needed].inputs[i] if source is None else flow.nbvs[0]
                if not variable.locked:
                    numbers.append(position_of(workflow.inputs, variable))
    return sorted(set(numbers))


def with_steps(ctx, flow, steps=2):
    """ Puts each input in a step, or in none. """
    inputs = flow.workflow.inputs
    places = [ctx.choice(f"place{i}", list(range(steps)) + [None]) for i in range(len(inputs))]
    built = [Step(f"step {i}", [v for v, place in zip(inputs, places) if place == i]) for i in range(steps)]
    return Workflow(flow.workflow.blocks, flow.pipes, flow.workflow.output, steps=built), places


def displayable(flow, workflow):
    """ [(block, output, variable index)] """
    return [(b, k, position_of(workflow.variables, op.outputs[k]))
            for b, op in enumerate(flow.ops) for k, o in enumerate(op.outs) if o is Shown]


def check_offer(ctx, flow, workflow, places):
    """ Exactly the displays whose inputs are known are offered. """
    offer = workflow.displayable_display_settings()
    by_step = offer["available_display_settings"]
    ctx.check(len(by_step) == len(workflow.steps), "one offer by step")
    labels = {}
    for step in range(len(by_step)):
        expected = []
        for b, k, index in displayable(flow, workflow):
            later = [i for i in required(flow, workflow, b) if places[i] is not None and places[i] > step]
            if not later:
                expected.append(index)
                labels[index] = flow.ops[b].outputs[k].label
        ctx.check(sorted(by_step[step]) == sorted(expected), "exactly the outputs whose inputs are known by then",
                  f"{by_step[step]} {expected}")
        for settings in by_step[step].values():
            ctx.check([(s["selector"], s["type"], s["load_by_default"]) for s in settings if s["selector"] in SHOWN] ==
                      [("solid", "babylon_data", False), ("mirror", "babylon_data", True)], "with their displays")
    ctx.check(offer["outputs_labels"] == labels, "and their labels")


@harness("C31", shards=8, budget=200,
         bounds="any wiring of 3 blocks of 1, 2 and 2 inputs, 2 or 3 of whose outputs have displays, and a free variable; "
                "each input in either of 2 steps or in none; the first or the last input possibly locked")
def offered(ctx):
    """ A step offers the displays of the outputs that need no input of a later step. """
    start(ctx)
    flow = graph(ctx)
    if ctx.flag("locked"):
        inputs = flow.workflow.inputs
        inputs[ctx.choice("which", [0, len(inputs) - 1])].lock(1)
    workflow, places = with_steps(ctx, flow)
    check_offer(ctx, flow, workflow, places)


@harness("C31", budget=200,
         bounds="two blocks of 2 inputs with a displayed output, the second one fed by the first one or not; 3 (quick) / 4 (thorough) "
                "steps, each input in any of them or in none")
def many_steps(ctx):
    """ The same with more steps. """
    start(ctx)
    blocks = [Maker("f", 2, [Shown]), Maker("g", 2, [int, Shown])]
    feeds = [None, ctx.choice("g1", [None, ("out", 0, 0)])]
    flow = Flow(blocks, [[None, None], feeds if ctx.flag("order") else feeds[::-1]], [], (1, 0))
    check_offer(ctx, flow, *with_steps(ctx, flow, ctx.bound(3, 4)))


@harness("C31", shards=4, budget=200,
         bounds="any wiring of 3 blocks of 1, 2 and 2 inputs, 2 or 3 of whose outputs have displays, and a free variable; one "
                "input locked, with a default value or neither, on any number; either display of any output, on any input "
                "values; inputs that are not needed are not given")
def computed(ctx):
    """ The display of a step is that of the output its block computes from the inputs given. """
    start(ctx)
    flow = graph(ctx)
    workflow = flow.workflow
    state = ctx.choice("first input", ["free", "locked", "default"])
    first = workflow.inputs[0]
    held = ctx.int("held")
    if state == "locked":
        first.lock(held)
    elif state == "default":
        first.default_value = held
    place = ctx.choice("place", [0, 1])
    steps = [Step(f"step {i}", [first] if not first.locked and place == i else []) for i in range(2)]
    workflow = Workflow(workflow.blocks, flow.pipes, workflow.output, steps=steps)
    step, selector = ctx.choice("step", [0, 1]), ctx.choice("selector", sorted(SHOWN))
    b, k, index = ctx.choice("target", displayable(flow, workflow))
    ctx.check(workflow.compute_step_display(step, {}) is None, "a step without a display shows nothing")
    workflow.add_step_display(index, step, selector)
    if state == "free" and ctx.flag("spare"):
        number = position_of(workflow.inputs, first)
        if workflow.find_input_step(first) is not None:
            workflow.remove_input_from_step(number)
    needed = required(flow, workflow, b)
    entered = {i: ctx.int(f"value{i}") for i in needed if i != 0 or state == "free" or ctx.flag("overwrite")}
    if 0 in entered and state == "default" and ctx.flag("empty"):
        entered[0] = ""
    values = [(v, entered.get(i, held)) for i, v in enumerate(workflow.inputs)]
    shown = workflow.compute_step_display(step, {str(i): v for i, v in entered.items()})
    results = {}
    for number in flow.needed(b):
        args = []
        for i, source in enumerate(flow.sources[number]):
            if source is not None and source[0] == "out":
                args.append(results[source[1]][source[2]])
            else:
                wanted = flow.ops[number].inputs[i] if source is None else flow.nbvs[0]
                args.append([value for v, value in values if v is wanted][0])
        args = [-1 if a == "" else a for a in args]
        results[number] = [apply(flow.ops[number].tag, n, args) for n in range(len(flow.ops[number].outs))]
    ctx.check(shown["type_"] == "babylon_data" and shown["traceback"] == "", "the display is that of the selector")
    ctx.check(ctx.eq(shown["data"]["value"], SHOWN[selector](results[b][k])), "it shows what the inputs given compute")
    ctx.check(sorted(t for t, _ in RUN["calls"]) == sorted(flow.ops[n].tag for n in flow.needed(b)),
              "each block it needs, and no other, is evaluated once")
