""" C11: where the values of workflow inputs come from. """
from typing import Any

from dessia_common.core import DessiaObject
from dessia_common.schemas.core import UNDEFINED
from dessia_common.typings import ClassMethodType, MethodType
from dessia_common.workflow.blocks import ClassMethod, InstantiateModel, ModelMethod
from dessia_common.workflow.core import Block, Pipe, Variable, Workflow
from symex.ctx import harness
from harness.flows import position_of
from harness.models import LETTERS


class Collect(Block):
    """ Returns its inputs as a list. """

    def __init__(self, number: int, name: str = "Collect", position=(0, 0)):
        self.number = number
        super().__init__(inputs=[Variable(type_=Any, name=f"i{i}") for i in range(number)],
                         outputs=[Variable(name="list")], name=name, position=position)

    def evaluate(self, values, **kwargs):
        return [[values[i] for i in self.inputs]]


def any_value(ctx, name, extra=()):
    kind = ctx.choice(name + ".kind", ["int"] + list(extra))
    if kind == "int":
        return ctx.int(name)
    if kind == "str":
        return ctx.str(name + ".s", 1, LETTERS)
    if kind == "false":
        return False
    return None


def build(ctx):
    """ Two blocks; inputs 0..3 of the model: a, b (one non-block variable feeding both blocks), c. """
    first, second = Collect(2, name="first"), Collect(3, name="second")
    shared = Variable(type_=Any, name="shared")
    pipes = [Pipe(shared, first.inputs[1]), Pipe(shared, second.inputs[1]), Pipe(first.outputs[0], second.inputs[0])]
    if ctx.flag("reversed"):
        pipes.reverse()
    blocks = [second, first] if ctx.flag("backwards") else [first, second]
    workflow = Workflow(blocks, pipes, second.outputs[0])
    return workflow, [first.inputs[0], shared, second.inputs[2]]


SOURCES = ["none", "default", "lock default", "lock value", "unlocked", "unlocked without"]


def prepare(ctx, workflow, variables, way):
    """ Gives each input its default and lock, by the variable's methods or by the workflow's. """
    expected = []
    for i, v in enumerate(variables):
        index = position_of(workflow.inputs, v)
        offered = [SOURCES, SOURCES[:4], ["none", "default", "lock value"]][i]
        source = ctx.choice(f"source{i}", ctx.bound(offered, SOURCES))
        default = any_value(ctx, f"d{i}", ["none", "false"] if i == 0 else [])
        if source != "none" and source != "lock value":
            if way:
                workflow.set_input_default(index, default)
            else:
                v.default_value = default
        if source == "lock default":
            if way:
                workflow.lock_input(index)
            else:
                v.lock()
        elif source == "lock value":
            if way:
                workflow.lock_input(index, default)
            else:
                v.lock(default)
        elif source == "unlocked":
            v.lock()
            v.unlock()
        elif source == "unlocked without":
            v.lock()
            v.unlock(keep_default=False)
        if source in ("none", "unlocked without"):
            expected.append((False, False, None))
        else:
            expected.append((source.startswith("lock "), True, default))
    return expected


def result(values):
    return [[values[0], values[1]], values[1], values[2]]


def outcome(ctx, expected, entered):
    """ (complete, values): what each input must take. """
    values, complete = [], True
    for i, (locked, has_default, default) in enumerate(expected):
        if locked:
            values.append(default)
        elif i in entered:
            values.append(entered[i])
        elif has_default:
            values.append(default)
        else:
            values.append(None)
            complete = False
    return complete, values


@harness("C11", bounds="3 inputs (one feeding two blocks), each without default, with default, locked with its default or a "
                       "given value, or unlocked again (quick: fewer of these for the second and third); each entered or not; blocks and pipes listed in two orders; int values, "
                       "None and False", shards=8)
def precedence(ctx):
    """ Locked, else entered, else default, else an error. """
    workflow, variables = build(ctx)
    way = ctx.flag("workflow methods")
    expected = prepare(ctx, workflow, variables, way)
    for v, (locked, has_default, default) in zip(variables, expected):
        ctx.check(v.locked == locked and v.has_default_value == has_default, "locks and defaults are per input")
        if has_default:
            ctx.check(ctx.same(v.default_value, default), "each input has its own default")
    entered = {i: any_value(ctx, f"e{i}", ["none", "false"] if i == 1 else []) for i in range(3) if ctx.flag(f"entered{i}")}
    indexed = {position_of(workflow.inputs, variables[i]): value for i, value in entered.items()}
    before = dict(indexed)
    complete, values = outcome(ctx, expected, entered)
    try:
        run = workflow.run(indexed)
    except ValueError:
        ctx.check(not complete, "a run with all values goes through")
        return
    ctx.check(complete, "a missing value stops the run")
    ctx.check(ctx.same(run.output_value, result(values)), "each input takes its locked, entered or default value")
    ctx.check(ctx.same(indexed, before), "the entered values are left as they were")


@harness("C11", bounds="same inputs, through the serialized arguments of 'run'", shards=8)
def from_arguments(ctx):
    """ The same from a serialized form. """
    workflow, variables = build(ctx)
    expected = prepare(ctx, workflow, variables, False)
    entered = {i: any_value(ctx, f"e{i}", ["str", "none"] if i == 1 else []) for i in range(3) if ctx.flag(f"entered{i}")}
    indexed = {str(position_of(workflow.inputs, variables[i])): value for i, value in entered.items()}
    if ctx.flag("name"):
        indexed[str(len(workflow.inputs))] = "a name"
    complete, values = outcome(ctx, expected, entered)
    try:
        arguments = workflow.dict_to_arguments(indexed, "run")
        run = workflow.run(**arguments)
    except (ValueError, KeyError):
        ctx.check(not complete, "a run with all values goes through")
        return
    ctx.check(complete, "a missing value stops the run")
    ctx.check(ctx.same(run.output_value, result(values)), "each input takes its locked, entered or default value")
    if str(len(workflow.inputs)) in indexed:
        ctx.check(run.name == "a name", "the run takes the name given")


@harness("C11", bounds="same inputs; default dictionary of 'run' handed back with or without entered values", shards=4)
def default_dictionary(ctx):
    """ The dictionary of defaults holds each default under its input. """
    workflow, variables = build(ctx)
    expected = prepare(ctx, workflow, variables, False)
    defaults = workflow.method_dict("run")
    wanted = {str(position_of(workflow.inputs, v)): default
              for v, (_, has_default, default) in zip(variables, expected) if has_default}
    ctx.check(ctx.same(defaults, wanted), "each default under the index of its input")


@harness("C11", bounds="a state of the same workflow; inputs entered one by one or by block, in any order, twice for one",
         shards=4)
def states(ctx):
    """ Step by step, the last value entered counts, defaults fill the rest. """
    workflow, variables = build(ctx)
    has_default = [ctx.flag(f"default{i}") for i in range(3)]
    defaults = [ctx.int(f"d{i}") for i in range(3)]
    for v, flag, default in zip(variables, has_default, defaults):
        if flag:
            v.default_value = default
    state = workflow.start_run()
    current = [default if flag else None for default, flag in zip(defaults, has_default)]
    for n in range(2):
        i = ctx.choice(f"which{n}", [0, 1, 2])
        value = ctx.int(f"e{n}")
        current[i] = value
        index = position_of(workflow.inputs, variables[i])
        if ctx.flag(f"by block{n}") and i != 1:
            block = [b for b in workflow.blocks if variables[i] in b.inputs][0]
            rest = {workflow.input_index(v): current[variables.index(v)] for v in variables
                    if v is not variables[i] and v in [workflow.get_upstream_nbv(x) for x in block.inputs]}
            if any(v is None for v in rest.values()):
                return
            state.add_block_input_values(position_of(workflow.blocks, block), {str(k): v for k, v in
                                                                               {**rest, index: value}.items()})
        else:
            state.add_input_value(index, value)
    state.continue_run()
    complete = all(v is not None for v in current)
    ctx.check((state.progress == 1) == complete, "the state completes when every input has a value")
    if complete:
        ctx.check(ctx.same(state.output_value, result(current)), "each input takes the value entered last or its default")


class Model(DessiaObject):
    """ Signatures with defaults at various places. """

    def __init__(self, a: int, b: int = 11, c: int = 0, name: str = ""):
        self.a = a
        self.b = b
        self.c = c
        super().__init__(name=name)

    def method(self, x: int, y: int = 12, z: int = 13):
        """ Method. """
        return [self.a, x, y, z]

    def defaults_only(self, x: int = 21, y: int = 22):
        """ Method. """
        return [self.a, x, y]

    @classmethod
    def build(cls, x: int, y: int = 14):
        """ Class method. """
        return [x, y]

    @staticmethod
    def helper(x: int, y: int = 15, z: int = 16):
        """ Static method. """
        return [x, y, z]


@harness("C11", bounds="blocks made from a constructor, methods, class and static methods with 1..3 defaults; each argument "
                       "entered or not", shards=4)
def signature_defaults(ctx):
    """ Defaults announced by signatures are the defaults of the inputs. """
    kind = ctx.choice("kind", ["model", "method", "defaults only", "class", "static"])
    if kind == "model":
        block, defaults = InstantiateModel(Model), {"a": UNDEFINED, "b": 11, "c": 0, "name": ""}
    elif kind == "method":
        block = ModelMethod(MethodType(Model, "method"))
        defaults = {"Model": UNDEFINED, "x": UNDEFINED, "y": 12, "z": 13}
    elif kind == "defaults only":
        block = ModelMethod(MethodType(Model, "defaults_only"))
        defaults = {"Model": UNDEFINED, "x": 21, "y": 22}
    elif kind == "class":
        block, defaults = ClassMethod(ClassMethodType(Model, "build")), {"x": UNDEFINED, "y": 14}
    else:
        block = ClassMethod(ClassMethodType(Model, "helper"))
        defaults = {"x": UNDEFINED, "y": 15, "z": 16}
    workflow = Workflow([block], [], block.outputs[0])
    ctx.check([v.name for v in workflow.inputs] == list(defaults), "one input per argument")
    model = Model(ctx.int("model.a"))
    entered, values, complete = {}, {}, True
    for i, (name, default) in enumerate(defaults.items()):
        if name == "name":
            values[name] = ""
        elif ctx.flag("enter " + name):
            values[name] = entered[i] = model if name == "Model" else ctx.int(name)
        elif default is UNDEFINED:
            complete = False
        else:
            values[name] = default
    try:
        run = workflow.run(entered)
    except ValueError:
        ctx.check(not complete, "a run with all values goes through")
        return
    ctx.check(complete, "a missing value stops the run")
    got = run.output_value
    if kind == "model":
        ctx.check(ctx.same([got.a, got.b, got.c], [values["a"], values["b"], values["c"]]), "arguments as entered or default")
    elif kind in ("method", "defaults only"):
        ctx.check(ctx.same(got, [model.a] + [values[n] for n in list(defaults)[1:]]), "arguments as entered or default")
    else:
        ctx.check(ctx.same(got, [values[n] for n in defaults]), "arguments as entered or default")


@harness("C11", bounds="12 inputs; any one without value, with a default, locked or entered; another one with a default or locked")
def wide(ctx):
    """ More than ten inputs, by index or in serialized arguments. """
    block = Collect(12, name="wide")
    workflow = Workflow([block], [], block.outputs[0])
    one = ctx.choice("one", [0, 1, 2, 9, 10, 11])
    two = ctx.choice("two", [1, 6, 10])
    ctx.assume(one != two)
    values = [ctx.int(f"v{i}") for i in range(12)]
    entered = dict(enumerate(values))
    source = ctx.choice("source", ["entered", "none", "default", "locked"])
    if source != "entered":
        del entered[one]
    if source == "default":
        workflow.set_input_default(one, values[one])
    elif source == "locked":
        workflow.lock_input(one, values[one])
    values[two] = ctx.int("lock")
    if ctx.flag("lock two"):
        workflow.lock_input(two, values[two])
    else:
        workflow.set_input_default(two, values[two])
        del entered[two]
    if ctx.flag("backwards"):
        entered = dict(reversed(entered.items()))
    try:
        if ctx.flag("serialized"):
            run = workflow.run(**workflow.dict_to_arguments({str(i): v for i, v in entered.items()}, "run"))
        else:
            run = workflow.run(entered)
    except (ValueError, KeyError):
        ctx.check(source == "none", "a run with all values goes through")
        return
    ctx.check(source != "none", "a missing value stops the run")
    ctx.check(ctx.same(run.output_value, values), "each input takes its locked, entered or default value")
