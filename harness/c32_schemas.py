""" C32: the forms of classes, methods and workflows. """
import json
from typing import Any, Dict, List, Literal, Optional, Tuple, Type, Union

from dessia_common import core
from dessia_common.core import DessiaObject
from dessia_common.displays import DisplaySetting
from dessia_common.files import BinaryFile, StringFile
from dessia_common.measures import Distance
from dessia_common.schemas.core import ClassSchema, MethodSchema, Schema
from dessia_common.typings import AttributeType, InstanceOf, MethodType
from dessia_common.utils import helpers
from dessia_common.workflow.core import Step, Variable, Workflow
from harness.flows import Flow, Op, position_of, start
from harness.models import LETTERS, Leaf
from symex.ctx import harness

LEAF, DISTANCE = "harness.models.Leaf", "dessia_common.measures.Distance"
NOTHING = object()


class Holder(DessiaObject):
    """ Its constructor and its method are given by harnesses. """
    _allowed_methods = ["compute"]


class Whole(DessiaObject):
    """ Stands alone, or not. """


Holder.__module__ = __name__


def constructors():
    """ New functions, whose annotations and defaults can be set. """

    def init1(self, first, name=""):
        self.first = first
        DessiaObject.__init__(self, name=name)

    def init2(self, first, second, name=""):
        self.first, self.second = first, second
        DessiaObject.__init__(self, name=name)

    def init3(self, first, second, third, name=""):
        self.first, self.second, self.third = first, second, third
        DessiaObject.__init__(self, name=name)

    def method1(self, first):
        return (first,)

    def method2(self, first, progress_callback, second):
        return first, second

    def method3(self, first, second, third, progress_callback=None):
        return first, second, third
    return [init1, init2, init3], [method1, method2, method3]


NAMES = ["first", "second", "third"]


def leaf(ctx, name):
    """ An object and its serialized form. """
    value = ctx.int(name + ".value")
    return Leaf(value), {"object_class": LEAF, "name": "", "value": value, "weight": 0., "label": ""}


def argument(ctx, name, kinds):
    """ (annotation, default or NOTHING, serialized default, what it is rebuilt as) """
    kind = ctx.choice(name + ".kind", kinds)
    state = ctx.choice(name + ".default", ["nothing", "none", "value"])
    number, obj = ctx.int(name + ".n"), None
    if kind == "int":
        res = int, number, number
    elif kind == "float":
        real = ctx.real(name + ".r", -100, 100)
        res = float, real, real
    elif kind == "str":
        text = ctx.str(name + ".s", ctx.length(name + ".chars", 0, 1), LETTERS)
        res = str, text, text
    elif kind == "bool":
        flag = ctx.flag(name + ".b")
        res = bool, flag, flag
    elif kind == "measure":
        real = ctx.choice(name + ".length", [0., -2.5])
        form = {"object_class": DISTANCE, "value": real}
        res = Distance, real if ctx.flag(name + ".raw") else Distance(real), form
    elif kind == "object":
        obj, form = leaf(ctx, name)
        res = ctx.choice(name + ".marker", [Leaf, InstanceOf[Leaf], Optional[Leaf], Union[Leaf, Holder]]), obj, form
    elif kind == "tuple":
        obj, form = leaf(ctx, name)
        res = Tuple[int, Leaf, str], (number, obj, "t"), (number, form, "t")
    elif kind == "any tuple":
        items = (number, 3)[:ctx.length(name + ".items", 0, 2)]
        res = Tuple[int, ...], items, items
    elif kind == "list":
        res = ctx.choice(name + ".list", [List[int], Optional[List[int]]]), [number], None
    elif kind == "dict":
        res = Dict[str, int], {"k": number}, None
    elif kind == "literal":
        res = Literal["x", "y z"], "y z", "y z"
    elif kind == "optional":
        res = Optional[int], number, number
    elif kind == "attribute":
        form = {"object_class": "dessia_common.typings.AttributeType", "class_": LEAF, "name": "value"}
        res = AttributeType[Leaf], AttributeType(Leaf, "value"), form
    elif kind == "method":
        form = {"object_class": "dessia_common.typings.MethodType", "class_": LEAF, "name": "to_dict"}
        res = MethodType[Leaf], MethodType(Leaf, "to_dict"), form
    elif kind == "class":
        res = Type[Leaf], Leaf, LEAF
    else:
        res = Any, number, number
    if state == "nothing":
        return res[0], NOTHING, None, kind
    return (res[0], None, None, kind) if state == "none" else (*res, kind)


# What the form is filled with when the argument has no default
BLANK = {"measure": {"object_class": DISTANCE, "value": None}, "tuple": (None, None, None), "any tuple": (None,),
         "attribute": {"object_class": "dessia_common.typings.AttributeType", "class_": LEAF, "name": None},
         "method": {"object_class": "dessia_common.typings.MethodType", "class_": LEAF, "name": None}, "class": LEAF}
SIMPLE = ["int", "measure", "object", "list"]
KINDS = SIMPLE + ["float", "str", "bool", "tuple", "any tuple", "dict", "literal", "optional", "attribute", "method",
                  "class", "any"]
PRETTY = {"first": "First", "second": "Second", "third": "Third", "name": "Name"}


def arguments(ctx):
    """ One argument of any kind, among up to two others; those with a default are last. """
    count = ctx.length("count", 1, 3)
    which = ctx.select("which", count)
    res = [argument(ctx, NAMES[i], KINDS if i == which else ["int"] if i else ["list", "int"]) for i in range(count)]
    given = [d is not NOTHING for _, d, _, _ in res]
    ctx.assume(all(later or not earlier for earlier, later in zip(given, given[1:])))
    return res


def check_fields(ctx, schema, expected):
    """ expected: [(name, annotation text or None, has a default, serialized default)] """
    ctx.check(json.dumps(sorted(schema)) != "" and len(schema["steps"]) == 1, "one step")
    fields = schema["steps"][0]["properties"]
    ctx.check([f["key"] for f in fields] == [e[0] for e in expected], "one field by argument, in order")
    for field, (name, default, form, _) in zip(fields, expected):
        ctx.check(field["title"] == PRETTY[name] and field["editable"], "its title")
        ctx.check(("defaultValue" in field) == (default is not NOTHING), "a default when it has one", name)
        if default is not NOTHING:
            ctx.check(ctx.same(field["defaultValue"], form), "its default", name)


def blank(default, form, kind):
    return BLANK.get(kind) if default is NOTHING else form


def loose(value):
    """ Tuples come back as lists. """
    return [loose(v) for v in value] if isinstance(value, (list, tuple)) else value


@harness("C32", shards=6, budget=150,
         bounds="classes of 1..3 arguments besides their name, one of 16 kinds of annotation and the others integers or lists, "
                "each with a default value, None or nothing; unknown numbers and texts")
def classes(ctx):
    """ The form of a class, and what filling nothing in builds. """
    args = arguments(ctx)
    init = constructors()[0][len(args) - 1]
    init.__annotations__ = {**{n: a[0] for n, a in zip(NAMES, args)}, "name": str}
    init.__defaults__ = tuple(d for _, d, _, _ in args if d is not NOTHING) + ("",)
    Holder.__init__ = init
    clear()
    expected = [(n, d, f, k) for n, (_, d, f, k) in zip(NAMES, args)] + [("name", "", "", "str")]
    check_fields(ctx, Holder.schema(), expected)
    schema = ClassSchema(Holder)
    default = schema.default_dict()
    ctx.check(ctx.same(default, {**{n: blank(d, f, k) for n, d, f, k in expected},
                                 "object_class": "harness.c32_schemas.Holder"}), "the filled form", str(default))
    ctx.check(ctx.same(schema.default_value(), {n: f for n, d, f, _ in expected if d is not NOTHING}),
              "the defaults of the user")
    if all(d is not NOTHING for _, d, _, _ in args) and not any(k in ("list", "dict") for *_, k in args):
        built = Holder.dict_to_object(default)
        direct = Holder()
        for n, _, _, _ in expected:
            ctx.check(ctx.same(loose(getattr(built, n)), loose(getattr(direct, n))) or
                      getattr(built, n) == getattr(direct, n), "the object built without arguments", n)


def clear():
    """ Annotations of a class change from one path to the next one. """
    for cache in (core._fullargsspec_cache, helpers._PYTHON_CLASS_CACHE):
        cache.clear()


@harness("C32", shards=6, budget=150,
         bounds="methods of 1..3 arguments, with or without a progress callback, as for classes")
def methods(ctx):
    """ The form of a method, and the arguments it is called with when nothing is filled in. """
    args = arguments(ctx)
    method = constructors()[1][len(args) - 1]
    method.__annotations__ = {n: a[0] for n, a in zip(NAMES, args)}
    defaults = tuple(d for _, d, _, _ in args if d is not NOTHING)
    if len(args) == 2 and len(defaults) == 2:
        defaults = (defaults[0], None, defaults[1])
    elif len(args) == 3:
        defaults = defaults + (None,)
    method.__defaults__ = defaults
    Holder.compute = method
    Holder.__init__ = DessiaObject.__init__
    clear()
    expected = [(n, d, f, k) for n, (_, d, f, k) in zip(NAMES, args)]
    check_fields(ctx, MethodSchema(method).to_dict(), expected)
    holder = Holder()
    check_fields(ctx, holder.method_schemas["compute"], expected)
    default = holder.method_dict("compute")
    ctx.check(ctx.same(default, {n: blank(d, f, k) for n, d, f, k in expected}), "the filled form", str(default))
    if all(d is not NOTHING for _, d, _, _ in args) and not any(k in ("list", "dict") for *_, k in args):
        called = holder.compute(**holder.dict_to_arguments(default, "compute"), **({"progress_callback": None} if len(args) > 1 else {}))
        direct = holder.compute()
        for a, b in zip(called, direct):
            ctx.check(ctx.same(loose(a), loose(b)) or a == b, "the call without arguments")


def nested(ctx, name):
    """ An annotation that has no check of its own. """
    return ctx.choice(name, [int, str, Leaf, Tuple[int, str], List[float], Optional[int]])


def annotated(ctx, name):
    """ (annotation, default or NOTHING, number of errors, number of warnings) """
    kind = ctx.choice(name + ".kind", ["list", "dict", "union", "file", "class", "tuple", "sound"])
    state = ctx.choice(name + ".default", ["nothing", "none", "value"])
    number = ctx.int(name + ".n")
    errors = warnings = 0
    if kind == "list":
        inner = nested(ctx, name + ".items")
        res, value = List[inner], [number]
        errors = state == "value"
    elif kind == "dict":
        key, item = ctx.choice(name + ".key", [str, int, bool, float]), ctx.choice(name + ".item", [int, str, float, bool, Leaf, List[int]])
        res, value = Dict[key, item], {"k": number}
        errors = (key is not str) + (item in (Leaf, List[int])) + (state == "value")
    elif kind == "union":
        members = [Leaf, Holder, Whole][:ctx.length(name + ".members", 2, 3)]
        alone = [ctx.flag(f"{name}.alone{i}") for i in range(len(members))]
        for member, standalone in zip(members, alone):
            member._standalone_in_db = standalone
        res, value = Union[tuple(members)], Leaf(number)
        errors = len(set(alone)) > 1
    elif kind == "file":
        res, value = ctx.choice(name + ".file", [StringFile, BinaryFile]), StringFile()
        warnings = state != "nothing"
    elif kind == "class":
        res, value = ctx.choice(name + ".class", [Type[Leaf], InstanceOf[Leaf], Leaf, AttributeType[Leaf]]), None
    elif kind == "tuple":
        res, value = ctx.choice(name + ".tuple", [Tuple[int, ...], Tuple[Leaf], Tuple[int, str, Leaf]]), (number,)
    else:
        res, value = ctx.choice(name + ".sound", [int, Distance, Literal["a"], Any, str]), None
    if kind not in ("union", "file", "sound") and ctx.flag(name + ".optional"):
        res = Optional[res]
    return res, {"nothing": NOTHING, "none": None, "value": value}[state], int(errors), int(warnings)


def levels(checks, name):
    """ (errors, warnings) about an argument. """
    found = [c.level for c in checks.checks if c.message.startswith(f"Attribute '{name}' : ")]
    return found.count("error"), found.count("warning")


@harness("C32", shards=6, budget=150,
         bounds="two arguments, of a class or a method: lists, dictionaries, unions, files, tuples, classes and others, possibly "
                "optional, each with a default value, None or nothing; two steps")
def checks(ctx):
    """ Ill-defined arguments, and no others, are reported. """
    for class_ in (Leaf, Holder, Whole):
        class_._standalone_in_db = False
    first, second = annotated(ctx, "a"), (annotated(ctx, "b") if ctx.tier == "thorough" else
                                          ctx.choice("b", [(List[int], [1], 1, 0), (StringFile, None, 0, 1), (str, NOTHING, 0, 0)]))
    if first[1] is not NOTHING:
        ctx.assume(second[1] is not NOTHING)
    function = constructors()[0][1]
    function.__annotations__ = {"first": first[0], "second": second[0], "name": str}
    function.__defaults__ = tuple(d for d in (first[1], second[1]) if d is not NOTHING) + ("",)
    Holder.__init__ = function
    clear()
    schema = ClassSchema(Holder) if ctx.flag("class") else MethodSchema(function)
    report = schema.check_list()
    for name, (annotation, _, errors, warnings) in (("first", first), ("second", second), ("name", (str, "", 0, 0))):
        ctx.check(levels(report, name) == (errors, warnings), "the issues of each argument",
                  f"{annotation} {levels(report, name)} {errors} {warnings}")
        own = schema.property_schemas[name].check_list()
        ctx.check(levels(own, name) == (errors, warnings), "found on its own")
    failed = first[2] + second[2]
    ctx.check(schema.is_valid == (failed == 0), "valid when there is no error")
    ctx.check(len(report.checks_above_level("error")) == failed, "no other error")
    ctx.check(len(report.checks_above_level("warning")) == failed + first[3] + second[3], "no other warning")
    ctx.check(Schema(steps=[*schema.steps, *schema.steps]).is_valid == (failed == 0), "whatever the number of steps")


@harness("C32", shards=4, bounds="descriptions of unknown letters, possibly with colons or several lines, of any of two arguments in either order or of none, with or without types and "
                       "a description of what is returned")
def documented(ctx):
    """ Descriptions of docstrings are those of the form. """
    texts = [ctx.str(f"t{i}", 1, LETTERS) for i in range(3)]
    texts[1] = texts[1] + ctx.choice("middle", ["", ": ", ", ", "\n  ", ":type", "(:)"]) + ctx.str("t3", 1, LETTERS)
    order = ctx.choice("order", [(), (0,), (1,), (0, 1), (1, 0)])
    typed, returns = ctx.flag("typed"), ctx.flag("returns")
    doc = "  " + texts[2] + ctx.choice("end", ["", "\n\n", ". \n  "])
    for i in order:
        doc = doc + f"\n    :param {NAMES[i]}: " + texts[i] + ctx.choice(f"end{i}", ["", "\n", " \n\n "])
        if typed:
            doc = doc + f"\n    :type {NAMES[i]}: int"
    if returns:
        doc = doc + "\n    :return: something :param"
    function = constructors()[0][1]
    function.__annotations__ = {"first": int, "second": List[Leaf], "name": str}
    function.__defaults__ = ("",)
    function.__doc__ = doc
    Holder.__init__ = function
    Holder.__doc__ = doc
    clear()
    schema = (ClassSchema(Holder) if ctx.flag("class") else MethodSchema(function)).to_dict()
    Holder.__doc__ = None
    fields = schema["steps"][0]["properties"]
    description = texts[2] + ("." if "." in doc else "")
    ctx.check(ctx.eq(schema["description"], description), "the description of the whole")
    for i in range(2):
        ctx.check(ctx.eq(fields[i]["description"], texts[i] if i in order else ""), "the description of each argument")


@harness("C32", shards=6, budget=200,
         bounds="a workflow of 2 blocks of 2 inputs and a free variable, any wiring, with two steps, each input in a step or spare; "
                "any one input labelled, with a default value or locked; any step with a display and a group")
def workflows(ctx):
    """ The form of a workflow shows each input, as it is, in its step. """
    start(ctx)
    blocks, free = [Op("f", 2, name="Eff"), Op("g", 2, name="Gee")], Variable(type_=int, name="free_one")
    sources = [[None, ctx.choice("f1", [None, ("nbv", 0)])],
               [("out", 0, 0), ctx.choice("g1", [None, ("nbv", 0)])]]
    flow = Flow(blocks, sources, [free], (1, 0))
    inputs = flow.workflow.inputs
    special = ctx.select("special", len(inputs))
    label, value = ctx.choice("label", ["", "A label"]), ctx.int("value")
    state = ctx.choice("state", ["free", "default", "locked"])
    inputs[special].label = label
    if state == "default":
        inputs[special].default_value = value
    elif state == "locked":
        inputs[special].lock(value)
    places = [ctx.choice(f"place{i}", [0, 1, None]) for i in range(len(inputs))]
    steps = [Step(f"step {n}", [v for v, p in zip(inputs, places) if p == n], documentation=f"about {n}") for n in range(2)]
    workflow = Workflow(flow.workflow.blocks, flow.pipes, flow.workflow.output, steps=steps, description="what it does")
    numbers = {id(v): position_of(workflow.inputs, v) for v in inputs}
    group = []
    if ctx.flag("display"):
        shown = ctx.select("shown", 2)
        group = [v for v in workflow.steps[shown].inputs if ctx.flag(f"grouped{numbers[id(v)]}")]
        workflow.steps[shown].add_display_setting(DisplaySetting("view", "markdown", "view", None), group, 0)
    form = workflow.method_schemas["run"]
    ctx.check(form["description"] == "what it does" and form["method"] is True, "the form of the run")
    ctx.check([(s["label"], s["documentation"], s["group_id"], s["id"]) for s in form["steps"]] ==
              [(s.label, s.documentation, s.group_id, s.id_) for s in workflow.steps], "its steps, in order")
    ctx.check([s["displaySetting"] is not None for s in form["steps"]] ==
              [s.display_setting is not None for s in workflow.steps], "their displays")
    fields = {}
    for step, dict_ in zip(workflow.steps, form["steps"]):
        properties = list(dict_["properties"])
        grouped = [v for v in step.inputs if any(v is g for g in group)]
        if grouped:
            last = properties.pop()
            ctx.check(last["formType"] == "group" and last["key"] == step.group_id, "the group of the step is last")
            ctx.check([f["key"] for f in last["properties"]] == [str(numbers[id(v)]) for v in grouped], "its inputs, in order")
            fields.update({f["key"]: f for f in last["properties"]})
        ctx.check([f["key"] for f in properties] ==
                  [str(numbers[id(v)]) for v in step.inputs if not any(v is g for g in grouped)], "the inputs of the step")
        fields.update({f["key"]: f for f in properties})
    spare = form["spareProperties"]
    ctx.check(sorted(f["key"] for f in spare) == sorted(str(numbers[id(v)]) for v, p in zip(inputs, places) if p is None),
              "the other inputs are spare")
    fields.update({f["key"]: f for f in spare})
    for b, block in enumerate(blocks):
        for i, variable in enumerate(block.inputs):
            if sources[b][i] is None:
                title = f"{block.name} - {NAMED[i]}"
                check_input(ctx, fields[str(numbers[id(variable)])], variable, title, inputs[special], label, state, value)
    if any(s == ("nbv", 0) for feeds in sources for s in feeds):
        check_input(ctx, fields[str(numbers[id(free)])], free, "Free One", inputs[special], label, state, value)


NAMED = ["In0", "In1"]


def check_input(ctx, field, variable, title, special, label, state, value):
    """ A field of the form of a workflow. """
    chosen = variable is special
    ctx.check(field["title"] == (label if chosen and label else title), "its label, or its name", field["title"])
    ctx.check(field["pythonTyping"] == "int", "its annotation")
    ctx.check(field["editable"] == (not (chosen and state == "locked")), "locked inputs are not editable")
    ctx.check(("defaultValue" in field) == (chosen and state != "free"), "a default when it has one")
    if "defaultValue" in field:
        ctx.check(ctx.eq(field["defaultValue"], value), "its default")
