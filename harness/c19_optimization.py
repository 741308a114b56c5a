""" C19: parameters of optimizations and designs of experiments. """
import sys
import types

import random

import numpy

STANDIN = {}


def stand_in(module, name):
    """ Replaces a library function by whatever the harness says, when it says something. """
    real = getattr(module, name)

    def call(*args, **kwargs):
        func = STANDIN.get(name)
        return real(*args, **kwargs) if func is None else func(*args, **kwargs)
    setattr(module, name, call)


try:
    import pyDOE2
except ImportError:  # it does not support recent versions of python
    pyDOE2 = types.ModuleType("pyDOE2")
    pyDOE2.fullfact = pyDOE2.lhs = None
    sys.modules["pyDOE2"] = pyDOE2

import cma  # noqa: E402
import scipy.optimize  # noqa: E402

for _module, _name in [(pyDOE2, "fullfact"), (pyDOE2, "lhs"), (cma, "fmin"), (scipy.optimize, "minimize"), (random, "uniform")]:
    stand_in(_module, _name)

from dessia_common.core import DessiaObject, Parameter, ParameterSet  # noqa: E402
from dessia_common.datatools.sampling import ClassSampler  # noqa: E402
from dessia_common.optimization import (BoundedAttributeValue, FixedAttributeValue,  # noqa: E402
                                        InstantiatingModelOptimizer)
from symex.ctx import harness  # noqa: E402

NAMES = ["first", "second", "third"]


class Model(DessiaObject):
    """ What is optimized or sampled. """
    _vector_features = NAMES

    def __init__(self, first, second, third, name: str = ""):
        self.first = first
        self.second = second
        self.third = third
        super().__init__(name=name)


class Optimizer(InstantiatingModelOptimizer):
    """ An optimizer with an arbitrary cost. """
    cost = None

    def instantiate_model(self, attributes_values):
        return Model(**attributes_values)

    def objective_from_model(self, model, clearance: float = 0.003):
        return Optimizer.cost(model)


def interval(ctx, name):
    low, high = ctx.real(f"{name}.low", -1000, 1000), ctx.real(f"{name}.high", -1000, 1000)
    ctx.assume(low < high)
    return low, high


@harness("C19", bounds="every bound min < max and value in [-1000, 1000], every dimensionless value in [-2, 2]")
def one(ctx):
    """ One attribute, both ways. """
    low, high = interval(ctx, "b")
    bound = BoundedAttributeValue("first", low, high, number=ctx.choice("number", [1, 2, 7]))
    value = ctx.real("value", -1000, 1000)
    dimless = ctx.real("dimless", -2, 2)
    there = bound.dimensionless_value(value)
    ctx.check(ctx.near(bound.dimensionless_to_value(there), value), "there and back")
    ctx.check(ctx.near(bound.dimensionless_value(bound.dimensionless_to_value(dimless)), dimless), "back and there")
    ctx.check(ctx.near(bound.dimensionless_value(low), 0), "the lower bound is 0")
    ctx.check(ctx.near(bound.dimensionless_value(high), 1), "the upper bound is 1")
    ctx.check(ctx.near(bound.dimensionless_to_value(0), low), "0 is the lower bound")
    ctx.check(ctx.near(bound.dimensionless_to_value(1), high), "1 is the upper bound")
    clear = 0.001
    ctx.check(ctx.implies(ctx.all_([low + clear <= value, value <= high - clear]), ctx.all_([there >= 0, there <= 1])), "inside")
    ctx.check(ctx.implies(ctx.any_([value <= low - clear, value >= high + clear]), ctx.any_([there < 0, there > 1])), "outside")
    ctx.check(ctx.all_([bound.min_value == low, bound.max_value == high]), "bounds kept")


def problem(ctx):
    """ Fixed and bounded attributes in any order. """
    order = ctx.choice("order", [(0, 1, 2), (2, 0, 1), (1, 0, 2)])
    n_bounds = ctx.length("bounds", 0, 3)
    fixed = [FixedAttributeValue(NAMES[i], ctx.real(f"fixed{i}", -1000, 1000)) for i in order[n_bounds:]]
    bounds = []
    for i in order[:n_bounds]:
        low, high = interval(ctx, f"bound{i}")
        bounds.append(BoundedAttributeValue(NAMES[i], low, high))
    return fixed, bounds


def spot(ctx, name, bounds):
    """ A dimensionless point. """
    return [ctx.real(f"{name}{i}", 0, 1) for i in range(len(bounds))]


def expected(fixed, bounds, point):
    res = {f.attribute_name: f.value for f in fixed}
    for bound, x in zip(bounds, point):
        res[bound.attribute_name] = bound.min_value + x * (bound.max_value - bound.min_value)
    return res


def is_model(ctx, model, fixed, bounds, point, label):
    ctx.check(isinstance(model, Model), "a model")
    for key, value in expected(fixed, bounds, point).items():
        ctx.check(ctx.near(getattr(model, key), value), label + key)


@harness("C19", bounds="3 attributes, 0..3 of them bounded, in 3 orders, every value", shards=2)
def vectors(ctx):
    """ A vector goes to the attributes it stands for. """
    fixed, bounds = problem(ctx)
    Optimizer.cost = staticmethod(lambda model: ctx.uf("cost", [model.first, model.second, model.third], "real"))
    opti = Optimizer(fixed, bounds)
    point = spot(ctx, "x", bounds)
    vector = opti.dimensionless_vector_to_vector(point)
    values = opti.vector_to_attributes_values(vector)
    should = expected(fixed, bounds, point)
    ctx.check(len(vector) == len(bounds) and set(values) == set(should), "every attribute has a value")
    for key, value in should.items():
        ctx.check(ctx.near(values[key], value), "each attribute gets its own value")
    raw = [ctx.real(f"raw{i}", -1000, 1000) for i in range(len(bounds))]
    direct = opti.vector_to_attributes_values(raw)
    for f in fixed:
        ctx.check(direct[f.attribute_name] == f.value, "fixed attributes keep their value")
    for bound, x in zip(bounds, raw):
        ctx.check(direct[bound.attribute_name] == x, "values are written in order")
    seen = []
    Optimizer.cost = staticmethod(lambda model: seen.append(model) or 5.)
    ctx.check(opti.objective_from_dimensionless_vector(point) == 5. and len(seen) == 1, "the cost is the one of the model")
    is_model(ctx, seen[0], fixed, bounds, point, "the cost is computed on the model at this point: ")


@harness("C19", bounds="3 attributes, 1..3 of them bounded; the library optimizers return any point within the bounds they were "
                       "given, with its cost; every cost value", shards=4)
def optimum(ctx):
    """ The optimum returned is the model at the best point found, with its cost. """
    fixed, bounds = problem(ctx)
    ctx.assume(len(bounds) > 0)
    costs, starts = [], []

    def cost(model):
        for known, value in costs:
            if ctx.all_([ctx.near(getattr(known, name), getattr(model, name)) for name in NAMES]):
                return value
        value = ctx.real(f"cost{len(costs)}", -1000, 1000)
        costs.append((model, value))
        return value
    Optimizer.cost = staticmethod(cost)
    found = {}

    def run(kind, func, x0, lows, highs):
        start = list(x0)
        starts.append((kind, start))
        for x, low, high in zip(start, lows, highs):
            ctx.check(low <= x, "the optimization starts within its bounds")
            ctx.check(x <= high, "the optimization starts within its bounds")
        ctx.check(len(start) == len(bounds), "one unknown per bounded attribute")
        ctx.check(list(lows) == [0] * len(bounds) and list(highs) == [1] * len(bounds), "normalised bounds are 0 and 1")
        point = spot(ctx, kind, bounds)
        found[kind] = (point, func(point))
        return found[kind]

    def fmin(func, x0, sigma, options=None, **_):
        return run("cma", func, x0, *options["bounds"]) + (None, None)

    def minimize(func, x0, bounds=None, method=None, **_):
        point, value = run("gradient", func, x0, [b[0] for b in bounds], [b[1] for b in bounds])
        return types.SimpleNamespace(x=point, fun=value)
    STANDIN.update({"fmin": fmin, "minimize": minimize})
    try:
        opti = Optimizer(fixed, bounds)
        kind = ctx.choice("method", ["cma", "gradient", "given start", "both"])
        given = spot(ctx, "start", bounds)
        if kind == "cma":
            model, value = opti.optimize_cma()
        elif kind == "gradient":
            model, value = opti.optimize_gradient()
        elif kind == "given start":
            model, value = opti.optimize_gradient(x0=given)
        else:
            model, value = opti.optimize_cma_then_gradient()
    finally:
        STANDIN.clear()
    if kind == "given start":
        ctx.check(ctx.all_([ctx.near(x, y) for x, y in zip(starts[-1][1], given)]), "starts where asked")
    if kind == "both":
        ctx.check(ctx.all_([ctx.near(x, y) for x, y in zip(starts[-1][1], found["cma"][0])]),
                  "the second optimization starts at the result of the first")
        best = "cma" if found["cma"][1] <= found["gradient"][1] else "gradient"
        ctx.check(ctx.all_([value <= v for _, v in found.values()]), "the best of both")
    else:
        best = "cma" if kind == "cma" else "gradient"
    ctx.check(ctx.near(value, found[best][1]), "the cost is the one of the point found")
    is_model(ctx, model, fixed, bounds, found[best][0], "the model is the one at the point found: ")


def fullfact(levels):
    """ All the combinations of levels, as pyDOE2 gives them: the first factor changes first. """
    rows = [[]]
    for n in reversed(levels):
        rows = [[i] + row for row in rows for i in range(n)]
    return numpy.array(rows, dtype=float).reshape(len(rows), len(levels))


@harness("C19", bounds="3 attributes, 0..3 of them sampled with 1..3 levels each, every bound and value", shards=4)
def factorial(ctx):
    """ Every combination of the levels exactly once, the others at their fixed value. """
    fixed, bounds = problem(ctx)
    for bound in bounds:
        bound.number = ctx.length(f"{bound.attribute_name}.number", 1, 3)
    STANDIN["fullfact"] = fullfact
    try:
        doe = list(ClassSampler(Model, bounds, fixed).make_doe(7, "fullfact"))
    finally:
        STANDIN.clear()
    combos = [()]
    for bound in bounds:
        combos = [c + (i,) for c in combos for i in range(bound.number)]
    ctx.check(len(doe) == len(combos), "as many samples as combinations")
    for combo in combos:
        point = [i / (b.number - 1) if b.number > 1 else 0 for i, b in zip(combo, bounds)]
        should = expected(fixed, bounds, point)
        ctx.check(ctx.any_([ctx.all_([ctx.near(getattr(m, k), v) for k, v in should.items()]) for m in doe]),
                  "every combination of levels is there")


@harness("C19", bounds="3 attributes, 0..3 of them sampled, 0..2 samples, every drawn value", shards=2)
def drawn(ctx):
    """ Drawn values go to the attributes they are drawn for, within bounds. """
    fixed, bounds = problem(ctx)
    samples = ctx.length("samples", 0, 2)
    points = [spot(ctx, f"draw{i}.", bounds) for i in range(samples)]
    method = ctx.choice("method", ["lhs", "montecarlo"])
    flow = iter([(b, x) for point in points for b, x in zip(bounds, point)])

    def uniform(low, high):
        bound, x = next(flow)
        ctx.check(ctx.all_([low == bound.min_value, high == bound.max_value]), "drawn within the bounds of the attribute")
        return low + x * (high - low)

    def lhs(n, samples=None, criterion=None, **_):
        ctx.check(n == len(bounds) and samples == len(points), "as many unknowns and samples as asked")
        return [list(p) for p in points]
    STANDIN.update({"lhs": lhs, "uniform": uniform})
    try:
        doe = list(ClassSampler(Model, bounds, fixed).make_doe(samples, method))
    finally:
        STANDIN.clear()
    ctx.check(len(doe) == samples, "as many samples as asked")
    for model, point in zip(doe, points):
        is_model(ctx, model, fixed, bounds, point, "each sample has its drawn values: ")


@harness("C19", bounds="every bound min < max, value in [-1000, 1000] and normalised value in [-2, 2]; periodicity None or "
                       "1 to 3 concrete values, -3..3 whole periods; any draw within the bounds asked for")
def parameter(ctx):
    """ Parameters: both ways, bounds, periods. """
    low, high = interval(ctx, "b")
    period = ctx.choice("period", [None, 1., 0.25, 360.])
    param = Parameter(low, high, periodicity=period, name="p")
    value, normal = ctx.real("value", -1000, 1000), ctx.real("normal", -2, 2)
    if ctx.flag("conversions"):
        ctx.check(ctx.near(param.original_value(param.normalize(value)), value), "there and back")
        ctx.check(ctx.near(param.normalize(param.original_value(normal)), normal), "back and there")
        ctx.check(ctx.near(param.normalize(low), 0), "the lower bound is 0")
        ctx.check(ctx.near(param.normalize(high), 1), "the upper bound is 1")
        ctx.check(ctx.near(param.original_value(0), low), "0 is the lower bound")
        ctx.check(ctx.near(param.original_value(1), high), "1 is the upper bound")
        bounds = param.optimizer_bounds()
        if period is None:
            ctx.check(bounds is None, "no bounds without a period")
        else:
            ctx.check(ctx.near(bounds[0], low - period / 2), "half a period below")
            ctx.check(ctx.near(bounds[1], high + period / 2), "half a period above")
        drawn = ctx.real("drawn", 0, 1)
        asked = []

        def uniform(*args, **kwargs):
            asked.append((args, kwargs))
            first, last = list(args) + list(kwargs.values())
            return first + drawn * (last - first)
        STANDIN["uniform"] = uniform
        try:
            got = param.random_value()
        finally:
            STANDIN.pop("uniform", None)
        ctx.check(ctx.all_([got >= low - 1e-6, got <= high + 1e-6]), "drawn within the bounds")
        if asked:
            ctx.check(ctx.near(got, low + drawn * (high - low)), "every value of the interval can be drawn")
        return
    tol = ctx.choice("tol", [None, 0.01, 0.1])
    options = {} if tol is None else {"tol": tol}
    tol = 0.01 if tol is None else tol
    value = ctx.real("small", -1000, 1000) if period is None else ctx.real("small", -3, 3) * period
    if period is None:
        other = ctx.real("other", -1000, 1000)
        gap = abs(other - value)
    else:
        turns = ctx.int("turns", -3, 3)
        shift = ctx.real("shift", -0.5, 0.5) * period
        other = value + shift + period * turns
        rest = value / period - numpy_floor(ctx, value / period)
        ctx.assume(ctx.all_([rest * period + shift > 1e-6, rest * period + shift < period - 1e-6,
                             rest > 1e-6 / period, rest < 1 - 1e-6 / period]))
        gap = abs(shift)
    told = bool(param.are_values_equal(value, other, **options))
    back = bool(param.are_values_equal(other, value, **options))
    ctx.check(told == back, "symmetric")
    ctx.check(ctx.implies(gap <= tol * 0.999, told), "equal up to the tolerance, whole periods aside")
    slack = 1e-9 * (abs(value) + abs(other)) if period is None else 1e-9 * period
    ctx.check(ctx.implies(gap > tol * 1.001 + slack * 2, not told), "different beyond the tolerance")


def numpy_floor(ctx, x):
    """ The integer below x. """
    below = ctx.int("below", -10, 10)
    ctx.assume(ctx.all_([below <= x, x < below + 1]))
    return below


@harness("C19", bounds="1 or 2 names, 1..3 values each, every value", shards=2)
def parameter_sets(ctx):
    """ The parameters of a set span its values. """
    names = ["a", "b"][:ctx.length("names", 1, 2)]
    values = {}
    for name in names:
        values[name] = [ctx.real(f"{name}{i}", -1000, 1000) for i in range(ctx.length(name, 1, 3))]
    before = {k: list(v) for k, v in values.items()}
    group = ParameterSet(values, name="g")
    params, means = group.parameters, group.means
    ctx.check([p.name for p in params] == names, "one parameter per name, in order")
    ctx.check(list(means) == names, "one mean per name")
    for param in params:
        held = before[param.name]
        ctx.check(ctx.all_([ctx.all_([param.lower_bound <= v, v <= param.upper_bound]) for v in held]), "no value out of bounds")
        ctx.check(ctx.any_([ctx.eq(param.lower_bound, v) for v in held]), "the lower bound is one of the values")
        ctx.check(ctx.any_([ctx.eq(param.upper_bound, v) for v in held]), "the upper bound is one of the values")
        ctx.check(ctx.near(means[param.name] * len(held), sum(held)), "mean")
        ctx.check(ctx.same(group.values[param.name], held), "values unchanged")
