""" C20: interpolation on a list of samples. """
from dessia_common.utils.interpolation import interpolate_from_istep, istep_from_value_on_list
from symex.ctx import harness


def samples(ctx, name, low, high):
    return [ctx.real(f"{name}{i}", -1000, 1000) for i in range(ctx.length(f"{name}.n", low, high))]


def between(ctx, x, a, b):
    """ x lies between a and b, whichever is the greater. """
    return ctx.any_([ctx.all_([a <= x, x <= b]), ctx.all_([b <= x, x <= a])])


@harness("C20", bounds="2..4 (quick) / 2..6 (thorough) samples, increasing, decreasing, repeated or in any order, every value",
         shards=8)
def position(ctx):
    """ The position of a value is one at which the interpolation gives that value, in the first segment holding it. """
    points = samples(ctx, "p", 2, ctx.bound(4, 6))
    value = ctx.real("value", -1000, 1000)
    extrapolate = ctx.flag("extrapolate")
    held = ctx.any_([between(ctx, value, a, b) for a, b in zip(points, points[1:])])
    try:
        istep = istep_from_value_on_list(list(points), value, extrapolate=extrapolate)
    except ValueError:
        ctx.check(not extrapolate, "extrapolating never refuses a value")
        ctx.check(ctx.not_(held), "a value within the samples is found")
        return
    if not extrapolate:
        ctx.check(held, "a value out of the samples is refused")
    ctx.check(ctx.all_([istep >= 0, istep <= len(points) - 1]), "the position is within the list")
    back = interpolate_from_istep(points, istep)
    if held:
        ctx.check(ctx.near(back, value), "interpolating at the position of a value gives the value")
        for i, (a, b) in enumerate(zip(points, points[1:])):
            ctx.check(ctx.implies(between(ctx, value, a, b), istep <= i + 1), "the first position is given")
    else:
        ends = [abs(points[0] - value), abs(points[-1] - value)]
        ctx.check(ctx.any_([ctx.all_([istep == 0, ends[0] <= ends[1]]), ctx.all_([istep == len(points) - 1, ends[1] <= ends[0]])]),
                  "out of the samples, the nearest end is given")


@harness("C20", bounds="1..4 (quick) / 1..6 (thorough) samples, every position", shards=4)
def value_at(ctx):
    """ The value at a position is on the segment joining the neighbouring samples. """
    points = samples(ctx, "p", 1, ctx.bound(4, 6))
    n = len(points)
    istep = ctx.real("istep", -3, 10) if ctx.flag("any") else ctx.length("index", 0, n)
    inside = ctx.all_([istep >= 0, istep <= n - 1])
    try:
        value = interpolate_from_istep(list(points), istep)
    except ValueError:
        ctx.check(ctx.not_(inside), "positions within the list are accepted")
        return
    ctx.check(inside, "positions out of the list are refused")
    for i, point in enumerate(points):
        ctx.check(ctx.implies(istep == i, ctx.near(value, point)), "at a sample, the sample")
    for i, (a, b) in enumerate(zip(points, points[1:])):
        if ctx.all_([istep >= i, istep <= i + 1]):
            ctx.check(ctx.near(value, a + (istep - i) * (b - a)), "between two samples, the point of the segment")
            ctx.check(ctx.any_([between(ctx, value, a, b), ctx.near(value, a), ctx.near(value, b)]),
                      "within the range of the neighbouring samples")
