""" C34: plots of datasets and of display blocks. """
import numpy

CORRELATIONS = []


def corrcoef(*args, **kwargs):
    """ Stands for numpy's correlations while a harness provides them: one of its own, in the order of the calls. """
    if CORRELATIONS:
        return CORRELATIONS[-1]()
    return REAL(*args, **kwargs)


REAL = numpy.corrcoef
numpy.corrcoef = corrcoef

from dessia_common.core import DessiaObject  # noqa: E402
from dessia_common.datatools.cluster import ClusteredDataset  # noqa: E402
from dessia_common.datatools.dataset import Dataset  # noqa: E402
from dessia_common.utils.helpers import get_in_object_from_path  # noqa: E402
from dessia_common.workflow.blocks import MultiObject, MultiPlot, ParallelView, ScatterView  # noqa: E402
from symex.ctx import harness  # noqa: E402


class Row(DessiaObject):
    """ Three features. """
    _vector_features = ["a", "b", "c"]

    def __init__(self, a: float, b: float, c: float, name: str = ""):
        self.a = a
        self.b = b
        self.c = c
        super().__init__(name=name)


class Swapped(Row):
    """ Two of them, in another order. """
    _vector_features = ["b", "a"]


class Holder(DessiaObject):
    """ Features of a sub-object. """
    _vector_features = ["sub/b", "d", "sub/a"]

    def __init__(self, sub: Row, d: float, name: str = ""):
        self.sub = sub
        self.d = d
        super().__init__(name=name)


class Five(DessiaObject):
    """ Five features. """
    _vector_features = ["a", "b", "c", "d", "e"]

    def __init__(self, values, name: str = ""):
        self.a, self.b, self.c, self.d, self.e = values
        super().__init__(name=name)


class Four(Five):
    """ Four features. """
    _vector_features = ["a", "b", "c", "d"]


class Three(Five):
    """ Three features. """
    _vector_features = ["a", "b", "c"]


def feature(obj, attr):
    for segment in attr.split("/"):
        obj = getattr(obj, segment)
    return obj


def shown(ctx, elements, objects, attributes, prefix, root, labels=None):
    """ One element per object, at its values, whose reference leads to it. """
    ctx.check(len(elements) == len(objects), "one point per object")
    for i, (element, obj) in enumerate(zip(elements, objects)):
        values = dict(element.values)
        if labels is not None:
            ctx.check("Cluster Label" in values and bool(values.pop("Cluster Label") == labels[i]), "points tell their label")
        ctx.check(set(values) == set(attributes), "the attributes shown, and only them", str(set(values)))
        ctx.check(ctx.same([values[a] for a in attributes], [feature(obj, a) for a in attributes]),
                  "each point at the values of its object")
        path = element.reference_path
        ctx.check(path.startswith(prefix + "/"), "references start with the path given", path)
        ctx.check(get_in_object_from_path(root, "#" + path[len(prefix):]) is obj, "references lead to the object shown", path)
        if obj.name:
            ctx.check(element.name == obj.name or element.name == f"Sample {i}", "points are named")
        else:
            ctx.check(bool(element.name), "points have a name")


def figure_attributes(figure):
    return [figure.x_variable] if hasattr(figure, "x_variable") else list(figure.attribute_names)


def objects_of(ctx, n):
    kinds = [ctx.choice(f"k{i}", [Row, Swapped]) for i in range(n)]
    rows = [k(ctx.real(f"a{i}"), ctx.real(f"b{i}"), ctx.real(f"c{i}"), name=ctx.choice(f"n{i}", ["", "x"]))
            for i, k in enumerate(kinds)]
    attributes = ["a", "b", "c"] if all(k is Row for k in kinds) else ["a", "b"]
    if ctx.flag("held"):
        return [Holder(r, ctx.real(f"d{i}"), name=f"h{i}") for i, r in enumerate(rows)], ["sub/b", "d", "sub/a"]
    return rows, attributes


@harness("C34", bounds="1..3 objects of 3 classes, any mix of two of them, symbolic values, named or not; 2 paths of the dataset", shards=4)
def scatters(ctx):
    """ Scatter matrices of datasets. """
    n = ctx.length("n", 1, ctx.bound(2, 3))
    objects, attributes = objects_of(ctx, n)
    labels = None
    if ctx.flag("clustered"):
        labels = [ctx.int(f"l{i}", -1, 1) for i in range(n)]
        data = ClusteredDataset(list(objects), labels=list(labels))
    else:
        data = Dataset(list(objects))
    prefix = ctx.choice("path", ["#", "#/results/0"])
    plot = data.plot_scatter_matrix(reference_path=prefix)
    shown(ctx, plot.elements, objects, attributes, prefix, data, labels)
    pairs = [frozenset(figure_attributes(p)) for p in plot.plots]
    ctx.check(len(pairs) == len(attributes) ** 2, "one plot for each two attributes")
    order = list(data.common_attributes)
    ctx.check(set(order) == set(attributes), "the common attributes")
    ctx.check(all(pairs[i * len(order) + j] == frozenset([x, y]) for i, x in enumerate(order) for j, y in enumerate(order)),
              "line i, column j shows attributes i and j", str(pairs))
    families(ctx, plot.points_sets, n, labels or [0] * n)


def families(ctx, sets, n, labels):
    """ The families split the points, those of one label together. """
    found = [list(family.indices) for family in sets]
    flat = [i for indices in found for i in indices]
    ctx.check(sorted(flat) == list(range(n)), "each point is in one family", str(found))
    for indices in found:
        for i in indices:
            for j in range(n):
                ctx.check((j in indices) == bool(labels[i] == labels[j]), "a family holds the points of one label", str(found))


@harness("C34", bounds="1..4 objects, labels from -1 to 3, some of them unused", shards=4)
def families_of_labels(ctx):
    """ Families of points of clustered datasets, whichever labels are used. """
    n = ctx.length("n", 1, ctx.bound(3, 4))
    labels = [ctx.int(f"l{i}", -1, 3) for i in range(n)]
    objects = [Row(float(i), float(-i), 1.) for i in range(n)]
    data = ClusteredDataset(objects, labels=list(labels))
    if ctx.flag("picked"):
        data, labels, objects = data[1:], labels[1:], objects[1:]
        n -= 1
        if not n:
            return
    plot = data.plot_scatter_matrix()
    shown(ctx, plot.elements, objects, ["a", "b", "c"], "#", data, labels)
    families(ctx, plot.points_sets, n, labels)


def table(ctx, kind, size, n):
    """ n objects, each column of which is constant or not. """
    constant = [ctx.flag(f"constant{j}") for j in range(size)]
    return [kind([1. if j < size and constant[j] else float((i + 1) ** (j + 1)) for j in range(5)], name=f"r{i}") for i in range(n)]


def axes(ctx, kind, size, free):
    """ Parallel plots show each common attribute once, whatever the correlations. """
    n = ctx.length("n", 1, 2)
    objects = table(ctx, kind, size, n)
    data = Dataset(objects) if not ctx.flag("clustered") else ClusteredDataset(objects, labels=[0] * n)
    count = [0]

    def provide():
        count[0] += 1
        value = ctx.real(f"r{count[0]}", 0, 1) if count[0] <= free else 1 / count[0]
        return numpy.array([[1, value], [value, 1]], dtype=object)
    CORRELATIONS.append(provide)
    try:
        plot = data.plot_parallel_plot()
    finally:
        CORRELATIONS.pop()
    ctx.check(sorted(plot.attribute_names) == list("abcde"[:size]), "each attribute on one axis", str(plot.attribute_names))
    shown(ctx, plot.elements, objects, list("abcde"[:size]), "#", data, [0] * n if isinstance(data, ClusteredDataset) else None)


@harness("C34", bounds="3 attributes, each constant or not, any correlations; 1..2 objects", shards=4)
def axes_of_three(ctx):
    """ Axes of parallel plots. """
    axes(ctx, Three, 3, 3)


@harness("C34", bounds="5 attributes, each constant or not, 2 (quick) / 4 (thorough) of the correlations arbitrary, the others "
                       "fixed; 1..2 objects", shards=8)
def axes_of_five(ctx):
    """ Axes of parallel plots of many attributes. """
    axes(ctx, Five, 5, ctx.bound(2, 4))


class Stand:
    """ A figure read from its dictionary. """

    def __init__(self, dict_):
        self.values = dict_["values"]
        self.reference_path = dict_["reference_path"]
        self.name = dict_["name"]


@harness("C34", bounds="0..3 objects with symbolic values, deep attributes or not; 2 paths; 1..2 views", shards=4)
def blocks(ctx):
    """ Display blocks that plot lists of objects. """
    n = ctx.length("n", 0, ctx.bound(2, 3))
    objects, attributes = objects_of(ctx, n)
    prefix = ctx.choice("path", ["#", "#/results"])
    used = ctx.choice("order", [attributes, attributes[::-1], attributes[:2]])
    if ctx.flag("multiplot"):
        block = MultiPlot(selector_name="plot", attributes=list(used))
        wanted = [list(used[:2]), list(used)]
    else:
        views = [ScatterView(attributes=tuple(used[:2]))]
        wanted = [list(used[:2])]
        second = ctx.choice("second", [None, "parallel", "scatter"])
        if second == "parallel":
            views.append(ParallelView(attributes=list(used)))
            wanted.append(list(used))
        elif second == "scatter":
            views.insert(ctx.choice("place", [0, 1]), ScatterView(attributes=tuple(used[-2:])))
            wanted = [list(v.attributes) for v in views]
        block = MultiObject(selector_name="plot", configurations=views)
    plot, = block.evaluate({block.inputs[0]: list(objects)}, reference_path=prefix)
    every = [a for a in used if any(a in w for w in wanted)]
    shown(ctx, [Stand(e) for e in plot["elements"]], objects, every, prefix, objects)
    ctx.check(len(plot["plots"]) == len(wanted), "one figure per view")
    for figure, names in zip(plot["plots"], wanted):
        ctx.check(list(figure["attribute_names"]) == names, "figures show the attributes asked", str(figure["attribute_names"]))
        shown(ctx, [Stand(e) for e in figure["elements"]], objects, names, prefix, objects)
