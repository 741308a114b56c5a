""" C08: rows, columns, objects and labels of a dataset stay aligned. """
from dessia_common.core import DessiaFilter, DessiaObject, FiltersList
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset
from symex.ctx import harness


class Row(DessiaObject):
    """ Two features. """
    _vector_features = ["a", "b"]

    def __init__(self, a: float = 0., b: float = 0., c: float = 0., name: str = ""):
        self.a = a
        self.b = b
        self.c = c
        super().__init__(name=name)


class Wide(Row):
    """ The same features and one more, in another order. """
    _vector_features = ["c", "b", "a"]


class Swapped(Row):
    """ The same features, in another order. """
    _vector_features = ["b", "a"]


class Narrow(Row):
    """ One feature. """
    _vector_features = ["b"]


# Another class of the name of the first, with other features
Namesake = type("Row", (Row,), {"_vector_features": ["b", "c"], "__doc__": "Two other features."})


class Deep(DessiaObject):
    """ Features of a sub-object, and computed ones. """
    _vector_features = ["sub/a", "total", "b"]

    def __init__(self, sub: Row = None, b: float = 0., name: str = ""):
        self.sub = sub
        self.b = b
        super().__init__(name=name)

    @property
    def total(self):
        """ Computed feature. """
        return self.sub.a + self.sub.b


def expected_attributes(objects):
    """ Features common to all the classes, in the order of the first class that has them. """
    if not objects:
        return []
    res = []
    for obj in objects:
        for attr in obj._vector_features:
            if attr not in res and all(attr in o._vector_features for o in objects):
                res.append(attr)
    return res


def feature(obj, attr):
    value = obj
    for segment in attr.split("/"):
        value = getattr(value, segment)
    return value


def aligned(ctx, data, objects, labels=None):
    """ The dataset holds exactly these objects, everything else agrees with them. """
    ctx.check(len(data) == len(objects) and len(data.dessia_objects) == len(objects), "the number of objects")
    ctx.check(all(x is y for x, y in zip(data.dessia_objects, objects)), "the objects meant, in the order meant")
    attributes = expected_attributes(objects)
    if objects:
        ctx.check(list(data.common_attributes) == attributes, "the common attributes", str(data.common_attributes))
    rows = [[feature(o, attr) for attr in attributes] for o in objects]
    matrix = data.matrix
    ctx.check(len(matrix) == len(rows), "one row per object")
    if objects:
        ctx.check(ctx.same([list(r) for r in matrix], rows), "row i holds the values of object i")
        for j, attr in enumerate(attributes):
            ctx.check(ctx.same(list(data.column_values(j)), [r[j] for r in rows]), "columns by index")
            ctx.check(ctx.same(list(data.attribute_values(attr)), [r[j] for r in rows]), "columns by name")
        names = attributes[::-1]
        ctx.check(ctx.same([list(r) for r in data.sub_matrix(names)], [[feature(o, n) for n in names] for o in objects]),
                  "sub-matrices")
    if labels is not None:
        ctx.check(ctx.same(list(data.labels), labels), "labels follow their objects")


def rows_of(ctx, n, tag="", kind=Row):
    return [kind(ctx.real(f"{tag}a{i}"), ctx.real(f"{tag}b{i}"), ctx.real(f"{tag}c{i}"), name=f"{tag}{i}")
            for i in range(n)]


def dataset(ctx, objects, cluster, touch=None):
    """ A dataset of the objects, its matrix computed beforehand or not. """
    labels = None
    if cluster:
        labels = [ctx.int(f"label{i}", -1, 5) for i in range(len(objects))]
        data = ClusteredDataset(list(objects), labels=list(labels), name="d")
    else:
        data = Dataset(list(objects), name="d")
    if ctx.flag("touch") if touch is None else touch:
        ctx.check(len(data.matrix) == len(objects), "one row per object")
    return data, labels


SLICES = [slice(None), slice(1, None), slice(None, 2), slice(1, 3), slice(None, None, 2), slice(None, None, -1),
          slice(-2, None), slice(None, -1), slice(2, 0, -1), slice(5, None)]


@harness("C08", bounds="1..3 objects of 6 classes, two of them of the same name (in each pair, any mix), symbolic values", shards=4)
def content(ctx):
    """ Matrix, columns and common attributes of a fresh dataset, for mixes of classes. """
    n = ctx.length("n", 1, 3)
    kinds = [ctx.choice(f"k{i}", [Row, Wide, Swapped, Narrow, Namesake]) for i in range(n)]
    objects = [k(ctx.real(f"a{i}"), ctx.real(f"b{i}"), ctx.real(f"c{i}"), name=f"o{i}") for i, k in enumerate(kinds)]
    aligned(ctx, Dataset(objects), objects)
    deep = [Deep(o, ctx.real(f"d{i}"), name="deep") for i, o in enumerate(objects)]
    data = Dataset(deep)
    want = [[o.sub.a, o.sub.a + o.sub.b, o.b] for o in deep]
    ctx.check(ctx.same([list(r) for r in data.matrix], want), "features of sub-objects and computed ones")
    for j, attr in enumerate(data.common_attributes):
        ctx.check(ctx.same(list(data.attribute_values(attr)), [w[j] for w in want]), "columns by name")


@harness("C08", bounds="1..4 objects, every index, 10 slices, every boolean list (symbolic), index lists of 1..2, with or "
                       "without labels and matrix", shards=6)
def selecting(ctx):
    """ Selection by index, slice, booleans, indices. """
    n = ctx.length("n", 1, ctx.bound(3, 4))
    objects = rows_of(ctx, n)
    cluster = ctx.flag("cluster")
    data, labels = dataset(ctx, objects, cluster)
    way = ctx.choice("way", ["int", "slice", "booleans", "indices"])
    if way == "int":
        i = ctx.choice("i", list(range(-n, n)))
        ctx.check(data[i] is objects[i], "the object at that index")
        return
    if way == "slice":
        key = ctx.choice("slice", SLICES)
        kept = list(range(n))[key]
    elif way == "booleans":
        key = [ctx.flag(f"keep{i}") for i in range(n)]
        kept = [i for i in range(n) if key[i]]
    else:
        key = [ctx.choice(f"i{j}", list(range(-n, n))) for j in range(ctx.length("m", 1, 2))]
        kept = sorted({i % n for i in key})
    res = data[key]
    ctx.check(res.__class__ is data.__class__, "same class")
    aligned(ctx, res, [objects[i] for i in kept], [labels[i] for i in kept] if cluster else None)
    aligned(ctx, data, objects, labels)


@harness("C08", bounds="1..3 (quick) / 4 (thorough) objects, key by name or index, both directions, ties included",
         shards=6)
def sorting(ctx):
    """ Sorting orders the objects, rows and labels together and loses none. """
    n = ctx.length("n", 1, ctx.bound(3, 4))
    objects = rows_of(ctx, n)
    cluster = ctx.flag("cluster")
    data, labels = dataset(ctx, objects, cluster)
    key = ctx.choice("key", ["a", 1, "c"])
    ascend = ctx.flag("ascend")
    data.sort(key, ascend)
    got = list(data.dessia_objects)
    ctx.check(len(got) == n and all(any(x is y for y in got) for x in objects), "a permutation of the objects")
    values = [feature(o, {"a": "a", 1: "b", "c": "c"}[key]) for o in got]
    for x, y in zip(values, values[1:]):
        ctx.check(x <= y if ascend else x >= y, "in order")
    places = [[i for i, o in enumerate(objects) if o is x][0] for x in got]
    aligned(ctx, data, got, [labels[i] for i in places] if cluster else None)


@harness("C08", bounds="0..2 objects of 4 classes on each side, matrices computed or not, + or extend", shards=6)
def concatenating(ctx):
    """ Concatenation, whatever the features on each side. """
    kind1, kind2 = ctx.choice("k1", [Row, Wide, Narrow]), ctx.choice("k2", [Row, Wide, Swapped, Narrow])
    one, two = rows_of(ctx, ctx.length("n1", 0, 2), "x", kind1), rows_of(ctx, ctx.length("n2", 0, 2), "y", kind2)
    d1, d2 = Dataset(list(one), name="first"), Dataset(list(two), name="second")
    touch = ctx.select("touch", 4)
    if touch & 1:
        ctx.check(len(d1.matrix) == len(one), "one row per object")
    if touch & 2:
        ctx.check(len(d2.matrix) == len(two), "one row per object")
    if ctx.flag("extend"):
        d1.extend(d2)
        res = d1
    else:
        res = d1 + d2
        aligned(ctx, d1, one)
    aligned(ctx, res, one + two)
    aligned(ctx, d2, two)


@harness("C08", bounds="2 objects + 1 or 2 operations among 6, symbolic values", shards=8)
def sequences(ctx):
    """ Sequences of operations on one dataset. """
    objects = rows_of(ctx, 2)
    data = Dataset(list(objects), name="d")
    current = list(objects)
    extra = 0
    for step in range(ctx.length("steps", 1, ctx.bound(2, 3))):
        op = ctx.choice(f"op{step}", ["touch", "sort", "reverse", "extend", "extend wide", "filter"])
        if op == "touch":
            ctx.check(len(data.matrix) == len(current), "one row per object")
        elif op == "sort":
            data.sort("b", ctx.flag(f"asc{step}"))
            current = list(data.dessia_objects)
        elif op == "reverse":
            data = data[::-1] if current else data
            current = current[::-1]
        elif op in ("extend", "extend wide"):
            extra += 1
            more = rows_of(ctx, 1, f"e{extra}", Row if op == "extend" else Wide)
            other = Dataset(list(more), name="more")
            if ctx.flag(f"touch{step}"):
                ctx.check(len(other.matrix) == 1, "one row per object")
            data.extend(other)
            current = current + more
        else:
            bound = ctx.real(f"bound{step}")
            data = data.filtering(FiltersList([DessiaFilter("a", "<", bound)]))
            current = [o for o in current if o.a < bound]
    aligned(ctx, data, current)


@harness("C08", bounds="1..4 objects, labels among -1, 0, 1, 2, 3, 7, 10, 12", shards=4)
def sublists(ctx):
    """ Splitting by label keeps every object in the list of its label. """
    n = ctx.length("n", 1, ctx.bound(3, 4))
    objects = rows_of(ctx, n)
    labels = [ctx.choice(f"l{i}", [-1, 0, 2, 7, 10]) for i in range(n)]
    data = ClusteredDataset(list(objects), labels=list(labels), name="d")
    res = data.clustered_sublists()
    ctx.check(data.n_clusters == len(set(labels) - {-1}), "number of clusters")
    ctx.check(sorted(res.labels) == sorted(set(labels)) and len(res.labels) == len(set(labels)), "each label once")
    ctx.check(len(res) == len(res.labels), "one list per label")
    for label, part in zip(res.labels, res.dessia_objects):
        mine = [o for o, l in zip(objects, labels) if l == label]
        ctx.check(len(part) == len(mine) and all(x is y for x, y in zip(part.dessia_objects, mine)),
                  "the list of a label holds the objects of that label, in order")
        ctx.check(part.name == ("d_outliers" if label == -1 else f"d_{label}"), "and is named after it", part.name)


@harness("C08", bounds="1..3 objects; boolean lists of a wrong length; odd keys")
def refused(ctx):
    """ Keys that mean nothing are refused. """
    n = ctx.length("n", 1, 3)
    data = Dataset(rows_of(ctx, n), name="d")
    key = ctx.choice("key", [[True] * (n + 1), [False] * (n - 1) if n > 1 else [True, True], "a", 1.5, n, -n - 1, ["x"],
                             [n]])
    try:
        data[key]
    except (ValueError, NotImplementedError, IndexError, TypeError):
        return
    ctx.fail("a key that selects nothing is refused", str(key))


@harness("C08", bounds="12 objects, one of any values; every index, 4 slices, lists of indices or booleans; with or without labels", shards=2)
def wide(ctx):
    """ More than ten rows. """
    at = ctx.choice("at", [0, 9, 11])
    objects = [Row(ctx.real("x"), ctx.real("y")) if i == at else Row(5. * i, 100. - i) for i in range(12)]
    labels = [(5 * i) % 12 for i in range(12)] if ctx.flag("cluster") else None
    data = Dataset(list(objects)) if labels is None else ClusteredDataset(list(objects), labels=list(labels))
    aligned(ctx, data, objects, labels)
    key = ctx.choice("key", [10, slice(8, None), slice(None, None, 3), slice(2, 11, 4), [1, 10, 11], [i % 3 == 1 for i in range(12)]])
    if isinstance(key, int):
        ctx.check(data[key] is objects[key], "the object of that rank")
        return
    if isinstance(key, slice):
        kept = list(range(12))[key]
    else:
        kept = [i for i in range(12) if (key[i] if len(key) == 12 else i in key)]
    aligned(ctx, data[key], [objects[i] for i in kept], None if labels is None else [labels[i] for i in kept])
