""" C09: the Pareto front is exactly the set of non-dominated points. """
from dessia_common.core import DessiaObject
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset
from symex.ctx import harness


class Point(DessiaObject):
    """ A candidate with two costs. """
    _vector_features = ["x", "y", "z"]

    def __init__(self, x: float, y: float, z: float = 0., name: str = ""):
        self.x = x
        self.y = y
        self.z = z
        super().__init__(name=name)


def dominates(ctx, p, q):
    """ p at least as good everywhere, better somewhere. """
    return ctx.all_([ctx.all_([a <= b for a, b in zip(p, q)]), ctx.any_([a < b for a, b in zip(p, q)])])


def front(ctx, costs, flags):
    """ The clauses of the property. """
    ctx.check(len(flags) == len(costs), "one flag per point")
    for i, p in enumerate(costs):
        others = [q for j, q in enumerate(costs) if j != i]
        if flags[i]:
            ctx.check(ctx.not_(ctx.any_([dominates(ctx, q, p) for q in others])),
                      "a reported point is not dominated")
        else:
            kept = [q for j, q in enumerate(costs) if flags[j]]
            ctx.check(ctx.any_([ctx.all_([a <= b for a, b in zip(q, p)]) for q in kept]),
                      "a point left out is dominated by, or identical to, a reported one")


@harness("C09", bounds="1..3 (quick) / 1..4 (thorough) points, 1..2 costs, every real value, ties included", shards=8,
         budget=200)
def indexes(ctx):
    """ Flags of the non-dominated points. """
    n = ctx.length("n", 1, ctx.bound(3, 4))
    m = ctx.length("m", 1, 2)
    costs = [[ctx.real(f"c{i}{j}") for j in range(m)] for i in range(n)]
    flags = list(Dataset.pareto_indexes([list(c) for c in costs]))
    front(ctx, costs, flags)


@harness("C09", bounds="3 points, 3 costs of which one constant", shards=4)
def three_costs(ctx):
    """ Three costs, one of which is the same everywhere. """
    k = ctx.real("k")
    place = ctx.length("place", 0, 2)
    costs = []
    for i in range(3):
        row = [ctx.real(f"c{i}{j}") for j in range(2)]
        row.insert(place, k)
        costs.append(row)
    front(ctx, costs, list(Dataset.pareto_indexes([list(c) for c in costs])))


@harness("C09", bounds="1..3 objects, 1..2 cost attributes in either order", shards=6, budget=200)
def points(ctx):
    """ The frontier objects are those of the flags, in order; the dataset is left as it was. """
    n = ctx.length("n", 1, 3)
    names = ctx.choice("names", [["x"], ["y", "x"], ["x", "y"]])
    objects = [Point(ctx.real(f"x{i}"), ctx.real(f"y{i}"), name=f"p{i}") for i in range(n)]
    data = Dataset(list(objects), name="d")
    costs = [[getattr(o, a) for a in names] for o in objects]
    res = data.pareto_points(names)
    flags = [any(o is p for p in res.dessia_objects) for o in objects]
    front(ctx, costs, flags)
    want = [o for o, f in zip(objects, flags) if f]
    ctx.check(len(res) == len(want) and all(x is y for x, y in zip(res.dessia_objects, want)), "in order, once each")
    ctx.check(len(data) == n and all(x is y for x, y in zip(data.dessia_objects, objects)), "dataset unchanged")


@harness("C09", bounds="1..3 objects, 2 costs, 1..2 sheets", shards=6, budget=200)
def sheets(ctx):
    """ Successive sheets: each is the front of what the previous ones left; labels say which sheet. """
    n, k = ctx.length("n", 1, 3), ctx.length("k", 1, 2)
    objects = [Point(ctx.real(f"x{i}"), ctx.real(f"y{i}"), name=f"p{i}") for i in range(n)]
    data = Dataset(list(objects), name="d")
    got, rest = data.pareto_sheets(["x", "y"], k)
    ctx.check(len(got) == k, "the number of sheets asked for")
    left = list(objects)
    for sheet in got:
        flags = [any(o is p for p in sheet.dessia_objects) for o in left]
        ctx.check(len(sheet) == sum(flags), "a sheet is made of points not in the previous ones")
        if left:
            front(ctx, [[o.x, o.y] for o in left], flags)
        left = [o for o, f in zip(left, flags) if not f]
    ctx.check(len(rest) == len(left) and all(x is y for x, y in zip(rest.dessia_objects, left)), "the rest, in order")
    clustered = ClusteredDataset.from_pareto_sheets(Dataset(list(objects), name="d"), ["x", "y"], k)
    ctx.check(len(clustered) == n and len(clustered.labels) == n, "every object has a label")
    for obj, label in zip(clustered.dessia_objects, clustered.labels):
        pool = rest if label == k else got[label]
        ctx.check(any(obj is o for o in pool.dessia_objects), "the label of an object is its sheet")
