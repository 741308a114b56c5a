""" C21: distances and statistics. """
import math

from dessia_common.core import DessiaObject
from dessia_common.datatools import metrics
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset
from symex.ctx import harness


def vector(ctx, name, n):
    return [ctx.real(f"{name}{i}", -100, 100) for i in range(n)]


def given(ctx, values):
    """ Vectors come as lists or tuples. """
    return tuple(values) if ctx.flag("tuples") else list(values)


def nth(ctx, value, total, power, label):
    """ value is the root of the given power of total. """
    product = value
    for _ in range(power - 1):
        product = product * value
    ctx.check(value >= 0, "never negative")
    ctx.check(ctx.near(product, total), label)


def greatest(values):
    res = values[0]
    for v in values[1:]:
        res = v if v >= res else res
    return res


def distance(ctx, kind, got, diff):
    """ got is the distance of the given kind of two vectors of the given difference. """
    sizes = [abs(d) for d in diff]
    if kind == "manhattan":
        ctx.check(ctx.near(got, sum(sizes)), "Manhattan: the sum of the absolute differences")
    elif kind == "infinity":
        ctx.check(ctx.any_([ctx.near(got, s) for s in sizes]), "infinity: one of the absolute differences")
        ctx.check(ctx.all_([ctx.any_([got >= s, ctx.near(got, s)]) for s in sizes]), "infinity: the greatest of them")
    else:
        power = {"euclidean": 2, "cubic": 3, "quartic": 4}[kind]
        nth(ctx, got, sum(d * d for d in diff) if power == 2 else sum(s ** power for s in sizes), power, f"{kind}: the root of the sum of the powers")


METHODS = {"manhattan": lambda a, b: metrics.manhattan_distance(a, b),
           "euclidean": lambda a, b: metrics.euclidian_distance(a, b),
           "infinity": lambda a, b: metrics.inf_norm(metrics.diff_list(a, b))}
POWERS = {"manhattan": 1, "euclidean": 2, "infinity": math.inf, "cubic": 3, "quartic": 4}


@harness("C21", bounds="vectors of 1..3 (quick) / 1..4 (thorough) numbers in [-100, 100], given as lists or tuples; powers 1, 2, 3, "
                       "infinity", shards=4)
def distances(ctx):
    """ Distances follow their formula, are symmetric, zero for identical vectors. """
    ctx.precise()
    n = ctx.length("n", 1, ctx.bound(3, 4))
    a, b = vector(ctx, "a", n), vector(ctx, "b", n)
    kind = ctx.choice("kind", list(METHODS) + ["minkowski"])
    if kind == "minkowski":
        kind = ctx.choice("power", ["manhattan", "euclidean", "infinity", "cubic"])
        ctx.assume(kind != "cubic" or n < ctx.bound(2, 3))
        power = POWERS[kind]

        def method(x, y):
            return metrics.minkowski_distance(x, y, mink_power=power)
        if kind == "euclidean":
            ctx.check(ctx.near(metrics.minkowski_distance(a, b), metrics.euclidian_distance(a, b)), "Euclidean unless told")
    else:
        method = METHODS[kind]
    left, right = given(ctx, a), list(b)
    got = method(left, right)
    distance(ctx, kind, got, [x - y for x, y in zip(a, b)])
    ctx.check(got >= 0, "never negative")
    ctx.check(ctx.near(method(right, left), got), "symmetric")
    ctx.check(ctx.near(method(left, list(a)), 0), "zero for identical vectors")
    ctx.check(list(left) == list(a) and right == list(b), "the vectors are left as they were")


@harness("C21", bounds="3 vectors of 1..2 numbers, Manhattan and infinity distances")
def triangle(ctx):
    """ Going through a third point is never shorter. """
    n = ctx.length("n", 1, 2)
    a, b, c = vector(ctx, "a", n), vector(ctx, "b", n), vector(ctx, "c", n)
    method = METHODS[ctx.choice("kind", ["manhattan", "infinity"])]
    ctx.check(method(a, c) <= method(a, b) + method(b, c) + (0 if ctx.symbolic else 1e-6), "triangle inequality")


@harness("C21", bounds="vectors of 1..3 numbers")
def norms(ctx):
    """ Norms are distances to zero. """
    ctx.precise()
    n = ctx.length("n", 1, 3)
    a = vector(ctx, "a", n)
    given_ = given(ctx, a)
    distance(ctx, "manhattan", metrics.l1_norm(given_), a)
    distance(ctx, "euclidean", metrics.l2_norm(given_), a)
    distance(ctx, "infinity", metrics.inf_norm(given_), a)
    distance(ctx, "euclidean", metrics.lp_norm(given_), a)
    distance(ctx, "manhattan", metrics.lp_norm(given_, mink_power=1), a)
    distance(ctx, "infinity", metrics.lp_norm(given_, mink_power=math.inf), a)


@harness("C21", bounds="vectors of 1..2 numbers, every positive definite covariance matrix with terms in [-100, 100], "
                       "and those with a column that does not vary")
def mahalanobis(ctx):
    """ The Mahalanobis distance weighs the differences with the inverse of the covariance. """
    n = ctx.length("n", 1, 2)
    a, b = vector(ctx, "a", n), vector(ctx, "b", n)
    p = ctx.real("p", 1, 100)
    if n == 2 and ctx.flag("a column that does not vary"):
        which = ctx.choice("which", [0, 1])
        cov = [[p, 0.], [0., 0.]] if which == 0 else [[0., 0.], [0., p]]
        square = (a[which] - b[which]) * (a[which] - b[which]) / p
    elif n == 1:
        cov = [[p]]
        diff = a[0] - b[0]
        square = diff * diff / p
    else:
        q, s = ctx.real("q", -100, 100), ctx.real("s", 1, 100)
        det = p * s - q * q
        ctx.assume(det >= 1)
        cov = [[p, q], [q, s]]
        x, y = a[0] - b[0], a[1] - b[1]
        square = (x * (s * x - q * y) + y * (p * y - q * x)) / det
    ctx.assume(square >= 0)  # cov is positive definite
    got = metrics.mahalanobis_distance(list(a), list(b), cov)
    nth(ctx, got, square, 2, "Mahalanobis: the square is the weighted square of the difference")


def means(values):
    return sum(values) / len(values)


def spread(x, y, less=0):
    mx, my = means(x), means(y)
    return sum((u - mx) * (v - my) for u, v in zip(x, y)) / (len(x) - less)


@harness("C21", bounds="vectors of 1..3 (quick) / 1..4 (thorough) numbers", shards=2)
def statistics(ctx):
    """ Means, variances, covariances and standard deviations follow their definition. """
    ctx.precise()
    n = ctx.length("n", 1, ctx.bound(3, 4))
    x, y = vector(ctx, "x", n), vector(ctx, "y", n)
    one, two = given(ctx, x), list(y)
    ctx.check(ctx.near(metrics.mean(one), means(x)), "mean")
    var = metrics.variance(one)
    ctx.check(ctx.near(var, spread(x, x)), "variance")
    ctx.check(ctx.near(metrics.covariance(one, two), spread(x, y)), "covariance")
    ctx.check(ctx.near(metrics.covariance(one, one), var), "the covariance of a vector with itself is its variance")
    nth(ctx, metrics.std(one), spread(x, x), 2, "the square of the standard deviation is the variance")
    try:
        metrics.covariance(one, two + [0.])
    except ValueError:
        pass
    else:
        ctx.fail("vectors of different lengths have no covariance")
    if n > 1:
        matrix = metrics.covariance_matrix([one, two])
        for i, u in enumerate([x, y]):
            for j, v in enumerate([x, y]):
                ctx.check(ctx.near(matrix[i][j], spread(u, v, 1)), "covariance matrix")


class Row(DessiaObject):
    """ What a dataset holds. """
    _vector_features = ["x", "y"]

    def __init__(self, x: float, y: float, name: str = ""):
        self.x = x
        self.y = y
        super().__init__(name=name)


def rows(ctx, n):
    values = [vector(ctx, f"r{i}.", 2) for i in range(n)]
    return values, [Row(*v) for v in values]


PDIST = {"default": ("euclidean", {}), "p1": ("manhattan", {"p": 1}), "city": ("manhattan", {"method": "cityblock"}),
         "euclid": ("euclidean", {"method": "euclidean"}), "chebyshev": ("infinity", {"method": "chebyshev"}), "again": ("euclidean", {"method": "minkowski", "p": 2})}


@harness("C21", bounds="datasets of 2..3 objects with two features, 6 distances", shards=4)
def datasets(ctx):
    """ The statistics of a dataset are those of its columns, its distances those of its objects. """
    ctx.precise()
    n = ctx.length("n", 2, 3)
    values, objects = rows(ctx, n)
    data = Dataset(objects)
    columns = list(zip(*values))
    if ctx.flag("statistics"):
        for got, column in zip(data.mean(), columns):
            ctx.check(ctx.near(got, means(column)), "mean of each column")
        for got, column in zip(data.variances(), columns):
            ctx.check(ctx.near(got, spread(column, column)), "variance of each column")
        for got, column in zip(data.standard_deviation(), columns):
            nth(ctx, got, spread(column, column), 2, "standard deviation of each column")
        cov = data.covariance_matrix()
        for i, u in enumerate(columns):
            for j, v in enumerate(columns):
                ctx.check(ctx.near(cov[i][j], spread(u, v, 1)), "covariance of the columns")
        ctx.check(len(data.mean()) == len(data.variances()) == len(data.standard_deviation()) == len(cov) == 2, "every column")
        return
    kind, kwargs = PDIST[ctx.choice("method", list(PDIST))]
    matrix = data.distance_matrix(**kwargs)
    ctx.check(len(matrix) == n and all(len(row) == n for row in matrix), "one distance per pair")
    for i in range(n):
        for j in range(n):
            if i == j:
                ctx.check(matrix[i][j] == 0, "an object is at distance zero of itself")
            else:
                distance(ctx, kind, matrix[i][j], [a - b for a, b in zip(values[i], values[j])])


@harness("C21", bounds="clustered datasets of 2..4 objects with two features, labels among 0, 1, 5 and outliers", shards=8)
def clusters(ctx):
    """ Means, distances and centroids cluster by cluster. """
    n = ctx.length("n", 2, ctx.bound(3, 4))
    values, objects = rows(ctx, n)
    labels = [ctx.choice(f"label{i}", [0, 1, 5, -1][:2 + i]) for i in range(n)]
    data = ClusteredDataset(objects, list(labels))
    split = data.clustered_sublists()
    if ctx.flag("split first"):
        data = split
    order = list(split.labels)
    centers = data.mean_clusters()
    spreads = data.cluster_distances(method="cityblock")
    nearest = data.cluster_real_centroids(method="cityblock")
    ctx.check(len(centers) == len(spreads) == len(nearest) == len(set(labels)), "one answer per cluster")
    for rank, label in enumerate(order):
        members = [i for i in range(n) if labels[i] == label]
        center = [means([values[i][j] for i in members]) for j in range(2)]
        far = [sum(abs(values[i][j] - center[j]) for j in range(2)) for i in members]
        ctx.check(len(centers[rank]) == 2 and len(spreads[rank]) == len(members), "every member of the cluster")
        for got, should in zip(centers[rank], center):
            ctx.check(ctx.near(got, should), "mean of the cluster")
        for got, should in zip(spreads[rank], far):
            ctx.check(ctx.near(got, should), "distance of each member to the mean")
        picked = [k for k, i in enumerate(members) if nearest[rank] is objects[i]]
        ctx.check(len(picked) == 1, "the centroid is a member of the cluster")
        if picked:
            ctx.check(ctx.all_([ctx.any_([far[picked[0]] <= f, ctx.near(far[picked[0]], f)]) for f in far]),
                      "the centroid is the member nearest to the mean")
