""" Models, on symbolic numbers, of the numpy and scipy functions the repository computes statistics and distances with. """
import math

import numpy as np
import z3

from symex import engine as eng
from symex.values import SYM_TYPES, SymReal, real_of, sqrt, to_expr


def contains(arr):
    return arr.dtype == object and any(type(x) in SYM_TYPES for x in arr.ravel().tolist())


def as_array(a):
    if isinstance(a, np.ndarray):
        return a
    try:
        return np.asarray(a)
    except ValueError:
        return np.asarray(a, dtype=object)


def total(values):
    res = 0.
    for v in values:
        res = res + v
    return res


def root(x, power):
    """ The non-negative number whose given (whole) power is x >= 0. """
    res = eng.ENGINE.fresh("root", z3.RealSort())
    product = res
    for _ in range(power - 1):
        product = product * res
    eng.ENGINE.constrain(z3.And(res >= 0, product == real_of(to_expr(x))))
    return SymReal(res)


def p_norm(values, power):
    if power is None or power == 2:
        return sqrt(total(v * v for v in values))
    values = [abs(v) for v in values]
    if power == math.inf:
        res = values[0]
        for v in values[1:]:
            res = v if v > res else res
        return res
    if power == 1:
        return total(values)
    if float(power).is_integer() and power > 2:
        power = int(power)
        terms = []
        for v in values:
            term = v
            for _ in range(power - 1):
                term = term * v
            terms.append(term)
        return root(total(terms), power)
    raise NotImplementedError(f"norm of order {power} of symbolic numbers")


def norm(x, ord=None, axis=None, keepdims=False):
    arr = as_array(x)
    if not contains(arr) or keepdims:
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    if arr.ndim == 1 and axis in (None, 0, -1):
        return p_norm(arr.tolist(), ord)
    if axis is None and ord is None:
        return p_norm(arr.ravel().tolist(), None)
    if arr.ndim == 2 and axis in (0, 1, -1):
        rows = arr.T if axis == 0 else arr
        return np.array([p_norm(row.tolist(), ord) for row in rows], dtype=object)
    raise NotImplementedError("norm of a symbolic matrix")


def mean_of(values):
    return total(values) / len(values)


def variance_of(values, ddof=0):
    mean = mean_of(values)
    return total((v - mean) * (v - mean) for v in values) / (len(values) - ddof)


def along(arr, axis, func):
    if axis is None or arr.ndim == 1:
        return func(arr.ravel().tolist())
    flat = np.moveaxis(arr, axis, 0)
    res = np.empty(flat.shape[1:], dtype=object)
    for index in np.ndindex(*flat.shape[1:]):
        res[index] = func(flat[(slice(None),) + index].tolist())
    return res


def var(a, axis=None, dtype=None, out=None, ddof=0, **kw):
    arr = as_array(a)
    if not contains(arr):
        return np.var(a, axis=axis, dtype=dtype, out=out, ddof=ddof, **kw)
    return along(arr, axis, lambda values: variance_of(values, ddof))


def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, *, dtype=None):
    arr = as_array(m)
    if not contains(arr) or y is not None or fweights is not None or aweights is not None:
        return np.cov(m, y, rowvar, bias, ddof, fweights, aweights, dtype=dtype)
    if arr.ndim == 1:
        arr = arr.reshape(1, -1)
    elif not rowvar:
        arr = arr.T
    n = arr.shape[1]
    div = n - (ddof if ddof is not None else 0 if bias else 1)
    rows = [row.tolist() for row in arr]
    means = [mean_of(row) for row in rows]
    res = np.empty((len(rows), len(rows)), dtype=object)
    for i, row in enumerate(rows):
        for j, other in enumerate(rows):
            res[i, j] = total((x - means[i]) * (z - means[j]) for x, z in zip(row, other)) / div if div else float("nan")
    return res if len(rows) > 1 else res.reshape(())


class Inverse(np.ndarray):
    """ The inverse of a matrix, which remembers it. """
    parts = None


def inverse(a):
    arr = as_array(a)
    if not contains(arr):
        return np.linalg.inv(a)
    rows = arr.tolist()
    if len(rows) == 1:
        if rows[0][0] == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        return np.array([[1. / rows[0][0]]], dtype=object)
    if len(rows) != 2:
        raise NotImplementedError("inverse of a symbolic matrix larger than 2 x 2")
    (p, q), (r, s) = rows
    det = p * s - q * r
    if det == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    res = np.array([[s / det, 0. - q / det], [0. - r / det, p / det]], dtype=object).view(Inverse)
    res.parts = (res, [[s, 0. - q], [0. - r, p]], det)
    return res


def pinv(a, *args, **kw):
    arr = as_array(a)
    if not contains(arr):
        return np.linalg.pinv(a, *args, **kw)
    try:
        return inverse(arr)
    except np.linalg.LinAlgError:
        # Of rank 1 at most: the transposed matrix over the sum of the squares
        squares = total(x * x for row in arr.tolist() for x in row)
        return np.array([[0. if squares == 0 else x / squares for x in column] for column in zip(*arr.tolist())], dtype=object)


def mahalanobis(u, v, VI):
    if not any(contains(as_array(x)) for x in (u, v, VI)):
        return REAL["mahalanobis"](u, v, VI)
    delta = [a - b for a, b in zip(as_array(u).tolist(), as_array(v).tolist())]
    parts = getattr(VI, "parts", None)
    if parts is not None and parts[0] is VI:
        square = total(x * total(c * y for c, y in zip(row, delta)) for x, row in zip(delta, parts[1]))
        return sqrt(square / parts[2])
    rows = as_array(VI).tolist()
    return sqrt(total(x * total(c * y for c, y in zip(row, delta)) for x, row in zip(delta, rows)))


POWERS = {"cityblock": 1, "euclidean": 2, "chebyshev": math.inf, "manhattan": 1, "l1": 1, "l2": 2}


def distance(a, b, metric, kw):
    diff = [x - y for x, y in zip(a, b)]
    if metric == "minkowski" and set(kw) <= {"p"}:
        return p_norm(diff, kw.get("p", 2))
    if metric == "sqeuclidean":
        return total(d * d for d in diff)
    if metric in POWERS and not kw:
        return p_norm(diff, POWERS[metric])
    raise NotImplementedError(f"distance {metric} between symbolic vectors")


def pdist(X, metric="euclidean", *, out=None, **kw):
    arr = as_array(X)
    if not contains(arr):
        return REAL["pdist"](X, metric, out=out, **kw)
    rows = arr.tolist()
    return np.array([distance(rows[i], rows[j], metric, kw) for i in range(len(rows)) for j in range(i + 1, len(rows))],
                    dtype=object)


def cdist(XA, XB, metric="euclidean", *, out=None, **kw):
    first, second = as_array(XA), as_array(XB)
    if not contains(first) and not contains(second):
        return REAL["cdist"](XA, XB, metric, out=out, **kw)
    res = np.empty((len(first), len(second)), dtype=object)
    for i, a in enumerate(first.tolist()):
        for j, b in enumerate(second.tolist()):
            res[i, j] = distance(a, b, metric, kw)
    return res


def squareform(X, *args, **kw):
    arr = as_array(X)
    if arr.dtype != object or arr.ndim != 1:
        return REAL["squareform"](X, *args, **kw)
    n = int(round((1 + math.sqrt(1 + 8 * len(arr))) / 2)) if len(arr) else 1
    res = np.empty((n, n), dtype=object)
    res.fill(0.)
    flat = iter(arr.tolist())
    for i in range(n):
        for j in range(i + 1, n):
            res[i, j] = res[j, i] = next(flat)
    return res


def astype(arr, args, kw):
    """ arr.astype(float) of symbolic numbers. """
    return arr.copy() if contains(arr) and args and args[0] in (float, np.float64, "float") else arr.astype(*args, **kw)


REAL = {}


def register_all(register):
    register(np.linalg.norm, norm)
    register(np.var, var)
    register(np.cov, cov)
    register(np.linalg.pinv, pinv)
    register(np.linalg.inv, inverse)
    try:
        from scipy.spatial import distance as library
    except ImportError:
        return
    for name, model in [("mahalanobis", mahalanobis), ("pdist", pdist), ("cdist", cdist), ("squareform", squareform)]:
        REAL[name] = getattr(library, name)
        register(REAL[name], model)
