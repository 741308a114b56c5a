""" C07: filters select exactly the satisfying elements. """
from dessia_common.core import DessiaFilter, DessiaObject, FiltersList
from dessia_common.datatools.dataset import Dataset
from dessia_common.workflow.blocks import Filter
from symex.ctx import harness
from harness.c01_serialization import snapshot
from harness.models import LETTERS


class Item(DessiaObject):
    """ Element to filter. """
    _vector_features = ["a", "b"]

    def __init__(self, a: int = 0, b: float = 0., sub: DessiaObject = None, name: str = ""):
        self.a = a
        self.b = b
        self.sub = sub
        super().__init__(name=name)


OPERATORS = {">": "gt", "<": "lt", ">=": "ge", "<=": "le", "==": "eq", "!=": "ne", "gt": "gt", "lt": "lt", "ge": "ge",
             "le": "le", "eq": "eq", "ne": "ne", "gte": "ge", "lte": "le"}


def holds(ctx, op, value, bound):
    """ The comparison, as a formula. """
    op = OPERATORS[op]
    if op == "gt":
        return value > bound
    if op == "lt":
        return value < bound
    if op == "ge":
        return value >= bound
    if op == "le":
        return value <= bound
    if op == "eq":
        return ctx.eq(value, bound)
    return ctx.not_(ctx.eq(value, bound))


def combine(ctx, logical, terms):
    if logical == "and":
        return ctx.all_(terms)
    if logical == "or":
        return ctx.any_(terms)
    res = False
    for term in terms:
        res = ctx.xor_(res, term)
    return res


def agree(ctx, items, booleans, kept, expected):
    """ Flags, kept elements and expected conditions agree. """
    booleans = list(booleans)
    ctx.check(len(booleans) == len(items), "one boolean per element")
    for flag, want in zip(booleans, expected):
        ctx.check(ctx.iff(flag, want), "the boolean says whether the element satisfies the filter")
    wanted = [x for x, want in zip(items, expected) if want]
    ctx.check(len(kept) == len(wanted) and all(x is y for x, y in zip(kept, wanted)),
              "exactly the satisfying elements are kept, in order", f"{len(kept)} / {len(wanted)}")


@harness("C07", bounds="lists of 0..3 elements, all 14 operator spellings, int or float attribute and bound", shards=6)
def single_filter(ctx):
    """ One comparison. """
    n = ctx.length("n", 0, 3)
    op = ctx.choice("op", list(OPERATORS))
    attribute = ctx.choice("attribute", ["a", "b"])
    items = [Item(ctx.int(f"a{i}"), ctx.real(f"b{i}"), name=f"i{i}") for i in range(n)]
    bound = ctx.int("bound") if ctx.flag("int bound") else ctx.real("rbound")
    filter_ = DessiaFilter(attribute, op, bound)
    before = snapshot(items)
    booleans = filter_.get_booleans_index(items)
    kept = DessiaFilter.apply(items, booleans)
    expected = [holds(ctx, op, getattr(x, attribute), bound) for x in items]
    agree(ctx, items, booleans, kept, expected)
    ctx.check(DessiaFilter.booleanlist_to_indexlist(booleans) == [i for i, want in enumerate(expected) if want],
              "the index list names the kept elements")
    ctx.check(ctx.same(before, snapshot(items)), "elements are left as they were")
    ctx.check(ctx.all_([ctx.eq(filter_.bound, bound), filter_.comparison_operator == op]), "the filter too")


@harness("C07", bounds="strings of 1 letter (==, != and order) and None-free nested attribute path, 2 elements", shards=2)
def other_attributes(ctx):
    """ Attributes of sub-objects by path, string attributes. """
    op = ctx.choice("op", ["==", "!=", "<", ">="])
    if ctx.flag("nested"):
        items = [Item(sub=Item(ctx.int(f"v{i}"))) for i in range(2)]
        bound = ctx.int("bound")
        values = [x.sub.a for x in items]
        filter_ = DessiaFilter("sub/a", op, bound)
    else:
        items = [Item(name=ctx.str(f"n{i}", 1, LETTERS)) for i in range(2)]
        bound = ctx.str("bound", 1, LETTERS)
        values = [x.name for x in items]
        filter_ = DessiaFilter("name", op, bound)
    booleans = filter_.get_booleans_index(items)
    agree(ctx, items, booleans, FiltersList([filter_]).apply(items), [holds(ctx, op, v, bound) for v in values])


@harness("C07", bounds="lists of 0..2 elements, 1..2 (quick) / 1..3 (thorough) filters, 6 operators, and/or/xor, applied "
                       "directly, through a Dataset or through the Filter block", shards=8)
def combined_filters(ctx):
    """ Logical combinations, through every entry point. """
    n = ctx.length("n", 0, 2)
    m = ctx.length("m", 1, ctx.bound(2, 3))
    logical = ctx.choice("logical", ["and", "or", "xor"])
    way = ctx.choice("way", ["list", "dataset", "block", "class method"])
    items = [Item(ctx.int(f"a{i}"), ctx.real(f"b{i}"), name=f"i{i}") for i in range(n)]
    filters, terms = [], [[] for _ in items]
    for j in range(m):
        op = ctx.choice(f"op{j}", [">", "<=", "==", "!="] if j == 0 else ["<", ">="])
        attribute = "a" if j == 0 else "b" if j == 1 else "a"
        bound = ctx.int(f"bound{j}")
        filters.append(DessiaFilter(attribute, op, bound))
        for term, x in zip(terms, items):
            term.append(holds(ctx, op, getattr(x, attribute), bound))
    expected = [combine(ctx, logical, term) for term in terms]
    filters_list = FiltersList.from_filters_list(filters, logical) if way == "class method" \
        else FiltersList(filters, logical)
    before = snapshot(items)
    booleans = filters_list.get_booleans_index(items)
    if way == "dataset":
        data = Dataset(items)
        rows = data.matrix if ctx.flag("matrix") else None
        res = data.filtering(filters_list)
        kept = res.dessia_objects
        ctx.check(len(data) == n and all(x is y for x, y in zip(data.dessia_objects, items)), "the dataset is unchanged")
        if rows is not None and kept:
            ctx.check(ctx.same(res.matrix, [[x.a, x.b] for x in kept]), "the rows follow the kept elements")
    elif way == "block":
        block = Filter(filters, logical)
        kept = block.evaluate({block.inputs[0]: items})[0]
    else:
        kept = filters_list.apply(items)
    agree(ctx, items, booleans, kept, expected)
    ctx.check(ctx.same(before, snapshot(items)), "elements are left as they were")


@harness("C07", bounds="1..3 boolean vectors of length 0..3", shards=4)
def boolean_vectors(ctx):
    """ Combination of boolean vectors. """
    m, n = ctx.length("m", 1, 3), ctx.length("n", 0, 3)
    logical = ctx.choice("logical", ["and", "or", "xor"])
    vectors = [[ctx.bool(f"b{j}{i}") for i in range(n)] for j in range(m)]
    res = list(FiltersList.combine_booleans_lists(vectors, logical))
    ctx.check(len(res) == n, "one boolean per position")
    for i in range(n):
        ctx.check(ctx.iff(res[i], combine(ctx, logical, [v[i] for v in vectors])), "combined position by position")


@harness("C07", bounds="any other operator name of 1..2 letters")
def unknown_operators(ctx):
    """ Unknown operators are refused. """
    name = ctx.choice("name", ["nor", "", "AND", "not"])
    try:
        FiltersList.combine_booleans_lists([[True]], name)
    except NotImplementedError:
        return
    ctx.fail("an unknown logical operator is refused", name)
