""" Model classes the harnesses build objects of, and symbolic value generators. """
from typing import Any, Dict, List, Tuple

from dessia_common.core import DessiaObject


class Leaf(DessiaObject):
    """ Small object owned by its parent. """

    def __init__(self, value: int = 0, weight: float = 0., label: str = "", name: str = ""):
        self.value = value
        self.weight = weight
        self.label = label
        super().__init__(name=name)


class Part(DessiaObject):
    """ Standalone object. """
    _standalone_in_db = True

    def __init__(self, value: int = 0, content: Any = None, name: str = ""):
        self.value = value
        self.content = content
        super().__init__(name=name)


class Box(DessiaObject):
    """ Arbitrary content. """

    def __init__(self, content: Any = None, name: str = ""):
        self.content = content
        super().__init__(name=name)


class OtherBox(DessiaObject):
    """ Same attributes as Box, different class. """

    def __init__(self, content: Any = None, name: str = ""):
        self.content = content
        super().__init__(name=name)


class Pair(DessiaObject):
    """ Two arbitrary attributes. """

    def __init__(self, first: Any = None, second: Any = None, name: str = ""):
        self.first = first
        self.second = second
        super().__init__(name=name)


class Typed(DessiaObject):
    """ Attributes with annotations that matter in deserialization. """
    _standalone_in_db = True

    def __init__(self, pair: Tuple[int, int], items: List[Part], table: Dict[str, float], name: str = ""):
        self.pair = pair
        self.items = items
        self.table = table
        super().__init__(name=name)


class Selective(DessiaObject):
    """ Class that excludes attributes from equality, hash and serialization. """
    _non_data_eq_attributes = ["name", "comment"]
    _non_data_hash_attributes = ["name", "slow"]
    _non_serializable_attributes = ["cache"]

    def __init__(self, value: int = 0, slow: int = 0, comment: str = "", name: str = ""):
        self.value = value
        self.slow = slow
        self.comment = comment
        self.cache = None
        super().__init__(name=name)


class Strict(DessiaObject):
    """ Identity equality. """
    _eq_is_data_eq = False

    def __init__(self, value: int = 0, name: str = ""):
        self.value = value
        super().__init__(name=name)


LETTERS = [(97, 122)]


def gen(ctx, name, kinds, depth=0, max_items=2, sub=None):
    """
    A symbolic value: its shape is decided by selectors, its leaves are symbolic.

    kinds: the kinds allowed here; sub: the kinds allowed one level down (default: the scalars among kinds).
    """
    kind = ctx.choice(name + ".kind", kinds) if len(kinds) > 1 else kinds[0]
    if kind == "int":
        return ctx.int(name + ".i")
    if kind == "real":
        return ctx.real(name + ".r")
    if kind == "bool":
        return ctx.bool(name + ".b")
    if kind == "str":
        return ctx.str(name + ".s", 1, LETTERS)
    if kind == "str2":
        return ctx.str(name + ".s", ctx.length(name + ".len", 0, 2), LETTERS)
    if kind == "none":
        return None
    if sub is None:
        sub = [k for k in kinds if k in ("int", "real", "bool", "str", "str2", "none")]
    if kind in ("list", "tuple"):
        n = ctx.length(name + ".n", 0, max_items)
        items = [gen(ctx, f"{name}[{i}]", sub, depth + 1, max_items, None if depth else sub_scalars(sub))
                 for i in range(n)]
        return items if kind == "list" else tuple(items)
    if kind == "dict":
        n = ctx.length(name + ".n", 0, max_items)
        res = {}
        for i in range(n):
            key = ctx.choice(f"{name}.k{i}", ["a", "b", "c"]) if i == 0 else ctx.choice(f"{name}.k{i}", ["b", "c"])
            res[key] = gen(ctx, f"{name}.{i}", sub, depth + 1, max_items, sub_scalars(sub))
        return res
    if kind == "leaf":
        return Leaf(ctx.int(name + ".value"), ctx.real(name + ".weight"), "", name="l")
    if kind == "ileaf":
        return Leaf(ctx.int(name + ".value"), 0., ctx.str(name + ".label", 1, LETTERS), name="l")
    if kind == "part":
        return Part(ctx.int(name + ".value"), None, name="p")
    if kind == "box":
        return Box(gen(ctx, name + ".content", sub, depth + 1, max_items, sub_scalars(sub)), name="b")
    raise ValueError(kind)


def sub_scalars(kinds):
    """ Scalar kinds among kinds. """
    return [k for k in kinds if k in ("int", "real", "bool", "str", "str2", "none")]
