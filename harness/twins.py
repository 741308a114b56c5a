""" Classes named as some of harness.models, with other attributes. """
from typing import Any, Dict, Tuple

from dessia_common.core import DessiaObject


class Leaf(DessiaObject):
    """ Another leaf. """

    def __init__(self, value: int = 0, twin: Tuple[int, int] = None, name: str = ""):
        self.value = value
        self.twin = twin
        super().__init__(name=name)


class Part(DessiaObject):
    """ Another part, standalone as well. """
    _standalone_in_db = True

    def __init__(self, value: int = 0, content: Any = None, name: str = ""):
        self.value = value
        self.content = content
        super().__init__(name=name)


class Keyed(DessiaObject):
    """ Keyword-only attributes. """

    def __init__(self, value: int = 0, *, option: Any = None, table: Dict[str, int] = None, name: str = ""):
        self.value = value
        self.option = option
        self.table = table
        super().__init__(name=name)


class Base(DessiaObject):
    """ A class with a sub-class. """

    def __init__(self, value: int = 0, name: str = ""):
        self.value = value
        super().__init__(name=name)


class Derived(Base):
    """ Its constructor has its own attributes. """

    def __init__(self, extra: int = 0, value: int = 0, part_references: Any = None, name: str = ""):
        self.extra = extra
        self.part_references = part_references
        super().__init__(value=value, name=name)


class Same(Base):
    """ Nothing of its own. """


def twin(ctx, name):
    """ An object of any of these classes, or of their namesakes. """
    from harness import models
    kind = ctx.choice(name, ["leaf", "other leaf", "part", "other part", "keyed", "base", "derived", "same"])
    value = ctx.int(name + ".value")
    if kind == "leaf":
        return models.Leaf(value, 0., "l")
    if kind == "other leaf":
        return Leaf(value, (1, 2))
    if kind == "part":
        return models.Part(value, None)
    if kind == "other part":
        return Part(value, None)
    if kind == "keyed":
        return Keyed(value, option=ctx.int(name + ".option"), table={"k": 1})
    if kind == "base":
        return Base(value)
    if kind == "derived":
        return Derived(ctx.int(name + ".extra"), value, [Base(value)])
    return Same(value)
