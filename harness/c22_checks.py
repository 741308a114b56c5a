""" C22: check lists. """
from dessia_common import checks
from dessia_common.checks import CheckList, CheckWarning, FailedCheck, PassedCheck
from dessia_common.core import DessiaObject
from symex.ctx import harness


class Note(PassedCheck):
    """ The lowest level. """
    level = "debug"


LEVELS = ["debug", "info", "warning", "error"]
KINDS = {"debug": Note, "info": PassedCheck, "warning": CheckWarning, "error": FailedCheck}


def items(ctx, name, most):
    return [KINDS[ctx.choice(f"{name}{i}", LEVELS)](f"{name}{i}") for i in range(ctx.length(f"{name}.n", 0, most))]


@harness("C22", bounds="0..3 (quick) / 0..4 (thorough) checks of any of the 4 levels, each level asked for", shards=8)
def above(ctx):
    """ Exactly the checks that reach the level, in order. """
    given = items(ctx, "c", ctx.bound(3, 4))
    listed = CheckList(list(given))
    level = ctx.choice("level", LEVELS + ["default"])
    reach = [c for c in given if LEVELS.index(c.level) >= LEVELS.index("error" if level == "default" else level)]
    got = listed.checks_above_level() if level == "default" else listed.checks_above_level(level)
    ctx.check(len(got) == len(reach) and all(a is b for a, b in zip(got, reach)), "the checks that reach the level, in order")
    try:
        if level == "default":
            listed.raise_if_above_level()
        else:
            listed.raise_if_above_level(level=level)
    except ValueError:
        ctx.check(len(reach) > 0, "nothing is raised when no check reaches the level")
    else:
        ctx.check(len(reach) == 0, "an error is raised when a check reaches the level")
    ctx.check(len(listed) == len(given) and all(listed[i] is c for i, c in enumerate(given)), "the list holds all its checks")
    written = listed.to_dict()["checks"]
    ctx.check([(w["level"], w["message"]) for w in written] == [(c.level, c.message) for c in given], "all checks are written")
    ctx.check(len(listed.checks) == len(given) and all(a is b for a, b in zip(listed.checks, given)), "left as it was")


@harness("C22", bounds="sums of two or three lists of 0..2 checks, possibly the same ones", shards=4)
def added(ctx):
    """ Adding keeps all the checks, and the lists added. """
    parts = [items(ctx, f"p{k}.", 2 if k < 2 else 1) for k in range(3)]
    shared = ctx.choice("shared", ["none", "first and last", "all in the second"])
    if shared == "first and last":
        parts[2] = parts[0]
    elif shared == "all in the second":
        parts[1] = parts[0] + parts[0]
    lists = [CheckList(list(p)) for p in parts]
    if ctx.flag("in place"):
        res = CheckList([])
        for part in lists:
            res += part
    else:
        res = lists[0] + lists[1] + lists[2]
    should = parts[0] + parts[1] + parts[2]
    ctx.check(len(res) == len(should) and all(a is b for a, b in zip(res.checks, should)), "every check, in order")
    for part, listed in zip(parts, lists):
        ctx.check(len(part) == len(listed), "the lists added are left as they were")


@harness("C22", bounds="every kind of value against int, float, str, bool and a class, silent or not")
def typed(ctx):
    """ A type check fails exactly when the value is not of the type. """
    kind = ctx.choice("value", ["int", "float", "str", "bool", "none", "list", "object"])
    value = {"int": lambda: ctx.int("i"), "float": lambda: ctx.real("r"), "str": lambda: ctx.str("s", 2), "bool": lambda: ctx.bool("b"),
             "none": lambda: None, "list": lambda: [1], "object": lambda: PassedCheck("x")}[kind]()
    wanted = ctx.choice("type", ["int", "float", "str", "bool", "list", "object"])
    level = ctx.choice("level", ["error", "info"])
    fits = kind == wanted or (kind, wanted) == ("bool", "int")
    type_ = {"int": int, "float": float, "str": str, "bool": bool, "list": list, "object": PassedCheck}[wanted]
    asked = [checks.type_check(value, type_, level=level)]
    if wanted in ("int", "float", "str"):
        asked.append(getattr(checks, f"is_{wanted}")(value, level=level))
    for res in asked:
        ctx.check((len(res.checks_above_level("error")) == 0) == fits, "fails exactly when the value is not of the type")
        ctx.check(len(res) == (1 if not fits or level == "info" else 0), "says so when asked for information")


BROKEN = {}


class Fragile(DessiaObject):
    """ An object that may come out different from its life on the platform. """
    _standalone_in_db = True

    def __init__(self, value: float = 0., entries: dict = None, name: str = ""):
        self.value = value
        self.entries = entries
        super().__init__(name=name)

    def to_dict(self, *args, **kwargs):
        res = super().to_dict(*args, **kwargs)
        res["value"] = res["value"] + BROKEN["serialized"]
        return res

    def copy(self, deep=True, memo=None):
        return type(self)(self.value + BROKEN["copied"], self.entries)

    def _displays(self, **kwargs):
        if BROKEN["displays"] == "raise":
            raise RuntimeError("no display")
        return [] if BROKEN["displays"] == "fine" else [object()]


class User(Fragile):
    """ Adds a check of its own. """

    def check_list(self, level="error", check_platform=True):
        res = super().check_list(level=level, check_platform=check_platform)
        res += CheckList([KINDS[BROKEN["own"]]("own")])
        return res


@harness("C22", bounds="an object altered, by any amount or not at all, by serialization or copy, with a key that is valid or not and "
                       "displays that work, raise or cannot be written, with a check of its own at any level", shards=8)
def platform(ctx):
    """ The verdict on an object is bad exactly when something is wrong with it. """
    shift = [ctx.real("serialized", -100, 100), ctx.real("copied", -100, 100)]
    for s in shift:
        ctx.assume(ctx.any_([s == 0, s >= 1, s <= -1]))
    displays = ctx.choice("displays", ["fine", "raise", "unwritable"])
    key = ctx.choice("key", ["fine", "a.b"])
    own = ctx.choice("own", LEVELS)
    BROKEN.update(serialized=shift[0], copied=shift[1], displays=displays, own=own)
    obj = User(ctx.real("value", 1, 100), {key: 1})
    bad = [shift[0] != 0, shift[1] != 0, key != "fine", displays != "fine", False]
    res = obj.check_platform()
    ctx.check(len(res) == 5, "serialization, copy, database, displays and schemas are checked")
    failed = len([c for c in res.checks if c.level == "error"])
    ctx.check(failed == sum(ctx.ite(b, 1, 0) for b in bad), "one failed check for each thing that is wrong")
    wrong = ctx.any_(bad)
    level = ctx.choice("level", ["warning", "error"])
    try:
        obj._check_platform(level=level)
    except ValueError:
        ctx.check(wrong, "an object that works is not refused")
    else:
        ctx.check(ctx.not_(wrong), "an object that does not work is refused")
    ctx.check(ctx.iff(obj.is_valid(level=level), ctx.not_(ctx.any_([wrong, LEVELS.index(own) >= LEVELS.index(level)]))),
              "valid exactly when no check reaches the level")
    ctx.check(len(obj.check_list(check_platform=False)) == 1 and len(obj.check_list()) == 6, "platform checks are optional")
