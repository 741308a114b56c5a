""" C33: objects written to and read from spreadsheets. """
import openpyxl
import openpyxl.reader.excel

BOOKS = []


def load_workbook(*args, **kwargs):
    """ Stands for the reading of a file by the library: the workbook in memory, empty texts being empty cells. """
    stream = args[0] if args else kwargs.get("filename")
    if BOOKS and stream is BOOKS[-1]:
        for sheet in stream.worksheets:
            for row in sheet.iter_rows():
                for cell in row:
                    if isinstance(cell.value, str) and len(cell.value) == 0:
                        cell.value = None
        return stream
    return LOAD(*args, **kwargs)


LOAD = openpyxl.load_workbook
openpyxl.load_workbook = openpyxl.reader.excel.load_workbook = load_workbook

from typing import Any, Dict, List  # noqa: E402

from dessia_common.core import DessiaObject  # noqa: E402
from dessia_common.excel_reader import ExcelReader  # noqa: E402
from dessia_common.exports import XLSXWriter  # noqa: E402
from symex.ctx import harness  # noqa: E402


class Point(DessiaObject):
    """ Values only. """

    def __init__(self, x: float, label: str = "p", y: float = 2.5, name: str = ""):
        self.x = x
        self.label = label
        self.y = y
        super().__init__(name=name)


class Line(DessiaObject):
    """ Two points. """

    def __init__(self, start: Point, end: Point, width: float = 1., name: str = ""):
        self.start = start
        self.end = end
        self.width = width
        super().__init__(name=name)


class Tag(DessiaObject):
    """ Anything. """

    def __init__(self, code: Any, name: str = ""):
        self.code = code
        super().__init__(name=name)


class Drawing(DessiaObject):
    """ Anything twice, and private things. """

    def __init__(self, zone: Any, content: Any = None, name: str = ""):
        self.zone = zone
        self.content = content
        self._secret = 12
        super().__init__(name=name)


class Table(DessiaObject):
    """ Containers of objects. """

    def __init__(self, points: List[Point], tags: Dict[str, Tag] = None, scale: float = 1., name: str = ""):
        self.points = points
        self.tags = tags
        self.scale = scale
        super().__init__(name=name)


def subs(value, found):
    """ Sub-objects of a value, one for those that compare equal. """
    if isinstance(value, DessiaObject):
        if not any(o.__class__ is value.__class__ and o == value for o in found):
            found.append(value)
            for key, child in value.__dict__.items():
                if not key.startswith("_"):
                    subs(child, found)
    elif isinstance(value, dict):
        for child in value.values():
            subs(child, found)
    elif isinstance(value, (list, tuple, set)):
        for child in value:
            subs(child, found)


def read(obj, path):
    """ What a path leads to. """
    for part in path.split("."):
        if isinstance(obj, dict):
            obj = obj[part]
        elif isinstance(obj, (list, tuple, set)):
            obj = list(obj)[int(part)]
        else:
            obj = obj.__dict__[part]
    return obj


def rows_of(sheet):
    """ The rows of data. """
    return list(sheet.iter_rows(min_row=4))


def link_of(cell):
    """ (sheet, row) a cell leads to. """
    if cell.hyperlink is None:
        return None
    text = cell.hyperlink.location or cell.hyperlink.target
    sheet, _, address = text.lstrip("#").partition("!")
    return sheet, int(address[1:])


def cell_ok(ctx, book, main, cell, value):
    """ Whether a cell shows a value. """
    link = link_of(cell)
    ctx.check(link is None or link[0] in book.sheetnames, "links lead to existing sheets", str(link))
    if isinstance(value, DessiaObject):
        ctx.check(link is not None, "sub-objects are linked")
        target = book[link[0]].cell(row=link[1], column=1).value
        ctx.check(target == cell.value, "the link leads to the row of the path shown")
        there = read(main, target)
        ctx.check(there is value or there == value, "the link leads to the sub-object")
        return
    if isinstance(value, (dict, list, set)):
        size = len(value)
        elements = list(value.values()) if isinstance(value, dict) else list(value)
        objects = [e for e in elements if isinstance(e, DessiaObject)]
        if isinstance(value, list) and not objects and all(isinstance(e, (int, float, str)) for e in elements):
            ctx.check(ctx.eq(cell.value, str(value)), "lists of values are shown")
        else:
            kind = value.__class__.__name__.capitalize()
            ctx.check(cell.value == f"{kind} of {size} items", "containers show their number of elements", str(cell.value))
        if elements and len(objects) == len(elements) and len({o.__class__ for o in objects}) == 1:
            ctx.check(link is not None and link[0] == objects[0].__class__.__name__, "containers lead to their elements")
        return
    ctx.check(link is None, "values have no link")
    if isinstance(value, float):
        ctx.check(ctx.all_([cell.value - value <= 1e-6, value - cell.value <= 1e-6]), "numbers, rounded")
    else:
        ctx.check(ctx.eq(cell.value, str(value)), "the text of other values")


def sheet_ok(ctx, book, main, sheet, row, obj):
    """ Whether a row shows an object under its header. """
    header = [c.value for c in sheet[3]]
    keys = [k for k in obj.__dict__ if not k.startswith("_") and k != "name"]
    shown = [h for h in header[2:] if h is not None]
    ctx.check(sorted(shown) == sorted(keys), "one column per attribute", str(header))
    ctx.check(header[1] == "name", "name column")
    ctx.check(ctx.eq(row[1].value, obj.name), "name")
    for head, cell in zip(header[2:], row[2:]):
        if head is not None:
            cell_ok(ctx, book, main, cell, getattr(obj, head))


def book_ok(ctx, main, book):
    """ The workbook shows the object and its sub-objects. """
    first = book.worksheets[0]
    ctx.check(first["A2"].value == main.__module__, "module")
    ctx.check(first["B2"].value == main.__class__.__name__, "class")
    ctx.check(ctx.eq(first["C2"].value, main.name), "name of the object")
    ctx.check(len(rows_of(first)) == 1, "one row for the object")
    sheet_ok(ctx, book, main, first, rows_of(first)[0], main)
    found = []
    for key, child in main.__dict__.items():
        if not key.startswith("_"):
            subs(child, found)
    classes = {o.__class__.__name__: o.__class__ for o in found}
    ctx.check(sorted(book.sheetnames[1:]) == sorted(classes), "one sheet per class", str(book.sheetnames))
    for sheet in book.worksheets[1:]:
        class_ = classes[sheet.title]
        ctx.check(sheet["A2"].value == class_.__module__ and sheet["B2"].value == class_.__name__, "class of the sheet")
        mine = [o for o in found if o.__class__ is class_]
        rows = rows_of(sheet)
        ctx.check(len(rows) == len(mine), "one row per sub-object", f"{sheet.title} {len(rows)} {len(mine)}")
        for row in rows:
            obj = read(main, row[0].value)
            at = [i for i, o in enumerate(mine) if o is obj or o == obj]
            ctx.check(len(at) == 1, "each sub-object once")
            mine.pop(at[0])
            sheet_ok(ctx, book, main, sheet, row, obj)


def point(ctx, name, i=0, alike=False):
    label = ctx.choice(f"{name}.label", ["a", "b c"]) if i == 0 else "d" if alike else f"d{i}"
    if i > 1 and not alike:
        x = i / 4
    else:
        x = (ctx.int(f"{name}.x", -40, 40) if i < 2 else ctx.int(f"{name}.x", i, i)) / 4
    return Point(x, label, name=f"p{i}")


KINDS = ["real", "int", "text", "none", "flag", "ints", "tuple", "points", "dict", "values", "set", "point", "line", "shared",
         "mixed", "empty", "nested"]


def anything(ctx, name, kinds):
    """ A value of some kind. """
    kind = ctx.choice(name, kinds)
    if kind == "real":
        return ctx.real(name + ".r", -100, 100)
    if kind == "int":
        return ctx.int(name + ".i", -20, 20)
    if kind == "text":
        return ctx.choice(name + ".t", ["", "text", "List of 2 items"])
    if kind == "none":
        return None
    if kind == "flag":
        return ctx.flag(name + ".f")
    if kind == "ints":
        return [1, ctx.int(name + ".i", 0, 9)]
    if kind == "tuple":
        return (1, 2.5)
    if kind == "points":
        return [point(ctx, f"{name}{i}", i + 1, True) for i in range(ctx.length(name + ".n", 1, 3))]
    if kind == "dict":
        return {"k": point(ctx, name + "k", 1, True), "l": Tag(3)}
    if kind == "values":
        return {"k": 1, "l": "two"}
    if kind == "set":
        return {Tag(ctx.int(name + ".i", 4, 4))} if ctx.flag(name + ".o") else {4, 5}
    if kind == "point":
        return point(ctx, name)
    if kind == "line":
        return Line(point(ctx, name + "s", 1, True), point(ctx, name + "e", 2, True), name="line")
    if kind == "shared":
        spot = point(ctx, name + "s")
        return Line(spot, spot)
    if kind == "mixed":
        return [ctx.choice(name + ".m", [1, "a", None]), Tag(2)]
    if kind == "empty":
        return ctx.choice(name + ".e", [[], {}])
    return [[Tag(2)], [1]]


@harness("C33", bounds="an object with two attributes of 17 kinds (quick: 3 for the second) (values, lists, dictionaries, sets, sub-objects at "
                       "most three deep, shared or not), every number", shards=8)
def written(ctx):
    """ The workbook written for an object shows its values and sub-objects. """
    first = anything(ctx, "first", KINDS)
    second = anything(ctx, "second", ["real", "dict", "line"] if ctx.tier == "quick" else KINDS)
    main = Drawing(first, second, name="main" if isinstance(second, float) else "")
    book_ok(ctx, main, XLSXWriter(main).workbook)


def reread(ctx, obj):
    """ What comes back from the workbook of an object. """
    book = XLSXWriter(obj).workbook
    BOOKS.append(book)
    try:
        return ExcelReader(book).read_workbook()
    finally:
        BOOKS.pop()


def same(ctx, a, b):
    """ Same data, up to the rounding of numbers. """
    if isinstance(a, float):
        return isinstance(b, (int, float)) and ctx.all_([a - b <= 1e-6, b - a <= 1e-6])
    if isinstance(a, (list, tuple)):
        return a.__class__ is b.__class__ and len(a) == len(b) and ctx.all_([same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and ctx.all_([same(ctx, a[k], b[k]) for k in a])
    if isinstance(a, DessiaObject):
        return a.__class__ is b.__class__ and ctx.all_([same(ctx, v, b.__dict__[k]) for k, v in a.__dict__.items()])
    return a.__class__ is b.__class__ and ctx.eq(a, b)


def plain(ctx, name, short=False):
    short = short and ctx.tier == "quick"
    kind = ctx.choice(name, ["real", "ints"] if short else ["real", "int", "text", "none", "flag", "ints", "tuple"])
    return {"real": lambda: ctx.real(name + ".r", -100, 100), "int": lambda: ctx.choice(name + ".i", [0, 7, -12]),
            "text": lambda: ctx.choice(name + ".t", ["text", "two words", "a.b"]), "none": lambda: None,
            "flag": lambda: ctx.choice(name + ".f", [True, False]), "ints": lambda: ctx.choice(name + ".l", [[1, 2], [], ["a"]]),
            "tuple": lambda: (1, 2.5)}[kind]()


@harness("C33", bounds="values of 7 kinds; 1..3 objects in a list or dictionary; one or two sub-objects of a class, equal or not; "
                       "lists of 1..3 objects with sub-objects; every number in [-100, 100]", shards=4)
def read_back(ctx):
    """ The object read from the workbook is the one written. """
    shape = ctx.choice("shape", ["values", "points", "line", "lines", "table", "deep"])
    if shape == "values":
        obj = Drawing(plain(ctx, "a"), plain(ctx, "b", True), name=ctx.choice("name", ["main", "", "main part"]))
    elif shape == "points":
        obj = Table([point(ctx, f"p{i}", i + 1) for i in range(ctx.length("n", 1, 3))], None, ctx.real("s", -100, 100), name="t")
    elif shape == "line":
        obj = Line(point(ctx, "s"), point(ctx, "e", 2), ctx.real("w", -100, 100), name="line")
    elif shape == "lines":
        lines = [Line(point(ctx, f"s{i}", 2 * i + 1), point(ctx, f"e{i}", 2 * i + 2), float(i), name=f"l{i}") for i in range(ctx.length("n", 2, 3))]
        obj = Drawing(lines, plain(ctx, "a", True), name="main")
    elif shape == "table":
        tags = {k: Tag(ctx.real("t" + k, 0, 9) if k == "l" else 10. * ord(k), name=k) for k in ["k", "l", "m"][:ctx.length("n", 1, 3)]}
        obj = Table([1, 2], tags, 0.25, name="t")
    else:
        obj = Tag(Drawing(Line(point(ctx, "s"), point(ctx, "e", 2)), plain(ctx, "a", True), name="middle"), name="main")
    back = reread(ctx, obj)
    ctx.check(same(ctx, obj, back), "the same object", str(shape))


@harness("C33", bounds="1 or 2 sheets, 0..3 rows each, columns in any of 3 orders, with unknown or repeated ones or without a "
                       "mandatory one; every number", shards=2)
def catalogs(ctx):
    """ A catalog gives one object per row. """
    book = openpyxl.Workbook()
    book.remove(book.active)
    columns = ctx.choice("columns", [("x", "label", "y", "name"), ("name", "y", "x", "label"), ("x", "label"),
                                     ("y", "other", "x"), ("label", "y"), ("x", "y", "x")])
    expected = {}
    for s in range(ctx.length("sheets", 1, 2)):
        sheet = book.create_sheet(f"S{s}")
        sheet["A1"], sheet["B1"] = Point.__module__, "Point"
        for j, column in enumerate(columns):
            sheet.cell(row=2, column=j + 1, value=column)
        expected[f"S{s}"] = []
        for i in range(ctx.length(f"rows{s}", 0, 3)):
            row = {"x": ctx.real(f"x{s}{i}", -100, 100), "y": ctx.real(f"y{s}{i}", -100, 100), "name": f"n{i}",
                   "label": ctx.choice(f"l{s}{i}", ["a", "b c"]), "other": 12}
            for j, column in enumerate(columns):
                sheet.cell(row=i + 3, column=j + 1, value=row[column])
            expected[f"S{s}"].append({k: v for k, v in row.items() if k in columns and k != "other"})
    BOOKS.append(book)
    try:
        got = ExcelReader(book).read_catalog()
    except ValueError:
        ctx.check("x" not in columns or len(set(columns)) < len(columns), "refused without reason")
        return
    finally:
        BOOKS.pop()
    ctx.check("x" in columns and len(set(columns)) == len(columns), "ill-defined catalogs are refused")
    ctx.check(set(got) == set(expected), "one list per sheet")
    for title, rows in expected.items():
        ctx.check(len(got[title]) == len(rows), "one object per row")
        for obj, row in zip(got[title], rows):
            full = {"label": "p", "y": 2.5, "name": "", **row}
            ctx.check(obj.__class__ is Point, "class")
            ctx.check(ctx.all_([ctx.eq(getattr(obj, k), v) for k, v in full.items()]), "values under their names")
