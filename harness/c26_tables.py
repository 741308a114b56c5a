""" C26: tables written for objects, matrices and datasets. """
from dessia_common.core import DessiaObject
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset
from dessia_common.exports import MarkdownWriter
from symex.ctx import harness

LETTERS = ["abc"]
CAPITALS = {"a": "A", "bb": "Bb", "cCc": "Ccc"}


def shown(ctx, text, limit):
    """ What is seen of a text in a cell. """
    return text[:limit] + "..." if len(text) > limit else text


def line(cells):
    res = "|"
    for cell in cells:
        res = res + " " + cell + " |"
    return res + "\n"


def table(ctx, rows, limit):
    """ The rows shown, in order, and the number of those that are not. """
    if limit is None or len(rows) <= limit:
        return [("row", r) for r in rows]
    tail = limit // 2
    head = limit - tail
    return [("row", r) for r in rows[:head]] + [("left out", len(rows) - limit)] + [("row", r) for r in rows[len(rows) - tail:]]


def written(ctx, rows, limit, width):
    text = ""
    for kind, value in table(ctx, rows, limit):
        if kind == "row":
            text = text + line([shown(ctx, cell, width) for cell in value])
        else:
            text = text + f"| + {value} unprinted elements | |\n"
    return text


@harness("C26", bounds="matrices of 0..7 (quick) / 0..9 (thorough) rows and 1..2 columns of unknown texts of 1 letter, limits of 0..6 rows "
                       "or none", shards=4)
def limits(ctx):
    """ Every row up to the limit, the others counted. """
    n = ctx.length("n", 0, ctx.bound(7, 9))
    columns = ctx.length("columns", 1, 2)
    limit = ctx.choice("limit", [None, 0, 1, 2, 3, 4, 5, 6])
    rows = [[ctx.str(f"c{i}.{j}", 1, LETTERS) for j in range(columns)] for i in range(n)]
    writer = MarkdownWriter(print_limit=25, table_limit=limit)
    got = writer.matrix_table(rows, ["a", "bb"][:columns])
    head = "| A | Bb |\n| ------ | ------ |\n" if columns == 2 else "| A |\n| ------ |\n"
    ctx.check(ctx.same(got, head + written(ctx, rows, limit, 25)), "each row once, in order, and the number of those left out")


@harness("C26", bounds="cells of 1..5 unknown letters, numbers, nothing, texts, sequences, dictionaries and objects; widths of 1..4")
def cells(ctx):
    """ A cell shows its value, up to the width. """
    width = ctx.length("width", 1, 4)
    writer = MarkdownWriter(print_limit=width if ctx.flag("narrow") else 60, table_limit=None)
    width = writer.print_limit
    value, text = cell(ctx)
    got = writer.matrix_table([[value, "z"]], ["a", "cCc"])
    expected = "| A | Ccc |\n| ------ | ------ |\n" + line([shown(ctx, text, width), "z"])
    ctx.check(ctx.same(got, expected), "the value of the cell", text)


def cell(ctx):
    kind = ctx.choice("kind", ["text", "empty text", "int", "float", "complex", "none", "list", "tuple", "empty list", "dict", "named",
                               "unnamed", "mixed"])
    word = ctx.str("word", ctx.length("letters", 1, 5), LETTERS)
    if kind == "text":
        return word, word
    if kind == "named":
        return DessiaObject(name=word), word
    return {"empty text": ("", "no value"), "int": (12, "12"), "float": (1.23456789, "1.234568"), "complex": (1.5 + 2j, "(1.5+2j)"),
            "none": (None, " - "), "list": ([1, 2, 3], "3 ints"), "tuple": (("a",), "1 str"), "empty list": ([], "empty list"),
            "dict": ({"a": 1., "b": 2.}, "2 floats"), "unnamed": (DessiaObject(), "unnamed"),
            "mixed": ([DessiaObject(), DessiaObject(), DessiaObject(name="a")], "3 DessiaObjects")}[kind]


class Thing(DessiaObject):
    """ What is described. """

    def __init__(self, number: float = 0., label: str = "", other=None, name: str = ""):
        self.number = number
        self.label = label
        self.other = other
        super().__init__(name=name)


@harness("C26", bounds="objects with unknown texts of 1..2 letters for name and label, the last attribute of 3 kinds")
def objects(ctx):
    """ Every attribute of an object, with its class and value. """
    label, name = ctx.str("label", ctx.length("l", 1, 2), LETTERS), ctx.str("name", ctx.length("n", 1, 2), LETTERS)
    other, kind, text = ctx.choice("other", [(None, "NoneType", " - "), ([1, 2], "list", "2 ints"), (7, "int", "7")])
    thing = Thing(2.5, label, other, name)
    got = MarkdownWriter(print_limit=25, table_limit=None).object_table(thing)
    expected = {"number": ("float", "2.5"), "label": ("str", label), "other": (kind, text), "name": ("str", name)}
    rows = [[key, *expected[key]] for key in thing.__dict__ if key in expected]
    ctx.check(len(rows) == 4, "every attribute is there")
    ctx.check(ctx.same(got, "| Attribute | Type | Value |\n| ------ | ------ | ------ |\n" + written(ctx, rows, None, 25)),
              "one line per attribute")


def rows_of(text):
    """ The cells of the lines, and the other lines. """
    cells_ = []
    for row in text.split("\n"):
        if row.startswith("|"):
            cells_.append([c.strip() for c in row.split("|")[1:-1]])
        else:
            cells_.append(row)
    return cells_


@harness("C26", bounds="datasets of 0..13 objects with unknown names of 1 letter, clustered or not")
def datasets(ctx):
    """ The printed form of a dataset shows each object once, in order, up to ten of them. """
    n = ctx.length("n", 0, 13)
    names = [ctx.str(f"name{i}", 1, LETTERS) for i in range(n)]
    items = [Thing(float(i), "x", name=name) for i, name in enumerate(names)]
    clustered = ctx.flag("clustered")
    data = ClusteredDataset(items, [i % 3 for i in range(n)], name="data") if clustered else Dataset(items, name="data")
    text = str(data)
    if n == 0:
        return
    lines = rows_of(text)
    ctx.check(lines[0].endswith(", 3 clusters" if clustered and n > 2 else "features") or clustered, "how many there are")
    titles = [t.lower() for t in lines[1]]
    got = [row for row in lines[3:] if not (isinstance(row, str) and row == "")]
    expected = [("row", i) for i in range(n)] if n <= 10 else \
        [("row", i) for i in range(5)] + [("left out", n - 10)] + [("row", i) for i in range(n - 5, n)]
    ctx.check(len(got) == len(expected), "as many lines as needed", (len(got), len(expected)))
    for row, (kind, value) in zip(got, expected):
        if kind == "left out":
            ctx.check(isinstance(row, str) and row.startswith(f"+ {value} undisplayed object"), "how many are left out", row)
            continue
        ctx.check(len(row) == len(titles), "one cell per column")
        ctx.check(ctx.same(row[titles.index("name")], names[value]), "the name", value)
        ctx.check(row[titles.index("number")] == str(float(value)), "the value", (value, row))
        if clustered:
            ctx.check(row[titles.index("label")] == str(value % 3), "the label", (value, row))
