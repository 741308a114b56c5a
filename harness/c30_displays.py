""" C30: displays and exports. """
import ast
import functools
import inspect
import io
import os
import tempfile
import zipfile

from symex import iomodels

iomodels.enable()

from dessia_common import core, decorators, files  # noqa: E402
from dessia_common.core import DessiaObject  # noqa: E402
from dessia_common.decorators import (cad_view, export_decorator, export_docx, export_html, export_step, export_stl,  # noqa: E402
                                      export_xlsx, markdown_view, plot_data_view)
from dessia_common.files import BinaryFile, StringFile  # noqa: E402
from dessia_common.typings import MarkdownType, MethodType, PlotDataType  # noqa: E402
from dessia_common.workflow import blocks as wblocks  # noqa: E402
from dessia_common.workflow.blocks import Archive, Export, Markdown, PlotData  # noqa: E402
from dessia_common.workflow.core import Pipe, Variable, Workflow  # noqa: E402
from harness.flows import Op, apply, position_of, start  # noqa: E402
from symex.ctx import harness  # noqa: E402

LETTERS = ["ab"]


def traced(function):
    """ Another decorator. """
    @functools.wraps(function)
    def wrapper(*args, **kwargs):
        return function(*args, **kwargs)
    return wrapper


def once(function, key):
    """ The same results, computed once. """
    known = {}

    def stand_in(arg, *args, **kwargs):
        """ As the function. """
        if args or kwargs:
            return function(arg, *args, **kwargs)
        if key(arg) not in known:
            known[key(arg)] = function(arg)
        return known[key(arg)]
    return stand_in


# reading the source of every method of a class takes longer than anything else here
inspect.getsource = once(inspect.getsource, lambda f: getattr(inspect.unwrap(f), "__code__", f))
ast.parse = once(ast.parse, lambda source: source)
MODELLED = issubclass(BinaryFile, iomodels.BytesIO)


def subjects(ctx, selectors, loads, fails):
    """ [(class, {method: (selector, type, loaded by default)})] """
    def show(self, name):
        if fails[name]:
            raise RuntimeError("on purpose")
        return {"value": [self.value, name]}

    class Base(DessiaObject):
        """ Decorated with a view of each kind. """

        def __init__(self, value, name=""):
            self.value = value
            super().__init__(name=name)

        @plot_data_view(selector=selectors["drawn"], load_by_default=loads["drawn"])
        def drawn(self):
            """ Plot. """
            return show(self, "drawn")

        @cad_view(selector=selectors["solid"], load_by_default=loads["solid"])
        def solid(self, reference_path: str = "#"):
            """ Model. """
            return show(self, "solid")

        @markdown_view(selector=selectors["text"], load_by_default=loads["text"])
        def text(self):
            """ Text. """
            show(self, "text")
            return "# a\n    b\n    c"

        def other(self):
            """ Not decorated. """
            return None

    class Derived(Base):
        """ Overrides without decoration, and adds. """

        def solid(self, reference_path: str = "#"):
            return show(self, "solid")

        @staticmethod
        def helper():
            """ Not decorated. """

        @plot_data_view(selector=selectors["extra"], load_by_default=loads["extra"])
        def extra(self):
            """ Plot. """
            return show(self, "extra")

    class Turned(Base):
        """ Overrides with another decoration. """

        @plot_data_view(selector=selectors["extra"], load_by_default=loads["extra"])
        def text(self):
            """ Plot. """
            return show(self, "text")

    class Stacked(Base):
        """ With other decorations as well. """

        @traced
        @plot_data_view(selector=selectors["drawn"], load_by_default=loads["drawn"])
        def drawn(self):
            """ Plot. """
            return show(self, "drawn")

        @decorators.markdown_view(selector=selectors["text"], load_by_default=loads["text"])
        @traced
        def text(self):
            """ Text. """
            show(self, "text")
            return "# a\n    b\n    c"

        @traced
        def other(self):
            """ Not a view. """

    class Plain(DessiaObject):
        """ Not decorated. """

        def __init__(self, value, name=""):
            self.value = value
            super().__init__(name=name)

    def setting(method, type_, source=None):
        source = source or method
        return (method if selectors[source] is None else selectors[source], type_, loads[source])

    base = {"drawn": setting("drawn", "plot_data"), "solid": setting("solid", "babylon_data"), "text": setting("text", "markdown")}
    derived = {"drawn": base["drawn"], "text": base["text"], "extra": setting("extra", "plot_data")}
    turned = {"drawn": base["drawn"], "solid": base["solid"], "text": setting("text", "plot_data", "extra")}
    return {"base": (Base, base), "derived": (Derived, derived), "turned": (Turned, turned), "stacked": (Stacked, base),
            "plain": (Plain, {})}


@harness("C30", bounds="5 classes (views of 3 kinds; inherited, overridden with and without decoration, decorated otherwise as well; "
                       "none), selectors of 1..2 unknown letters or left out, asked for by an unknown selector; methods that fail", shards=8)
def displays(ctx):
    """ The decorated methods are the displays. """
    names = ["drawn", "solid", "text", "extra"]
    letters = ctx.length("letters", 1, 2)
    selectors = {n: ctx.str(n + ".selector", letters, LETTERS) for n in names}
    if ctx.flag("default selector"):
        selectors["drawn"] = None
    ctx.assume(ctx.all_([ctx.not_(ctx.eq(selectors[a], selectors[b])) for i, a in enumerate(names) for b in names[:i]
                         if selectors[a] is not None and selectors[b] is not None]))
    loads = {n: ctx.bool(n + ".load") for n in names}
    failing = ctx.choice("failing", [None] + names)
    fails = {n: n == failing for n in names}
    class_, expected = subjects(ctx, selectors, loads, fails)[ctx.choice("class", ["base", "derived", "turned", "stacked", "plain"])]
    settings = class_.display_settings()
    ctx.check(len({s.method for s in settings}) == len(settings), "each display once")
    markdown = any(type_ == "markdown" for _, type_, _ in expected.values())
    defaults = {"": ("Structure Tree", "tree", False)}
    if not markdown:
        defaults["to_markdown"] = ("Markdown", "markdown", True)
    ctx.check({s.method for s in settings} == set(expected) | set(defaults), "the decorated methods and the default ones",
              str([s.method for s in settings]))
    for setting in settings:
        selector, type_, load = (expected if setting.method in expected else defaults)[setting.method]
        ctx.check(ctx.same(setting.selector, selector), "under the announced selector")
        ctx.check(setting.type == type_, "with the announced type")
        ctx.check(ctx.iff(setting.load_by_default, load), "and the announced option")
    value = ctx.int("value")
    object_ = class_(value, "n")
    asked = selectors[ctx.choice("asked", names)] if ctx.flag("known") else ctx.choice("unknown", ["c", "drawn", "", "other"])
    if asked is None:
        asked = "drawn"
    target = None
    for method, (selector, _, _) in expected.items():
        if len(selector) == len(asked) and selector == asked:
            target = method
    try:
        got = object_._display_from_selector(asked)
    except ValueError:
        ctx.check(target is None, "a selector that exists is not refused")
        return
    ctx.check(target is not None, "a selector that does not exist is refused")
    ctx.check(got.type_ == expected[target][1], "of its type")
    if fails[target]:
        ctx.check(got.data is None and "on purpose" in got.traceback, "the failure is reported")
        return
    ctx.check(got.traceback == "", "nothing failed")
    wanted = "# a\nb\nc" if expected[target][1] == "markdown" else {"value": [value, target]}
    ctx.check(ctx.same(got.data, wanted), "what the method of that selector gives")
    ctx.check(object_.value is value, "the object is left alone")


class Disk:
    """ Files opened by dessia_common, kept in memory, or in a scratch directory in replays. """

    def __init__(self):
        self.files = {}
        self.modules = [core]
        self.scratch = None

    def __enter__(self):
        if MODELLED:
            core.open = self.open
            core.zipfile = self
            wblocks.ZipFile = self.ZipFile
        else:
            self.scratch = tempfile.TemporaryDirectory()
            self.here = os.getcwd()
            os.chdir(self.scratch.name)
        return self

    def __exit__(self, *args):
        if MODELLED:
            del core.open
            core.zipfile = zipfile
            wblocks.ZipFile = zipfile.ZipFile
        else:
            os.chdir(self.here)
            self.scratch.cleanup()

    def open(self, path, mode="r", encoding=None):
        if path not in self.files or "w" in mode:
            self.files[path] = ((iomodels.BytesIO if "b" in mode else iomodels.StringIO)(), mode)
        return Handle(self.files[path][0])

    def read(self, path):
        """ (whether it is a text file, content) """
        if MODELLED:
            stream, mode = self.files[path]
            return "b" not in mode, content(stream)
        with open(path, "rb") as stream:
            return None, stream.read().decode("latin-1")

    def listing(self):
        return sorted(self.files) if MODELLED else sorted(os.listdir("."))

    ZIP_DEFLATED = zipfile.ZIP_DEFLATED

    @staticmethod
    def ZipFile(stream, mode="r", compression=0):
        return Zip(stream)


class Handle:
    """ An open file. """

    def __init__(self, stream):
        self.stream = stream

    def write(self, data):
        return self.stream.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None


class Zip:
    """ Model of zip files: names and contents, one after the other. """

    def __init__(self, stream):
        self.stream = stream

    def open(self, name, mode="r"):
        return Entry(self, name)

    def writestr(self, name, data):
        self.stream.write(iomodels.SymBytes(f"{name}:" + iomodels.text_of(data) + ";"))

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None


class Entry:
    """ A file being written in an archive. """

    def __init__(self, archive, name):
        self.archive = archive
        self.name = name
        self.text = ""

    def write(self, data):
        self.text = self.text + iomodels.text_of(data)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.archive.stream.write(iomodels.SymBytes(self.name + ":" + self.text + ";"))


def content(stream):
    """ As a text. """
    value = stream.getvalue()
    return value if isinstance(value, str) else iomodels.text_of(value)


def entries(ctx, text):
    """ [(name, content)] of an archive. """
    if not MODELLED:
        archive = zipfile.ZipFile(io.BytesIO(text.encode("latin-1")))
        return [(i.filename, archive.read(i).decode("latin-1")) for i in archive.infolist()]
    res = []
    for part in split(text, ";"):
        name = split(part, ":")
        res.append((name[0], part[len(name[0]) + 1:]))
    return res


def split(text, mark):
    """ The parts before each mark. """
    res, begin = [], 0
    for i in range(len(text)):
        if text[i] == mark:
            res.append(text[begin:i])
            begin = i + 1
    return res


def put(stream, text, is_text):
    """ Writes in a stream that must be of that kind. """
    if is_text:
        stream.write(text)
    else:
        stream.write(iomodels.SymBytes(text) if MODELLED else text.encode("latin-1"))


def exported(ctx, selectors, texts):
    """ [(class, {method: (selector, extension, text)})] """
    class Basic(DessiaObject):
        """ With the default exports. """

        def save_to_stream(self, stream, use_pointers=True, indent=None):
            """ Unknown content. """
            put(stream, texts["save_to_stream"], True)

        def to_xlsx_stream(self, stream):
            """ Unknown content. """
            put(stream, texts["to_xlsx_stream"], False)

        def to_docx_stream(self, stream):
            """ Unknown content. """
            put(stream, texts["to_docx_stream"], False)

    class One(Basic):
        """ Exports of its own. """

        @export_step(selectors["shape"])
        def shape(self, stream):
            """ Text. """
            put(stream, texts["shape"], True)

        @export_stl(selectors["mesh"])
        def mesh(self, stream):
            """ Binary. """
            put(stream, texts["mesh"], False)

    class Other(One):
        """ Others, which may have the extension of default exports. """

        def mesh(self, stream):
            """ Not decorated. """

        @export_decorator(selectors["mesh"], "csv", True)
        def sheet(self, stream):
            """ Text. """
            put(stream, texts["sheet"], True)

        @export_xlsx(selectors["book"])
        def book(self, stream):
            """ Binary. """
            put(stream, texts["book"], False)

    class Documents(Basic):
        """ Two documents. """

        @export_html(selectors["shape"])
        def page(self, stream):
            """ Text. """
            put(stream, texts["page"], True)

        @export_docx(selectors["mesh"])
        def report(self, stream):
            """ Binary. """
            put(stream, texts["report"], False)

    basic = {"save_to_stream": ("json", "json", True), "to_xlsx_stream": ("xlsx", "xlsx", False), "to_docx_stream": ("docx", "docx", False)}

    def export(source, extension, text):
        return (selectors[source] or extension, extension, text)
    return {"basic": (Basic, basic),
            "one": (One, {**basic, "shape": export("shape", "step", True), "mesh": export("mesh", "stl", False)}),
            "other": (Other, {**basic, "shape": export("shape", "step", True), "sheet": export("mesh", "csv", True),
                              "book": export("book", "xlsx", False)}),
            "documents": (Documents, {**basic, "page": export("shape", "html", True), "report": export("mesh", "docx", False)})}


METHODS = ["save_to_stream", "to_xlsx_stream", "to_docx_stream", "shape", "mesh", "sheet", "book", "page", "report"]


def exporting(ctx, letters):
    """ An object, and the exports it announces. """
    names = ["shape", "mesh", "book"]
    selectors = {n: ctx.str(n + ".selector", letters, LETTERS) if letters else n for n in names}
    if ctx.flag("default selector"):
        selectors["shape"] = ""
    ctx.assume(ctx.all_([ctx.not_(ctx.eq(selectors[a], selectors[b])) for i, a in enumerate(names) for b in names[:i]
                         if len(selectors[a]) == len(selectors[b])]))
    texts = {n: ctx.str(n + ".text", 1 + i % 2, ["xyz"]) for i, n in enumerate(METHODS)}
    class_, expected = exported(ctx, selectors, texts)[ctx.choice("class", ["basic", "one", "other", "documents"])]
    return class_(name="n"), expected, texts


@harness("C30", bounds="4 classes (default exports; exports of each decorator, inherited, overridden without decoration), selectors of "
                       "2 unknown letters or left out, contents of 1..2 unknown characters, paths with and without extension", shards=4)
def exports(ctx):
    """ The decorated methods are the exports. """
    object_, expected, texts = exporting(ctx, 2)
    formats = object_._export_formats()
    ctx.check(sorted(f.method_name for f in formats) == sorted(list(expected) + ["to_zip_stream"]), "each export once",
              str([f.method_name for f in formats]))
    for format_ in formats:
        if format_.method_name in expected:
            selector, extension, is_text = expected[format_.method_name]
            ctx.check(ctx.same(format_.selector, selector), "under the announced selector")
            ctx.check(format_.extension == extension, "with the announced extension")
            ctx.check(format_.text == is_text, "as text or not, as announced")
    which = ctx.choice("asked", ["unknown"] + [m for m in METHODS if m in expected])
    asked = ctx.str("unknown", 2, ["abc"]) if which == "unknown" else expected[which][0]
    target = None
    for method, (selector, _, _) in expected.items():
        if len(selector) == len(asked) and selector == asked:
            target = method
    path = ctx.choice("path", ["out", "out.txt", "out.json", "out.xlsx", "out.step"])
    with Disk() as disk:
        try:
            got = object_.save_export_to_file(asked, path)
        except ValueError:
            ctx.check(target is None, "a selector that exists is not refused")
            ctx.check(disk.listing() == [], "nothing is written")
            return
        ctx.check(target is not None, "a selector that does not exist is refused")
        _, extension, is_text = expected[target]
        wanted = path if path.endswith("." + extension) else path + "." + extension
        ctx.check(got == wanted and disk.listing() == [wanted], "at the path returned", got)
        opened, text = disk.read(wanted)
        ctx.check(opened in (None, is_text), "text or binary as announced")
        ctx.check(ctx.same(text, texts[target]), "what the method of that selector writes")


@harness("C30", bounds="the same objects, archived in memory and in a file")
def archives(ctx):
    """ Each export once in the archive. """
    object_, expected, texts = exporting(ctx, 0)
    with Disk() as disk:
        way = ctx.choice("way", ["stream", "file", "export"])
        if way == "stream":
            archive = BinaryFile("z.zip")
            returned = object_.to_zip_stream(archive)
            ctx.check(len(returned) == 1 and returned[0] is archive, "the archive is given back")
            text = content(archive)
        else:
            if way == "file":
                object_.to_zip("z")
            else:
                ctx.check(object_.save_export_to_file("zip", "z") == "z.zip", "at the path returned")
            ctx.check(disk.listing() == ["z.zip"], "in a zip file")
            text = disk.read("z.zip")[1]
        found = entries(ctx, text)
    ctx.check(len(found) == len(expected), "one file for each export", str([n for n, _ in found]))
    ctx.check(len({str(n) for n, _ in found}) == len(found), "under names of their own", str([n for n, _ in found]))
    for method, (_, extension, _) in expected.items():
        same = [t for n, t in found if n.endswith("." + extension)]
        ctx.check(ctx.any_([ctx.same(t, texts[method]) for t in same]), "what the method writes", method)


SEEN = []


def seen(value):
    """ A text that stands for a value. """
    SEEN.append(value)
    return f"#{len(SEEN) - 1}"


def meant(text):
    """ The value a text stands for. """
    return SEEN[int(str(text)[1:])]


class Model(DessiaObject):
    """ What the blocks of the workflows show. """

    def __init__(self, value: int, name: str = ""):
        self.value = value
        super().__init__(name=name)

    @plot_data_view(selector="graph")
    def graph(self, reference_path: str = "#"):
        """ A view. """
        return {"value": self.value, "at": reference_path}

    @markdown_view(selector="report", load_by_default=True)
    def report(self):
        """ A view that takes no reference. """
        return seen(self.value)

    def text(self, stream: StringFile):
        """ An export. """
        stream.write(seen(self.value))

    def binary(self, stream: BinaryFile):
        """ An export. """
        stream.write(seen(self.value).encode())


class Make(Op):
    """ Gives a model. """

    def evaluate(self, values, **kwargs):
        args = [values[i].value if isinstance(values[i], Model) else values[i] for i in self.inputs]
        return [Model(apply(self.tag, 0, args))]


class Value(Op):
    """ Reads a model. """

    def evaluate(self, values, **kwargs):
        return [values[self.inputs[0]].value]


def kinds_of_blocks():
    """ Blocks that show a model, and how they do. """
    return {"text": lambda i: Export(MethodType(Model, "text"), text=True, extension="txt", filename=f"f{i}", name="E"),
            "binary": lambda i: Export(MethodType(Model, "binary"), text=False, extension="bin", filename=f"f{i}", name="E"),
            "graph": lambda i: PlotData(PlotDataType(Model, "graph"), name="D"),
            "report": lambda i: Markdown(MarkdownType(Model, "report"), name="D")}


@harness("C30", bounds="runs of workflows with a block of the main branch, one beside it, and 2 blocks that show either, or a model given "
                       "as input (4 kinds of displays and exports, and archives of both), listed in 2 (quick) / 3 (thorough) orders; 2 (quick) / 3 (thorough) "
                       "requests in any order, on 2 runs for different values", shards=8)
def workflows(ctx):
    """ Each block shows what it is fed, in each run. """
    start(ctx)
    SEEN.clear()
    main, aside, last = Make("m", 1), Make("a", 2), Value("v", 1)
    fed = Variable(type_=Model, name="given")
    feeds = {"main": main.outputs[0], "aside": aside.outputs[0], "given": fed}
    pipes = [Pipe(main.outputs[0], last.inputs[0]), Pipe(feeds["main"], aside.inputs[0])]
    pairs = [("text", "binary"), ("text", "text"), ("binary", "graph"), ("report", "graph"), ("text", "report")]
    kinds = ctx.choice("kinds", pairs)
    sources = ctx.choice("fed by", [("main", "aside"), ("aside", "aside"), ("given", "main"), ("aside", "given"), ("main", "main")])
    shows = [kinds_of_blocks()[kind](i) for i, kind in enumerate(kinds)]
    pipes += [Pipe(feeds[source], block.inputs[0]) for source, block in zip(sources, shows)]
    archive = None
    if set(kinds) <= {"text", "binary"}:
        archive = Archive(number_exports=2, filename="all", name="A")
        pipes += [Pipe(shows[0].outputs[0], archive.inputs[0]), Pipe(shows[1].outputs[0], archive.inputs[1])]
    blocks = [main, aside, last] + shows + ([archive] if archive else [])
    blocks = ctx.choice("order", [blocks[::-1], blocks[2:] + blocks[:2]] + ctx.bound([], [blocks]))
    workflow = Workflow(blocks, pipes, last.outputs[0], name="w")
    runs, wanted = [], []
    for n in range(2):
        values, numbers = {}, {}
        for i, variable in enumerate(workflow.inputs):
            if not variable.has_default_value:
                numbers[id(variable)] = ctx.int(f"value{n}.{variable.name}.{i}")
                values[i] = Model(numbers[id(variable)]) if variable is fed else numbers[id(variable)]
        runs.append(workflow.run(values))
        made = apply("m", 0, [numbers[id(main.inputs[0])]])
        wanted.append({"main": made, "aside": apply("a", 0, [made, numbers[id(aside.inputs[1])]]), "given": numbers.get(id(fed))})
    for run in runs:
        offered(ctx, run, workflow, shows, kinds, archive)
    with Disk() as disk:
        for k in range(ctx.bound(2, 3)):
            n = ctx.choice(f"run{k}", [0, 1]) if k else 0  # the two runs are alike
            what = ctx.choice(f"what{k}", [0, 1] + ([2] if archive else []) + [3] * any(b in workflow.export_blocks for b in shows))
            if what == 3:
                archived(ctx, runs[n], [(b, kind, wanted[n][s]) for b, kind, s in zip(shows, kinds, sources)], archive)
            elif what == 2:
                request(ctx, disk, workflow, runs[n], archive, "zip", [wanted[n][s] for s in sources], ctx.flag(f"file{k}"))
            else:
                request(ctx, disk, workflow, runs[n], shows[what], kinds[what], wanted[n][sources[what]], ctx.flag(f"file{k}"))
    for n, run in enumerate(runs):
        ctx.check(ctx.eq(run.output_value, wanted[n]["main"]), "the output of each run is left alone")


def selector_of(workflow, block, kind):
    """ Under which selector. """
    return kind if kind in ("graph", "report") else f"{block.name} ({position_of(workflow.blocks, block)})"


def offered(ctx, run, workflow, shows, kinds, archive):
    """ The displays and exports of the blocks are those of the run. """
    blocks = list(zip(shows, kinds)) + ([(archive, "zip")] if archive else [])
    types = {"graph": "plot_data", "report": "markdown"}
    displays = sorted((selector_of(workflow, b, kind), types[kind]) for b, kind in blocks if kind in types)
    settings = [(s.selector, s.type) for s in run.display_settings() if s.selector != "Documentation"]
    ctx.check(sorted(settings) == displays, "each display block is offered once", str(settings))
    extensions = {"text": ("txt", True), "binary": ("bin", False), "zip": ("zip", False)}
    exports_ = sorted((selector_of(workflow, b, kind), *extensions[kind]) for b, kind in blocks if kind in extensions)
    formats = [(f.selector, f.extension, f.text) for f in run._export_formats() if f.method_name == "export"]
    ctx.check(sorted(formats) == exports_, "each export block is offered once", str(formats))


def request(ctx, disk, workflow, run, block, kind, wanted, in_file):
    """ What a block shows. """
    selector = selector_of(workflow, block, kind)
    if kind in ("graph", "report"):
        got = run._display_from_selector(selector)
        ctx.check(got.traceback == "", "the display is made", got.traceback)
        if kind == "report":
            ctx.check(ctx.eq(meant(got.data), wanted), "the display of what the block is fed")
        else:
            place = workflow.pipes.index(workflow.variable_input_pipe(block.inputs[0]))
            ctx.check(ctx.eq(got.data["value"], wanted), "the display of what the block is fed")
            ctx.check(got.data["at"] == f"#/values/{place}" and got.reference_path == f"#/values/{place}", "at its place")
        return
    if in_file:
        path = run.save_export_to_file(selector, "out")
        ctx.check(path == "out." + {"text": "txt", "binary": "bin", "zip": "zip"}[kind], "at the path returned", path)
        text = disk.read(path)[1]
    else:
        stream = StringFile() if kind == "text" else BinaryFile()
        format_ = run.export_format_from_selector(selector)
        getattr(run, format_.method_name)(stream, **format_.args)
        text = content(stream)
        ctx.check(stream.filename == block.filename + "." + block.extension, "under the name of the block", stream.filename)
    if kind == "zip":
        found = entries(ctx, text)
        names = [next(b for b in workflow.blocks if v in b.outputs) for v in [workflow.variable_input_pipe(i).input_variable for i in block.inputs[:2]]]
        names = [b.filename + "." + b.extension for b in names]
        ctx.check([str(n) for n, _ in found] == names, "each export in the archive")
        ctx.check(ctx.all_([ctx.eq(meant(t), w) for (_, t), w in zip(found, wanted)]), "with what the blocks are fed")
    else:
        ctx.check(ctx.eq(meant(text), wanted), "the export of what the block is fed")


def archived(ctx, run, shows, archive):
    """ All the exports of a run. """
    stream = BinaryFile()
    run.to_zip_stream(stream)
    found = entries(ctx, content(stream))
    kept = [(b, w) for b, kind, w in shows if kind in ("text", "binary")]
    ctx.check(sorted(str(n) for n, _ in found) == sorted(b.filename + "." + b.extension for b, _ in kept), "each export of the blocks once")
    for block, wanted in kept:
        same = [t for n, t in found if str(n) == block.filename + "." + block.extension]
        ctx.check(len(same) == 1 and ctx.eq(meant(same[0]), wanted), "the export of what the block is fed")
