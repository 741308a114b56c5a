""" C25: in-memory files. """
import os
import tempfile

from symex import iomodels

iomodels.enable()

from dessia_common import files  # noqa: E402
from dessia_common.core import DessiaObject  # noqa: E402
from dessia_common.files import BinaryFile, CSVFile, DocxFile, StringFile, TextFile, XLSFile  # noqa: E402
from symex.ctx import harness  # noqa: E402

CLASSES = {"text": StringFile, "txt": TextFile, "csv": CSVFile, "binary": BinaryFile, "xls": XLSFile, "docx": DocxFile}
CHARACTERS = [(0, 127)]
NAMES = ["ab"]


def raw(file, text):
    """ What is written in that file for that text. """
    if isinstance(file, StringFile):
        return text
    return iomodels.SymBytes(text) if isinstance(file, iomodels.BytesIO) else text.encode("latin-1")


def content(file):
    """ As a text. """
    value = file.getvalue()
    return value if isinstance(value, str) else iomodels.text_of(value)


def build(ctx, name, kinds, most):
    """ (file, its content, position in it) """
    kind = ctx.choice(name + ".kind", kinds)
    file = CLASSES[kind](ctx.str(name + ".name", ctx.length(name + ".letters", 0, 2), NAMES))
    text = ctx.str(name + ".text", ctx.length(name + ".n", 0, most), CHARACTERS)
    file.write(raw(file, text))
    position = ctx.length(name + ".position", 0, len(text))
    file.seek(position)
    return file, text, position


def untouched(ctx, file, text, position, name):
    ctx.check(ctx.same(content(file), text), "the content is left alone")
    ctx.check(file.tell() == position, "the position is left alone")
    ctx.check(ctx.same(file.filename, name), "the name is left alone")


@harness("C25", bounds="6 classes of files, names of 0..2 letters, contents of 0..3 (quick) / 0..5 (thorough) characters below 128, "
                       "every position, followed by a change in either", shards=4)
def copies(ctx):
    """ A copy is whole, from its beginning, and independent. """
    file, text, position = build(ctx, "f", list(CLASSES), ctx.bound(3, 5))
    name = file.filename
    copied = file.copy()
    ctx.check(copied is not file, "another file")
    ctx.check(type(copied) is type(file), "of the same class")
    ctx.check(ctx.same(copied.filename, name), "the same name")
    ctx.check(copied.tell() == 0, "from its beginning")
    ctx.check(ctx.same(content(copied), text), "the same content")
    untouched(ctx, file, text, position, name)
    ctx.check(copied == file, "it compares equal")
    ctx.check(hash(copied) == hash(file), "it hashes alike")
    changed, other = (copied, file) if ctx.flag("copy changes") else (file, copied)
    changed.seek(0, 2)
    changed.write(raw(changed, "z"))
    changed.filename = "other"
    ctx.check(ctx.same(content(changed), text + "z"), "changes are made")
    ctx.check(ctx.same(content(other), text), "and seen on one side only")
    ctx.check(ctx.same(other.filename, name), "names too")


@harness("C25", bounds="pairs of files of 3 (quick) / 6 (thorough) classes, names of 0..2 letters, contents of 0..2 characters below 128, "
                       "every position", shards=8)
def equality(ctx):
    """ Equal exactly when names and contents are. """
    kinds = ctx.bound(["text", "csv", "binary"], list(CLASSES))
    file, text, position = build(ctx, "f", kinds, 2)
    other, text2, position2 = build(ctx, "g", kinds, 2)
    name, name2 = file.filename, other.filename
    same = isinstance(file, StringFile) == isinstance(other, StringFile) and len(text) == len(text2) and len(name) == len(name2)
    expected = ctx.all_([ctx.same(text, text2), ctx.same(name, name2)]) if same else False
    got = file == other
    ctx.check(got == expected, "equal exactly when contents and names are the same")
    ctx.check((other == file) == expected, "both ways")
    ctx.check((file != other) == ctx.not_(expected), "and different otherwise")
    if got:
        ctx.check(hash(file) == hash(other), "equal files hash alike")
    untouched(ctx, file, text, position, name)
    untouched(ctx, other, text2, position2, name2)


@harness("C25", bounds="files of 6 classes with contents of 0..1 character, against values that are not files")
def others(ctx):
    """ Different from anything else. """
    file, text, position = build(ctx, "f", list(CLASSES), 1)
    value = ctx.choice("value", [None, "", 3, [], b""])
    ctx.check(not file == value, "a file is not another value")
    untouched(ctx, file, text, position, file.filename)


class Holder(DessiaObject):
    """ An object with a file. """

    def __init__(self, file: StringFile = None, number: int = 0, name: str = ""):
        self.file = file
        self.number = number
        super().__init__(name=name)


@harness("C25", bounds="objects holding a file of 2 classes, contents of 0..2 characters, every position", shards=4)
def holders(ctx):
    """ Files follow the objects that hold them. """
    file, text, position = build(ctx, "f", ["csv", "binary"], 2)
    name = file.filename
    holder = Holder(file, 3)
    copied = holder.copy()
    ctx.check(type(copied.file) is type(file) and copied.file is not file, "a file of its own")
    ctx.check(ctx.same(content(copied.file), text), "the same content")
    ctx.check(copied.file.tell() == 0, "from its beginning")
    ctx.check(copied == holder, "the copies are equal")
    untouched(ctx, file, text, position, name)
    copied.file.seek(0)
    copied.file.write(raw(copied.file, "z"))
    untouched(ctx, file, text, position, name)
    changed = len(text) == 0
    if not changed:
        changed = text[0] != "z"
    ctx.check((copied == holder) == ctx.not_(changed), "equal as long as their files are")


class Given:
    """ A stream of bytes. """

    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data


@harness("C25", bounds="3 classes of text files, streams of 0..3 characters")
def streams(ctx):
    """ A file made of a stream has its content. """
    class_ = CLASSES[ctx.choice("class", ["text", "txt", "csv"])]
    text = ctx.str("text", ctx.length("n", 0, 3), CHARACTERS)
    file = class_.from_stream(Given(raw(BinaryFile(), text)))
    ctx.check(type(file) is class_, "of the class asked for")
    ctx.check(ctx.same(content(file), text), "the content of the stream")
    ctx.check(file.tell() == 0, "from its beginning")


CONTENTS = ["", "a", "first\nsecond\n", " spaced \t", "é€𝄞"]


@harness("C25", bounds="6 classes of files, 5 contents on the disk")
def from_disk(ctx):
    """ A file read on the disk has its content. """
    class_ = CLASSES[ctx.choice("class", list(CLASSES))]
    data = CONTENTS[ctx.choice("content", list(range(len(CONTENTS))))].encode()
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, "file")
        with open(path, "wb") as stream:
            stream.write(data)
        file = class_.from_file(path)
        ctx.check(type(file) is class_, "of the class asked for")
        ctx.check(file.filename == path, "with its path as name")
        ctx.check(file.tell() == 0, "from its beginning")
        expected = data.decode() if isinstance(file, StringFile) else data.decode("latin-1")
        value = file.getvalue()
        ctx.check((value if isinstance(value, str) else iomodels.text_of(value)) == expected, "with its content")
        with open(path, "rb") as stream:
            ctx.check(stream.read() == data, "the file on the disk is left alone")


@harness("C25", bounds="5 classes of files, names with or without the extension")
def templates(ctx):
    """ The template saved is the whole template of the class, under the extension of the class. """
    class_ = ctx.choice("class", [StringFile, TextFile, CSVFile, files.MarkdownFile, BinaryFile, XLSFile])
    name = ctx.choice("name", ["a", "b.dir.c"])
    if ctx.flag("extended"):
        name = f"{name}.{class_.extension}" if class_.extension else name
    with tempfile.TemporaryDirectory() as folder:
        class_.save_template_to_file(os.path.join(folder, name))
        expected = name if not class_.extension or name.endswith("." + class_.extension) else f"{name}.{class_.extension}"
        ctx.check(os.listdir(folder) == [expected], "under the right name", os.listdir(folder))
        with open(os.path.join(folder, expected), "rb") as stream:
            got = stream.read()
    template = class_.stream_template()
    ctx.check(type(template) is class_, "a template of the class")
    ctx.check(template.tell() == 0, "from its beginning")
    ctx.check(got.decode("latin-1") == content(template), "the whole template")
