""" Models of io.StringIO and io.BytesIO in plain Python: they hold symbolic texts, as the originals (in C) cannot.

A harness asks for them with `enable()`, before dessia_common is imported; they are the bases of the classes of
dessia_common.files then. Replays run on the real classes.
"""
import contextlib
import io
import sys

MODULES = {}  # {module: context in which it is executed}


def text_of(data):
    if isinstance(data, SymBytes):
        return data.text
    return bytes(data).decode("latin-1")


class SymBytes:
    """ Bytes of unknown values below 128; also what getbuffer() gives. """
    __class__ = property(lambda self: bytes)

    def __init__(self, text):
        self.text = text

    def _other(self, other):
        if type(other) is SymBytes:
            return other.text
        if isinstance(other, (bytes, bytearray, memoryview)):
            return bytes(other).decode("latin-1")
        return None

    def __eq__(self, other):
        text = self._other(other)
        return NotImplemented if text is None else self.text == text

    def __ne__(self, other):
        text = self._other(other)
        return NotImplemented if text is None else self.text != text

    def __hash__(self):
        return hash(str(self.text).encode())

    def __len__(self):
        return len(self.text)

    nbytes = property(__len__)

    def __bool__(self):
        return len(self.text) > 0

    def __getitem__(self, i):
        return SymBytes(self.text[i]) if isinstance(i, slice) else ord(self.text[i])

    def __add__(self, other):
        return SymBytes(self.text + text_of(other))

    def __radd__(self, other):
        return SymBytes(text_of(other) + self.text)

    def decode(self, encoding="utf-8", errors="strict"):
        return self.text

    def tobytes(self):
        return self

    def release(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None


class Stream:
    """ A text and a position in it. """
    empty = ""

    def __init__(self, initial=None, newline="\n"):
        self._sx_data = "" if initial is None else self._sx_in(initial)
        self._sx_pos = 0
        self._sx_closed = False

    def _sx_open(self):
        if self._sx_closed:
            raise ValueError("I/O operation on closed file.")

    @property
    def closed(self):
        return self._sx_closed

    def close(self):
        self._sx_closed = True

    def flush(self):
        self._sx_open()

    def readable(self):
        return True

    writable = seekable = readable

    def write(self, data):
        self._sx_open()
        text = self._sx_in(data)
        n = len(text)
        if n:
            before = self._sx_data[:self._sx_pos]
            if len(before) < self._sx_pos:
                before = before + "\0" * (self._sx_pos - len(before))
            self._sx_data = before + text + self._sx_data[self._sx_pos + n:]
            self._sx_pos += n
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def read(self, size=-1):
        self._sx_open()
        end = len(self._sx_data) if size is None or size < 0 else self._sx_pos + size
        res = self._sx_data[self._sx_pos:end]
        self._sx_pos += len(res)
        return self._sx_out(res)

    def readline(self, size=-1):
        self._sx_open()
        start = end = self._sx_pos
        while end < len(self._sx_data):
            end += 1
            if self._sx_data[end - 1] == "\n":
                break
        self._sx_pos = max(start, end)
        return self._sx_out(self._sx_data[start:end])

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not len(line):
            raise StopIteration
        return line

    def readlines(self, hint=-1):
        return list(self)

    def getvalue(self):
        self._sx_open()
        return self._sx_out(self._sx_data)

    def tell(self):
        self._sx_open()
        return self._sx_pos

    def seek(self, position, whence=0):
        self._sx_open()
        self._sx_pos = position + (len(self._sx_data) if whence == 2 else self._sx_pos if whence == 1 else 0)
        return self._sx_pos

    def truncate(self, size=None):
        self._sx_open()
        size = self._sx_pos if size is None else size
        self._sx_data = self._sx_data[:size]
        return size

    def __enter__(self):
        self._sx_open()
        return self

    def __exit__(self, *args):
        self.close()


class StringIO(Stream):
    """ io.StringIO """

    def _sx_in(self, data):
        if not isinstance(data, str):
            raise TypeError(f"string argument expected, got '{type(data).__name__}'")
        return data

    def _sx_out(self, text):
        return text


class BytesIO(Stream):
    """ io.BytesIO """

    def _sx_in(self, data):
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        return text_of(data)

    def _sx_out(self, text):
        return text.encode("latin-1") if type(text) is str else SymBytes(text)

    def getbuffer(self):
        return self._sx_out(self._sx_data)

    read1 = Stream.read


@contextlib.contextmanager
def models():
    saved = io.StringIO, io.BytesIO
    io.StringIO, io.BytesIO = StringIO, BytesIO
    try:
        yield
    finally:
        io.StringIO, io.BytesIO = saved


def enable():
    """ From now on, dessia_common.files is built on the models. """
    import openpyxl  # with the real ones
    MODULES["dessia_common.files"] = models
    values = sys.modules.get("symex.values")
    if values is None:  # a replay
        return openpyxl

    def encode(self, encoding="utf-8", errors="strict"):
        for i in range(len(self)):
            if not self[i] < "\x80":
                return self._sx_realise("encode").encode(encoding, errors)
        return SymBytes(self)
    values.SymStr.encode = encode
    return openpyxl
