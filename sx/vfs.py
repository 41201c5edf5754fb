"""In-memory file system used while the code under test runs symbolically."""
import codecs
import io
import os
from . import core
from .core import Unsupported
from .symstr import SymStr, mk, cells_of, isstr


def recode(cells, encode, decode, errors):
    """characters outside ASCII, written in one encoding and read in another"""
    if encode == decode or all(not isinstance(c, str) or c < "\x80" for c in cells):
        return cells
    out = []
    for c in cells:
        if isinstance(c, str) and c >= "\x80":
            out.extend(c.encode(encode, errors or "strict").decode(decode, errors or "strict"))
        else:
            out.append(c)
    return out


def newlines(cells):
    """universal newlines: CR LF and CR are line ends"""
    if "\r" not in [c for c in cells if isinstance(c, str)]:
        return cells
    out = []
    for i, c in enumerate(cells):
        if isinstance(c, str) and c == "\r":
            if i + 1 < len(cells) and isinstance(cells[i + 1], str) and cells[i + 1] == "\n":
                continue
            c = "\n"
        out.append(c)
    return out


def codec(name):
    return "utf-8" if name in (None, "locale") else codecs.lookup(name).name


class SymTextFile:
    """Text file / StringIO over symbolic text."""

    def __init__(self, text="", mode="r", sink=None, name=None):
        self.cells = list(cells_of(text))
        self.pos = 0
        self.closed = False
        self.mode = mode
        self.sink = sink
        self.name = name
        self.dirty = False

    def _publish(self):
        """buffered output becomes visible to other handles"""
        if self.dirty and self.sink is not None:
            self.sink(self.cells)
            self.dirty = False

    def __del__(self):
        try:
            if not self.closed:
                self._publish()
        except Exception:
            pass

    def _chk(self, write=False):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if write and not self.writable():
            raise io.UnsupportedOperation("not writable")
        if not write and not self.readable():
            raise io.UnsupportedOperation("not readable")

    def readable(self):
        return self.sink is None or "r" in self.mode or "+" in self.mode

    def writable(self):
        return self.sink is None and self.name is None or \
            any(c in self.mode for c in "wax+")

    def seekable(self):
        return True

    def write(self, s):
        self._chk(True)
        if not isstr(s):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        cs = cells_of(s)
        if self.pos == len(self.cells):
            self.cells.extend(cs)
        else:
            self.cells[self.pos:self.pos + len(cs)] = cs
        self.pos += len(cs)
        self.dirty = True
        return len(cs)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def _next_line(self):
        i = self.pos
        n = len(self.cells)
        while i < n:
            if self.cells[i] == "\n":
                i += 1
                break
            i += 1
        r = mk(self.cells[self.pos:i])
        self.pos = i
        return r

    def readline(self, *a):
        self._chk()
        return self._next_line()

    def readlines(self, *a):
        self._chk()
        out = []
        while self.pos < len(self.cells):
            out.append(self._next_line())
        return out

    def read(self, n=-1):
        self._chk()
        if n is None or n < 0:
            r = mk(self.cells[self.pos:])
            self.pos = len(self.cells)
        else:
            r = mk(self.cells[self.pos:self.pos + n])
            self.pos = min(len(self.cells), self.pos + n)
        return r

    def getvalue(self):
        return mk(self.cells)

    def seek(self, p, whence=0):
        if whence == 2:
            p = len(self.cells) + p
        elif whence == 1:
            p = self.pos + p
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.cells[size:]
        self.dirty = True
        return size

    def flush(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self._publish()

    def close(self):
        if not self.closed:
            self._publish()
        self.closed = True

    def __iter__(self):
        return self

    def __next__(self):
        self._chk()
        if self.pos >= len(self.cells):
            raise StopIteration
        return self._next_line()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class VFS:
    def __init__(self):
        self.files = {}

    def norm(self, p):
        if isinstance(p, SymStr):
            # a symbolic file name: identify it with an existing one
            for k in list(self.files):
                if isstr(k) and p == k:
                    return k
            return p
        p = os.fspath(p)
        return os.path.normpath(p)

    def lookup(self, p):
        p = self.norm(p)
        for k in self.files:
            if k is p or (isinstance(k, str) and isinstance(p, str) and k == p):
                return k
            if isinstance(k, SymStr) and k == p:
                return k
        return None

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if "b" in mode or opener is not None:
            raise Unsupported("binary files")
        enc = codec(encoding)
        key = self.lookup(path)
        if "w" in mode or "x" in mode:
            if "x" in mode and key is not None:
                raise FileExistsError(path)
            key = key if key is not None else self.norm(path)
            self.files[key] = []
        elif "a" in mode:
            if key is None:
                key = self.norm(path)
                self.files[key] = []
        else:
            if key is None:
                if isinstance(path, str) and path.startswith("/") and \
                        os.path.isfile(path) and "w" not in mode:
                    return open(path, mode, encoding=encoding, errors=errors, newline=newline)      # package data
                raise FileNotFoundError(2, "No such file or directory", path)
        files = self.files

        def sink(cells, key=key):
            cells = recode(list(cells), enc, "utf-8", errors)
            if newline not in (None, "", "\n"):
                cells = [x for c in cells for x in (newline if isinstance(c, str) and c == "\n" else [c])]
            files[key] = list(cells)
        text = recode(files[key], "utf-8", enc, errors)
        f = SymTextFile(mk(newlines(text) if newline is None else text), mode, sink, name=key)
        if "a" in mode:
            f.pos = len(f.cells)
        return f

    def exists(self, p):
        return self.lookup(p) is not None

    def remove(self, p):
        k = self.lookup(p)
        if k is None:
            raise FileNotFoundError(p)
        del self.files[k]

    def text(self, p):
        k = self.lookup(p)
        if k is None:
            raise FileNotFoundError(2, "No such file or directory", p)
        return mk(self.files[k])

    def put(self, p, text):
        self.files[self.norm(p)] = list(cells_of(text))
