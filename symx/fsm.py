"""Model of text files written by the code under test: symbolic text is kept, not
realized.  The file really exists (empty) so that os-level queries stay true."""
from __future__ import annotations

import builtins
import io
import os
import pathlib

from . import rt
from .core import Engine
from .values import SYM_TYPES, chars, is_sym, join, realize

FILES: dict = {}      # realpath -> text (possibly symbolic) of the current path


def _key(path):
    return os.path.realpath(os.fspath(path))


class SymFile:
    _sx_direct = True

    def __init__(self, path, mode, encoding, newline):
        self.name, self.mode, self.encoding, self.newline = path, mode, encoding, newline
        self.k = _key(path)
        if "x" in mode and os.path.exists(self.k):
            raise FileExistsError(path)
        real = builtins.open(path, "a")   # existence / permission / directory errors
        real.close()
        if "a" in mode:
            FILES[self.k] = read_text(self.k)
        else:
            FILES[self.k] = ""
        self.closed = False

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        enc = (self.encoding or "ascii").lower().replace("_", "-")
        if enc not in ("utf-8", "utf8"):
            for c in chars(s):
                if not (c < "\x80"):
                    if enc in ("ascii", "us-ascii"):
                        raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
                    s = s.replace(c, "\ufffd")
        if self.newline not in (None, "", "\n"):
            s = s.replace("\n", self.newline)
        FILES[self.k] = join("", [FILES[self.k], s])
        return len(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def read_text(path):
    k = _key(path)
    if k in FILES:
        return FILES[k]
    with builtins.open(path, encoding="utf-8", newline="") as f:
        return f.read()


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    e = Engine.CUR
    if e is not None and e.in_run and ("w" in mode or "a" in mode or "x" in mode) and "b" not in mode \
            and "+" not in mode and isinstance(file, (str, pathlib.Path)):
        return SymFile(realize(file), mode, encoding, newline)
    return builtins.open(realize(file), mode, buffering, encoding, errors, newline, *a, **k)


def _write_text(self, data, encoding=None, errors=None, newline=None):
    with _open(self, "w", -1, encoding, errors, newline) as f:
        return f.write(data)


def _path_open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    return _open(self, mode, buffering, encoding, errors, newline)


def install():
    rt.MODELS[builtins.open] = _open
    rt.MODELS[io.open] = _open
    rt.MODELS[pathlib.Path.write_text] = _write_text
    rt.MODELS[pathlib.Path.open] = _path_open


def reset():
    FILES.clear()
