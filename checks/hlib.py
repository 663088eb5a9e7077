"""Shared harness helpers.  This module runs instrumented (symbolic) and raw (replay)."""
import os
import sys
import tempfile

REPLAY = os.environ.get("SX_REPLAY") == "1"


# characters of all sorts: printable ASCII, blanks, controls, combining, wide, astral
WIDE = "".join(chr(i) for i in range(32, 127)) + "\t\n\x1f\x85\xa0\xe9\xdf\u0301\u2003\u2028\u65e5\U0001f600"
LINE = "".join(c for c in WIDE if len(("a" + c + "b").splitlines()) == 1)      # without line breaks


def new_card(**kw):
    from skops.card import Card
    return Card(None, template=None, **kw)


_dir = []


def scratch_dir():
    """One scratch directory per process, removed by the driver (it lives in TMPDIR)."""
    if not _dir or _dir[0] != os.getpid():
        _dir[:] = [os.getpid(), tempfile.mkdtemp(prefix="sxh_")]
    return _dir[1]


def reset_files():
    if not REPLAY:
        from symx import fsm
        fsm.reset()


def read_text(path):
    """Content of a file as text, decoded as UTF-8 without newline translation."""
    if not REPLAY:
        from symx import fsm
        return fsm.read_text(path)
    with open(path, "rb") as f:
        return f.read().decode("utf-8")


def json_text(value):
    """JSON text of a value; keeps symbolic leaves when executed symbolically."""
    import json
    if not REPLAY:
        from symx import jsonm
        return jsonm.text(value)
    return json.dumps(value)
