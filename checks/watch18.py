"""Destinations of dumps and what may not happen to them (uninstrumented)."""
import io
import os
import shutil
import tempfile


class OnlyWrite:
    def __init__(self):
        self.calls = 0

    def write(self, b):
        self.calls += 1
        return len(b)


class Destination:
    _sx_direct = True

    def __init__(self, kind, as_path, scratch):
        self.dir = tempfile.mkdtemp(prefix="c18_", dir=scratch)
        self.kind = kind
        p = os.path.join(self.dir, "model.skops")
        self.path = os.path.join(self.dir, "no", "model.skops") if kind == "missing-dir" else p
        self.file = None
        old = {"existing": b"old content", "empty": b"", "long": b"x" * 300000, "readonly": b"old", "append": b"old"}.get(kind)
        if kind == "symlink":
            with open(os.path.join(self.dir, "real"), "wb") as f:
                f.write(b"old")
            os.symlink("real", p)
        elif old is not None:
            with open(p, "wb") as f:
                f.write(old)
            if kind == "readonly":
                os.chmod(p, 0o444)
        if kind in ("BytesIO", "BytesIO-mid"):
            self.file = io.BytesIO(b"12345" if kind == "BytesIO-mid" else b"")
            if kind == "BytesIO-mid":
                self.file.seek(2)
        elif kind in ("file", "raw", "append"):
            self.file = open(p, "ab" if kind == "append" else "wb", buffering=0 if kind == "raw" else -1)
        elif kind == "only-write":
            self.file = OnlyWrite()
        self.target = self.file if self.file is not None else as_path(self.path)
        self.before = self.snapshot()

    def snapshot(self):
        out = {}
        for root, dirs, files in os.walk(self.dir):
            for n in dirs:
                out[os.path.join(root, n)] = "dir"
            for n in files:
                q = os.path.join(root, n)
                st = os.lstat(q)
                with open(q, "rb") as f:
                    out[q] = (f.read(), st.st_mode, st.st_ino, st.st_mtime_ns)
        f = self.file
        if f is not None:
            if isinstance(f, OnlyWrite):
                out["file"] = f.calls
            elif f.closed:
                out["file"] = "closed"
            else:
                if not isinstance(f, io.BytesIO):
                    f.flush()
                out["file"] = (f.tell(), f.getvalue() if isinstance(f, io.BytesIO) else None)
        return out

    def changed(self):
        a, b = self.before, self.snapshot()
        if a == b:
            # a buffer that was not flushed yet counts as well
            return ""
        if a.get("file") != b.get("file"):
            return "the file object was written to or closed"
        if set(a) != set(b):
            return "there are other files than before"
        if [v[0] for v in a.values() if isinstance(v, tuple)] != [v[0] for v in b.values() if isinstance(v, tuple)]:
            return "the bytes of the file changed"
        return ""

    def close(self):
        if self.file is not None and hasattr(self.file, "close"):
            self.file.close()
        for root, dirs, files in os.walk(self.dir):
            for n in files:
                os.unlink(os.path.join(root, n))
        for root, dirs, files in os.walk(self.dir, topdown=False):
            os.rmdir(root)
