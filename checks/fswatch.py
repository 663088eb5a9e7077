"""Watches the file operations of a call: what is on disk between any two of them, and
faults, signals and process deaths at one of them (uninstrumented)."""
import errno
import os
import resource
import shutil
import sys
import tempfile

CUR = None
MUTATING = {"os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.utime",
            "shutil.move", "shutil.copyfile", "shutil.copymode", "shutil.copystat", "shutil.copytree", "shutil.rmtree"}
REMOVING = {"os.remove", "os.rmdir", "shutil.rmtree"}


def _hook(event, args):
    w = CUR
    if w is not None and (event == "open" or event in MUTATING):
        w.event(event, args)


_installed = []


def install():
    if _installed:
        return
    _installed.append(1)
    sys.addaudithook(_hook)
    for n in ("rename", "replace", "link"):
        setattr(os, n, _mount_aware(n, getattr(os, n)))


def _mount_aware(n, real):
    def f(src, dst, *a, **k):
        w = CUR
        if w is not None and w.two_mounts and not a and not k and w.mount(src) != w.mount(dst):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), os.fspath(src), None, os.fspath(dst))
        return real(src, dst, *a, **k)
    f.__name__ = n
    f._sx_direct = True
    return f


def _path(p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if isinstance(p, int) or not isinstance(p, (str, os.PathLike)):
        return None
    return os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(p)))), os.path.basename(os.fspath(p)))


def content(p):
    """Bytes of a file; None: there is none; the entries of a directory."""
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None
    except IsADirectoryError:
        return sorted(os.listdir(p))


class Died(BaseException):
    pass


class World:
    """A scratch directory with the subdirectories work (the working directory), other, tmp."""

    _sx_direct = True

    def __init__(self, scratch):
        install()
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="fsw_", dir=scratch))
        for d in ("work", "work/sub", "work/sub/deep", "other", "tmp"):
            os.mkdir(os.path.join(self.root, d))
        self.two_mounts = False
        self.watched = None
        self.seen = []
        self.n = 0
        self.fault = None
        self.old = (os.getcwd(), tempfile.tempdir, os.environ.get("TMPDIR"))

    def p(self, *names):
        return os.path.join(self.root, *names)

    def write(self, name, data):
        with open(self.p(name), "wb") as f:
            f.write(data)

    def mount(self, p):
        return os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(p)))).startswith(self.p("tmp"))

    def snapshot(self):
        out = {}
        for root, dirs, files in os.walk(self.root):
            for n in dirs:
                out[os.path.relpath(os.path.join(root, n), self.root)] = "dir"
            for n in files:
                q = os.path.join(root, n)
                out[os.path.relpath(q, self.root)] = ("link", os.readlink(q)) if os.path.islink(q) else content(q)
        return out

    # ---- events
    def look(self):
        c = content(self.watched) if self.watched is not None else None
        if not self.seen or self.seen[-1] != c:
            self.seen.append(c)

    def event(self, event, args):
        global CUR
        p = _path(args[0])
        q = _path(args[1]) if event in ("os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile") else None
        if not any(x is not None and (x + "/").startswith(self.root + "/") for x in (p, q)):
            return
        CUR = None
        try:
            self.look()
            write = False
            if event == "open":
                mode, flags = args[1], args[2]
                write = bool(flags & (os.O_WRONLY | os.O_RDWR))
                dest = p if not os.path.islink(p) else os.path.realpath(p)
                if write and self.watched is not None and dest == os.path.realpath(self.watched):
                    exists = os.path.exists(dest)
                    if flags & os.O_TRUNC or (flags & os.O_CREAT and not exists):
                        self.seen.append(b"")          # what is there right after
                if not write:
                    return
            k = self.n
            self.n += 1
            f = self.fault
            if f is not None and k == f[1]:
                if f[0] == "die":
                    os._exit(77)
                if event not in REMOVING:
                    self.fault = None
                    if f[0] == "interrupt":
                        raise KeyboardInterrupt
                    raise OSError(f[2], os.strerror(f[2]), os.fspath(args[0]))
        finally:
            CUR = self

    def run(self, f, watched=None, two_mounts=False, fault=None, limit=None):
        """Calls f in this world; returns the exception or None."""
        global CUR
        self.watched, self.two_mounts, self.fault = watched, two_mounts, fault
        self.seen, self.n = [], 0
        self.look()
        os.chdir(self.p("work"))
        tempfile.tempdir = self.p("tmp")
        os.environ["TMPDIR"] = self.p("tmp")
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, lim[1]))
        CUR = self
        exc = None
        try:
            f()
        except BaseException as e:
            if type(e).__module__.startswith("symx"):
                raise
            exc = e
        finally:
            CUR = None
            resource.setrlimit(resource.RLIMIT_FSIZE, lim)
            os.chdir(self.old[0])
            tempfile.tempdir = self.old[1]
            if self.old[2] is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = self.old[2]
        self.look()
        return exc

    def dies(self, f, at, two_mounts=False):
        """Runs f in a child process that is ended right before its at-th file operation;
        True if it was ended."""
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.closerange(0, 3)
                self.run(f, None, two_mounts, ("die", at))
            finally:
                os._exit(0)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 77

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


World.__init__._sx_direct = True
