"""Observation of name resolution, in the symbolic run (models) and in the replay of the
unmodified code (wrapped importlib.import_module and getattr, audit hook).

Events are reported to a callback at the moment they happen, before the effect; the
callback decides (symbolically or concretely) whether the event is allowed."""
import builtins
import importlib
import os
import sys
import types

REPLAY = os.environ.get("SX_REPLAY") == "1"
_orig_import = importlib.import_module
_orig_getattr = builtins.getattr


class Obs:
    _sx_direct = True

    def __init__(self):
        self.cb = None
        self.watch = set()        # (module, attr) pairs / attr strings archives name
        self.wmods = set()
        self.files = ()
        self.calls = {}
        self.all_mods = False
        self.opened = []
        self.on = False
        self.pending = None

    def watch_call(self, f, names):
        """Report calls of f (from skops code) under the given names."""
        self.calls[id(f)] = (f, tuple(names))

    def called(self, f):
        if self.on:
            self.emit("call", self.calls[id(f)][1])

    def start(self, cb):
        self.cb = cb
        self.opened = []
        self.pending = None
        self.on = True

    def stop(self):
        self.on = False
        self.cb = None

    def emit(self, *ev):
        if not self.on or self.cb is None:
            return
        cb = self.cb
        self.on = False
        try:
            cb(*ev)
        except Exception:
            raise
        except BaseException as exc:
            self.pending = exc
            raise
        finally:
            self.on = True

    def finish(self):
        """Re-raise a verdict that the code under test swallowed."""
        self.stop()
        if self.pending is not None:
            raise self.pending


OBS = Obs()


def _caller_is_skops(depth=2):
    return sys._getframe(depth).f_globals.get("__name__", "").startswith("skops")


# ------------------------------------------------------------------ replay side
def _rep_import(name, package=None):
    if OBS.on and isinstance(name, str) and (OBS.all_mods or name in OBS.wmods) and _caller_is_skops():
        OBS.emit("import", name)
    return _orig_import(name, package)


def _rep_getattr(o, name, *d):
    if OBS.on and isinstance(name, str) and _caller_is_skops():
        if isinstance(o, types.ModuleType):
            if (o.__name__, name) in OBS.watch:
                OBS.emit("resolve", o.__name__, name)
        elif name in OBS.watch:
            OBS.emit("attr", o, name)
    return _orig_getattr(o, name, *d)


_BAD = ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod",
        "os.system", "os.exec", "os.posix_spawn", "os.fork", "subprocess.Popen", "socket.connect", "socket.bind",
        "shutil.copyfile", "shutil.move", "shutil.rmtree", "tempfile.mkstemp", "tempfile.mkdtemp",
        "ctypes.dlopen", "urllib.Request", "os.chdir", "os.putenv", "os.unsetenv")


def _audit(event, args):
    if not OBS.on:
        return
    if event == "open":
        if args and isinstance(args[0], (str, bytes)):
            p = args[0] if isinstance(args[0], str) else args[0].decode("utf-8", "replace")
            mode, flags = args[1], args[2]
            w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or \
                (mode is None and isinstance(flags, int) and flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR))
            if w and "__pycache__" not in p:
                OBS.opened.append("write " + p)
            for f in OBS.files:
                if f in p:
                    OBS.opened.append("read " + p)
    elif event in _BAD:
        OBS.opened.append(event)


def _monitor():
    mon = sys.monitoring
    mon.use_tool_id(4, "sx")

    def cb(code, off, f, arg0):
        if OBS.on and id(f) in OBS.calls and "/skops/io/" in code.co_filename:
            OBS.called(f)

    mon.register_callback(4, mon.events.CALL, cb)
    mon.set_events(4, mon.events.CALL)


def install():
    sys.addaudithook(_audit)
    if REPLAY:
        _monitor()
        importlib.import_module = _rep_import
        builtins.getattr = _rep_getattr
        return
    from symx import rt
    for k in OBS.calls:
        rt.CALL_WATCH[k] = OBS.called
    from symx.values import SYM_TYPES, realize

    class StubModule:
        """importlib.import_module of a name not decided yet"""
        _sx_direct = True

        def __init__(self, m):
            object.__setattr__(self, "_m", m)

        def __getattr__(self, n):
            return _orig_getattr(_orig_import(realize(self._m)), n)

    def imp(name, package=None):
        if type(name) in SYM_TYPES:
            OBS.emit("import", name)
            return StubModule(name)
        if name in OBS.wmods:
            OBS.emit("import", name)
        return _orig_import(name, package=package)

    def ga(o, name, default):
        if type(o) is StubModule:
            OBS.emit("resolve", o._m, name)
            return (True, _orig_getattr(_orig_import(realize(o._m)), realize(name), *default))
        if type(name) in SYM_TYPES:
            if isinstance(o, types.ModuleType):
                OBS.emit("resolve", o.__name__, name)
            else:
                OBS.emit("attr", o, name)
            return None
        if isinstance(o, types.ModuleType):
            if (o.__name__, name) in OBS.watch:
                OBS.emit("resolve", o.__name__, name)
        elif type(name) is str and name in OBS.watch:
            OBS.emit("attr", o, name)
        return None

    rt.MODELS[importlib.import_module] = imp
    rt.GETATTR_HOOK.append(ga)
    from symx import jsonm
    jsonm.install()
    jsonm.install_zip()


install._sx_direct = True
