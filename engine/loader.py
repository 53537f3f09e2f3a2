"""Loads the package under test from /repo's working tree, unchanged, with the libraries
it imports replaced by the given modules and a few builtins made symbolic-aware."""
import builtins
import importlib
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "templatefitter"

_code = {}
executed = set()
_mon = False


def _compile(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = _code[path] = compile(src, path, "exec", dont_inherit=True)
    return c


def start_monitor():
    """records which functions of the package were executed"""
    global _mon
    if _mon:
        return
    m = sys.monitoring
    tid = 3
    try:
        m.use_tool_id(tid, "verif")
    except ValueError:
        return
    _mon = True
    root = os.path.join(REPO, PKG)

    def cb(code, off):
        if code.co_filename.startswith(root) and not code.co_name.startswith("<"):
            executed.add(os.path.relpath(code.co_filename, REPO) + "::" + code.co_qualname)
        return m.DISABLE
    m.register_callback(tid, m.events.PY_START, cb)
    m.set_events(tid, m.events.PY_START)


class Loader:
    def __init__(self, mods, shim_builtins=None):
        self.mods = mods
        self.loaded = {}
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["print"] = lambda *a, **k: None
        b.update(shim_builtins or {})
        self.b = b

    def reset(self):
        self.loaded = {}
        for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
            del sys.modules[k]

    def load(self, name):
        m = self.loaded.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            m = self.loaded.get(name)
            if m is not None:
                return m
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            path, pkg = os.path.join(p, "__init__.py"), True
        elif os.path.exists(p + ".py"):
            path, pkg = p + ".py", False
        else:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [p]
        m.__dict__["__builtins__"] = self.b
        self.loaded[name] = m
        sys.modules[name] = m
        try:
            exec(_compile(path), m.__dict__)
        except BaseException:
            self.loaded.pop(name, None)
            sys.modules.pop(name, None)
            raise
        if "." in name:
            setattr(self.loaded[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"]
            for _ in range(level - 1):
                pk = pk.rpartition(".")[0]
            name = pk + ("." + name if name else "")
        top = name.split(".")[0]
        if top == PKG:
            m = self.load(name)
            if not fromlist:
                return self.loaded[top]
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if top in self.mods:
            if name in self.mods:
                m = self.mods[name]
            else:
                m = self.mods[top]
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            if fromlist:
                return m
            return self.mods[top]
        return importlib.__import__(name, globals, locals, fromlist, 0)
