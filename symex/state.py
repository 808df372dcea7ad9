"""The state a package keeps between calls: module globals, class attributes,
default arguments, closure cells, function attributes and memo tables.

A path of the symbolic execution has to start from the state a fresh process
has.  Normally the code under test keeps none, and nothing is done; when a job
gives contradictory answers, the state is put back before each path."""
import collections
import importlib
import pkgutil
import sys
import types

CONT = (list, dict, set, collections.deque, bytearray)
SKIP = (types.ModuleType, types.BuiltinFunctionType, str, int, float, bool, bytes, type(None), tuple, frozenset)


class Snapshot:
    def __init__(self, package="pybgl"):
        self.package = package
        try:
            for m in pkgutil.iter_modules(importlib.import_module(package).__path__):
                importlib.import_module(f"{package}.{m.name}")
        except Exception:           # the harnesses that need it will tell
            pass
        self.seen = {}
        self.objs = []          # (restorer)
        self.caches = []
        for name in sorted(sys.modules):
            if name == package or name.startswith(package + "."):
                m = sys.modules[name]
                if isinstance(m, types.ModuleType):
                    self._attrs(m)

    def _mine(self, o):
        return str(getattr(o, "__module__", "") or "").split(".")[0] == self.package

    def _attrs(self, o):
        """module or class: remember the plain attributes, walk into the others"""
        if id(o) in self.seen:
            return
        self.seen[id(o)] = o
        saved = {}
        for k, v in list(vars(o).items()):
            if k.startswith("__") and k.endswith("__") and not isinstance(v, types.FunctionType):
                continue
            saved[k] = v
            self._walk(v)
        self.objs.append(("attrs", o, saved))

    def _walk(self, v):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self._walk(f)
            return
        if isinstance(v, tuple):
            for x in v:
                self._walk(x)
            return
        if isinstance(v, SKIP) or id(v) in self.seen:
            return
        if hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
            self.seen[id(v)] = v
            self.caches.append(v)
            return
        if isinstance(v, types.FunctionType):
            self.seen[id(v)] = v
            if not self._mine(v):
                return
            for x in (v.__defaults__ or ()):
                self._walk(x)
            for x in (v.__kwdefaults__ or {}).values():
                self._walk(x)
            for c in v.__closure__ or ():
                try:
                    self._walk(c.cell_contents)
                    self.objs.append(("cell", c, c.cell_contents))
                except ValueError:
                    pass
            if v.__dict__:
                self._walk(v.__dict__)
            else:
                self.objs.append(("cont", v.__dict__, {}))
            return
        if isinstance(v, type):
            if self._mine(v):
                self._attrs(v)
            return
        if isinstance(v, CONT):
            self.seen[id(v)] = v
            self.objs.append(("cont", v, v.copy()))
            for x in (v.values() if isinstance(v, dict) else v):
                self._walk(x)
            return
        if self._mine(type(v)) and hasattr(v, "__dict__"):
            self.seen[id(v)] = v
            self._walk(v.__dict__)

    def clear_caches(self):
        for c in self.caches:
            try:
                c.cache_clear()
            except Exception:
                pass

    def restore(self):
        self.clear_caches()
        for kind, o, saved in self.objs:
            if kind == "attrs":
                now = vars(o)
                for k in [k for k in now if k not in saved]:
                    if k.startswith("__") and k.endswith("__") or isinstance(now[k], (types.ModuleType, type, types.FunctionType)):
                        continue
                    try:
                        delattr(o, k)
                    except Exception:
                        pass
                for k, v in saved.items():
                    if now.get(k) is not v:
                        try:
                            setattr(o, k, v)
                        except Exception:
                            pass
            elif kind == "cell":
                if o.cell_contents is not saved:
                    o.cell_contents = saved
            elif isinstance(o, dict):
                dict.clear(o)
                dict.update(o, saved)
            elif isinstance(o, set):
                o.clear()
                o.update(saved)
            elif isinstance(o, collections.deque):
                o.clear()
                o.extend(saved)
            else:
                o[:] = saved
