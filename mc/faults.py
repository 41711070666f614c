"""Faults in the routines that the library calls: the k-th call out of the library raises instead of running."""
import dis
import gc
import sys
import types

from mc.core import REPO

ROOT = REPO.rstrip("/") + "/graphicle/"
TOOL = 4
MON = sys.monitoring
OPS = {"BINARY_OP", "BINARY_SUBSCR", "BINARY_SLICE", "COMPARE_OP", "UNARY_NEGATIVE", "UNARY_INVERT"}
# calls that only look at or restore something: nothing in them can run out of memory
SAFE = {"__exit__", "set_num_threads", "get_num_threads", "seterr", "geterr", "isinstance", "issubclass", "len", "delattr", "getattr", "hasattr",
        "setattr", "super", "type", "next", "__setattr__", "__delattr__", "cast", "warn", "append", "pop", "popitem", "clear", "update", "setrecursionlimit",
        "set_state", "setstate", "set_printoptions", "simplefilter", "resetwarnings", "release", "remove", "discard", "throw", "close", "id", "hash", "locals", "globals"}


# builtin functions fail only where they drive an iterator, whose steps may call anything
DRIVEN = (str, bytes, tuple, list, dict, set, frozenset, int, float, complex, bool, type(None), types.MappingProxyType, range, slice, type({}.keys()), type({}.values()), type({}.items()))
PLAIN_MODULES = {"builtins", "operator", "_operator", "itertools", "functools", "collections", "_collections", "abc", "_abc", "typing", "types", "enum", "contextlib", "copy"}
PLAIN_METHODS = (types.BuiltinMethodType, type(str.join), types.MethodWrapperType, type(object.__init__))


def harmless(func, arg):
    """Is this a step of the language itself, rather than a call of another library?"""
    if isinstance(func, types.MethodType):
        func = func.__func__
    owner = getattr(func, "__self__", None)
    if isinstance(func, PLAIN_METHODS) and owner is not None and not isinstance(owner, types.ModuleType):
        return isinstance(owner, DRIVEN) and type(arg) in DRIVEN + (MON.MISSING.__class__,) or isinstance(owner, (dict, str))
    if isinstance(func, type(str.join)):
        return issubclass(func.__objclass__, DRIVEN[:-1])
    if getattr(func, "__module__", None) in PLAIN_MODULES and isinstance(func, (type, types.BuiltinFunctionType, types.FunctionType)):
        if isinstance(func, type) and func.__module__ not in ("builtins", "collections"):
            return True  # making an iterator, a getter, a partial...
        if func in (map, filter, zip, enumerate, iter, reversed, range, property, object, vars, callable, id, repr, format, print, staticmethod, classmethod):
            return True
        return arg is MON.MISSING or type(arg) in DRIVEN
    return False


class Fault(MemoryError):
    pass


class Injector:
    def __init__(self):
        self.count = 0
        self.at = None
        self.sites = []
        self.fired = None
        self.on = False
        self.ops = {}
        MON.use_tool_id(TOOL, "faults")
        MON.register_callback(TOOL, MON.events.CALL, self.call)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, self.instruction)
        self.seen = set()
        self.watch()

    def watch(self):
        """Every code object of the library, with what attrs generated for it."""
        todo = [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType]
        while todo:
            code = todo.pop()
            if code in self.seen or not code.co_filename.startswith((ROOT, "<attrs generated")):
                continue
            if code.co_filename.startswith("<attrs") and "graphicle" not in code.co_filename:
                continue
            self.seen.add(code)
            todo += [c for c in code.co_consts if isinstance(c, types.CodeType)]
            self.ops[code] = {i.offset for i in dis.get_instructions(code) if i.opname in OPS}
            MON.set_local_events(TOOL, code, MON.events.CALL | (MON.events.INSTRUCTION if self.ops[code] else 0))

    def call(self, code, offset, func, arg):
        if self.on:
            name = getattr(func, "__name__", "")
            if name in SAFE or isinstance(func, types.FunctionType) and func.__code__ in self.seen or harmless(func, arg):
                return
            self.point(code, offset)

    def instruction(self, code, offset):
        if self.on and offset in self.ops[code]:
            self.point(code, offset)

    def point(self, code, offset):
        k = self.count
        self.count += 1
        if self.at is None:
            self.sites.append((code, offset))
        elif k == self.at:
            self.fired = code.co_qualname, offset
            self.on = False
            raise Fault(f"in {code.co_qualname}")

    def run(self, job, at=None):
        """(kind, result) of ``job`` with a fault at the ``at``-th point; without, the points are listed in ``sites``."""
        self.count, self.at, self.fired, self.on = 0, at, None, True
        if at is None:
            self.sites = []
        try:
            return "answer", job()
        except Fault as e:
            return "fault", e
        except Exception as e:
            return "error", e
        finally:
            self.on = False


_ONE = []


def injector():
    if not _ONE:
        _ONE.append(Injector())
    return _ONE[0]


def points(sites, bound):
    """Of every place in the code, its first ``bound`` visits and the last one."""
    seen, last = {}, {}
    for k, s in enumerate(sites):
        seen.setdefault(s, []).append(k)
    return sorted({k for ks in seen.values() for k in ks[:bound] + ks[-1:]})
