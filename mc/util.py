"""Helpers shared by the checks; only public graphicle interfaces are used."""
import contextlib
import io
import itertools as it
import math
import os
import warnings

import numpy as np

with contextlib.redirect_stdout(io.StringIO()):
    import graphicle as gcl

from mc.core import Violation, fail, require  # noqa: F401

warnings.simplefilter("ignore")

M, G = gcl.MaskArray, gcl.MaskGroup
THOROUGH = "thorough"


def bits(n):
    """All boolean tuples of length n."""
    return it.product((False, True), repeat=n)


def cols(obj):
    """Plain 2D (or 1D) numpy copy of the rows of a data object or array."""
    data = obj if isinstance(obj, np.ndarray) else obj.data
    data = np.asarray(data)
    if data.dtype.names:
        return np.array([list(row) for row in data.tolist()], dtype=data.dtype[0]).reshape(-1, len(data.dtype.names))
    return np.array(data)


def same(x, y):
    """Exact equality of values and shape, NaN equal to NaN."""
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fc" or y.dtype.kind in "fc":
        return bool(np.all((x == y) | ((x != x) & (y != y))))
    return bool(np.all(x == y))


def close(x, y, rtol=1e-9, atol=1e-12):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    return bool(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True))


def raises(kinds, fn, *args, **kwargs):
    """True when the call raises one of ``kinds``; other exceptions propagate."""
    try:
        fn(*args, **kwargs)
    except kinds:
        return True
    return False


def require_raises(kinds, what, fn, *args, **kwargs):
    if not raises(kinds, fn, *args, **kwargs):
        fail(f"no error was raised: {what}")


def frozen(obj):
    """Hashable bitwise snapshot of any data object, nested group or array."""
    if isinstance(obj, np.ndarray):
        return (str(obj.dtype), obj.shape, np.ascontiguousarray(obj).tobytes())
    if isinstance(obj, gcl.MaskGroup):
        return ("G", obj.agg_op.value, tuple((k, frozen(v)) for k, v in obj.items()))
    if isinstance(obj, gcl.AdjacencyList):
        return ("A", frozen(np.asarray(obj.data)), frozen(np.asarray(obj.weights)))
    if isinstance(obj, gcl.Graphicle):
        return ("E", frozen(obj.particles), frozen(obj.adj))
    if isinstance(obj, gcl.ParticleSet):
        return ("P",) + tuple(frozen(getattr(obj, n)) for n in ("pdg", "pmu", "color", "helicity", "status", "final"))
    if isinstance(obj, (list, tuple)):
        return tuple(map(frozen, obj))
    if isinstance(obj, dict):
        return tuple((k, frozen(v)) for k, v in obj.items())
    if hasattr(obj, "data") and hasattr(obj, "copy"):
        return (type(obj).__name__, frozen(np.asarray(obj.data)))
    if isinstance(obj, float):
        return ("f", obj.hex() if obj == obj else "nan")
    return repr(obj)


ATTRS = ("pdg", "pmu", "color", "helicity", "status", "final", "edges")


def columns(n, variant=0):
    """Raw columns of a record of n particles, all rows distinct in every column
    that can be."""
    i = np.arange(n)
    pdgs = np.array([1, -2, 21, 11, -13, 22, 2212, 211, -5, 24], dtype="<i4")
    return {
        "pdg": np.resize(np.roll(pdgs, variant), n).astype("<i4"),
        "pmu": np.stack([i + 0.25, -1.5 * i - 1.0, i * i - 2.5, 10.0 * i * i + 20.5], axis=-1).astype("<f8").reshape(n, 4)
        + variant,
        "color": np.stack([501 + i, 601 - 2 * i], axis=-1).astype("<i4").reshape(n, 2) + variant,
        "helicity": ((i + variant) % 3 - 1).astype("<i2"),
        "status": ((-1) ** i * (i + 20 + variant)).astype("<i2"),
        "final": ((i + variant) % 2 == 1),
        "edges": np.stack([i - 3, i + 5], axis=-1).astype("<i4").reshape(n, 2),
    }


CLASSES = {
    "pdg": gcl.PdgArray,
    "pmu": gcl.MomentumArray,
    "color": gcl.ColorArray,
    "helicity": gcl.HelicityArray,
    "status": gcl.StatusArray,
    "final": gcl.MaskArray,
    "edges": gcl.AdjacencyList,
}


LIMITS = {
    "pdg": (2**31 - 1, -(2**31), 0, 32767, -32768, 32768, -32769, 65535, 65536, 127, -129, 16777217, 1000010020),
    "color": (2**31 - 1, -(2**31), 0, 32767, -32769, 65536, 501, -129, 16777217),
    "edges": (2**31 - 1, -(2**31), 0, 32767, -32769, 65536, 7, -129, 16777217),
    "status": (32767, -32768, 0, 127, -129, 255, 256, -1),
    "helicity": (32767, -32768, 0, 127, -129, 255, 256, -1),
    "final": (True, False),
    "pmu": (1.7976931348623157e308, 5e-324, -0.0, 0.1, 1 / 3, math.inf, -math.inf, math.nan, 1e39, 16777217.0, 2.0**53 + 2, -1e-310),
}
WIDTH = {"pmu": 4, "color": 2, "edges": 2}
TYPES = {"pmu": "<f8", "status": "<i2", "helicity": "<i2", "final": "?"}


def limits(name, shift, n):
    """Rows with values at the limits of what the class stores."""
    pool, k = LIMITS[name], WIDTH.get(name, 1)
    flat = [pool[(shift + j) % len(pool)] for j in range(n * k)]
    return np.array(flat, dtype=TYPES.get(name, "<i4")).reshape((n, k) if k > 1 else (n,))


def sources(raw):
    """(how, base, array): arrays equal to ``raw`` which look into a base array."""
    base = raw.copy()
    yield "plain", base, base
    base = raw.copy()
    view = base.view()
    view.flags.writeable = False
    yield "read-only view", base, view
    base = np.repeat(raw, 2, axis=0)
    yield "strided", base, base[::2]
    base = np.repeat(raw, 2, axis=0)
    view = base[::2]
    view.flags.writeable = False
    yield "read-only strided", base, view
    base = raw[::-1].copy()
    yield "reversed", base, base[::-1]
    base = np.array(raw, order="F")
    yield "fortran", base, base
    base = np.concatenate([raw, raw])
    yield "head", base, base[: len(raw)]
    base = np.frombuffer(bytearray(raw.tobytes()), dtype=raw.dtype)
    yield "buffer", base, base.reshape(raw.shape)


def component(event, name):
    """Attribute ``name`` of a Graphicle or ParticleSet as a data object."""
    return event.adj if name == "edges" else getattr(event, name)


def subsets(items):
    items = tuple(items)
    for r in range(len(items) + 1):
        yield from it.combinations(items, r)


def wrap_angle(x):
    """Maps an angle to (-pi, pi]."""
    return math.atan2(math.sin(x), math.cos(x))


class quiet_stdout:
    """Silences banners printed by compiled libraries."""

    def __enter__(self):
        self.saved = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.close(null)

    def __exit__(self, *exc):
        os.dup2(self.saved, 1)
        os.close(self.saved)


def process_state():
    """Process-wide settings a library call has no business changing."""
    import decimal
    import sys

    import numba

    return {
        "numpy error handling": tuple(sorted(np.geterr().items())),
        "numpy print options": repr(sorted(np.get_printoptions().items())),
        "numpy random state": np.random.get_state()[1].tobytes(),
        "thread count": numba.get_num_threads(),
        "recursion limit": sys.getrecursionlimit(),
        "working directory": os.getcwd(),
        "decimal context": repr(decimal.getcontext()),
    }


PROCESS = process_state()


def require_process(what, *args):
    now = process_state()
    bad = [k for k in now if PROCESS[k] != now[k]]
    require(not bad, "{} changed by " + what, bad, *args)
