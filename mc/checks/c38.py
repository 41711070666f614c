"""C38: answers do not depend on how the data is held in memory."""
import mmap

from mc.core import Check
from mc.checks.c32 import Q, plain, snap, world
from mc.util import *

C = Check(
    "C38",
    "exploration",
    "exhaustive enumeration of public queries x holders of their data in memory, against the same query on plain arrays",
    "Every public query on one event whose columns, and on operands which, are read-only, of foreign byte order, unaligned, strided, reversed, in column-major order, "
    "structured, in a memory map, in a bytes object, array subclasses, or lists where lists are taken; each column alone and all together; and every query twice, with a second query in between.",
    "cases: (query, holder, column or operand); all non-trivial",
    ["queries only: writing to read-only memory must fail", "plain numpy operands are of native byte order (scipy and numba take no other) and of no subclass"],
)


class Sub(np.ndarray):
    """A subclass without behaviour of its own."""


def h_readonly(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def h_swapped(a):
    return a.astype(a.dtype.newbyteorder(">"))


def h_unaligned(a):
    buf = bytearray(1) + bytearray(a.tobytes())
    return np.frombuffer(buf, dtype=a.dtype, offset=1).reshape(a.shape)


def h_bytes(a):
    return np.frombuffer(bytes(3) + a.tobytes(), dtype=a.dtype, offset=3).reshape(a.shape)


def h_strided(a):
    wide = np.zeros((2 * a.shape[0],) + tuple(3 * n for n in a.shape[1:]), dtype=a.dtype)
    view = wide[(slice(1, None, 2),) + (slice(2, None, 3),) * (a.ndim - 1)]
    view[...] = a
    return view


def h_reversed(a):
    return a[::-1].copy()[::-1]


def h_fortran(a):
    return np.asfortranarray(a)


def h_locked(a):
    a = np.asfortranarray(a.copy())
    a.setflags(write=False)
    return a


def h_mapped(a):
    mm = mmap.mmap(-1, max(a.nbytes, 1))
    mm.write(a.tobytes())
    return np.frombuffer(mm, dtype=a.dtype, count=a.size).reshape(a.shape)


def h_subclass(a):
    return a.copy().view(Sub)


def h_broadcast(a):
    """Zero strides where all rows are equal."""
    return np.broadcast_to(a[:1], a.shape) if len(a) and (a == a[:1]).all() else h_readonly(a)


HOLDERS = {h.__name__[2:]: h for h in (h_readonly, h_swapped, h_unaligned, h_bytes, h_strided, h_reversed, h_fortran, h_locked, h_mapped, h_subclass, h_broadcast)}
FIELDS = {"pmu": "xyze", "color": ("color", "anticolor"), "edges": ("src", "dst")}


def h_struct(name):
    def hold(a):
        out = np.zeros(len(a), dtype=[(f, a.dtype) for f in FIELDS[name]])
        for j, f in enumerate(FIELDS[name]):
            out[f] = a[:, j]
        out.setflags(write=False)
        return out

    return hold


COLS = ("pdg", "pmu", "color", "helicity", "status", "final", "edges")
ARRAYS = ("shift", "aff", "weights", "weights4")
MASKS = ("m1", "m2")


def held_world(variant, hold, what):
    """C32's world with the named parts held in memory by ``hold``."""
    w = world(variant)
    parts = COLS if what in ("event", "all") else (what,) if what in COLS else ()
    raw = {}
    for nm in COLS:
        obj = w.g.adj if nm == "edges" else getattr(w.g, nm)
        arr = cols(obj).copy()
        f = hold(nm) if hold is h_struct and nm in FIELDS else h_readonly if hold is h_struct else hold
        raw[nm] = f(arr) if nm in parts else arr
    weights = w.g.adj.weights
    if len(weights) and what in ("edges", "event", "all"):
        raw["weights"] = h_readonly(weights) if hold is h_struct else hold(weights.copy())
    elif len(weights):
        raw["weights"] = weights
    w.g = gcl.Graphicle.from_numpy(**raw)
    w.fin = w.g.pmu[w.g.final]
    if what in ("operands", "all") and hold is not h_struct:
        for nm in ARRAYS if hold not in (h_swapped, h_subclass) else ():
            setattr(w, nm, hold(getattr(w, nm)))
        for nm in MASKS:
            setattr(w, nm, M(hold(getattr(w, nm).data.copy())))
        w.cl = [M(hold(m.data.copy())) for m in w.cl]
        w.other = gcl.MomentumArray(hold(cols(w.other).copy()))
        w.one = w.other[:1]
        w.hier = rehold(w.hier, hold)
        w.leaves = rehold(w.leaves, hold)
        w.grp = rehold(w.grp, hold)
    return w


def rehold(tree, hold):
    return G({k: rehold(v, hold) if isinstance(v, G) else M(hold(v.data.copy())) for k, v in tree.items()}, agg_op=tree.agg_op)


REFS = {}


def ref(variant, q):
    if (variant, q) not in REFS:
        REFS[variant, q] = Q[q](held_world(variant, None, "nothing"))
    return REFS[variant, q]


def alike(x, y):
    """Same structure and values; floating point within a few units in the last place of the largest term."""
    if isinstance(x, np.ma.MaskedArray) or x is None or isinstance(x, (str, bytes, bool, int, dict, set, frozenset)) or hasattr(x, "nnz"):
        return plain(x) == plain(y)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(map(alike, x, y))
    if type(x) is not type(y) and not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray)):
        return False
    if isinstance(x, gcl.MomentumArray):
        return close(cols(x), cols(y), rtol=1e-12, atol=1e-12 * float(np.max(np.abs(cols(x)), initial=1.0)))
    if isinstance(x, (float, np.floating)) or isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return np.shape(x) == np.shape(y) and close(np.asarray(x), np.asarray(y), rtol=1e-11, atol=1e-12)
    if isinstance(x, np.ndarray):
        return np.array_equal(x, y) and x.dtype == y.dtype
    return plain(x) == plain(y)


def gen(tier):
    for variant in ("numpy", "weighted") + (("large",) if tier == THOROUGH else ()):
        for hold in tuple(HOLDERS) + ("struct",):
            for what in ("all", "event", "operands") + COLS:
                if hold == "struct" and what == "operands" or variant == "weighted" and what in COLS and what != "edges":
                    continue
                yield variant, hold, what


@C.family("queries", gen)
def queries(ctx, variant, hold, what):
    f = h_struct if hold == "struct" else HOLDERS[hold]
    for q in Q:
        want = ref(variant, q)
        w = held_world(variant, f, what)
        start = snap(w)
        for k in (1, 2):
            try:
                got = Q[q](w)
            except Exception as e:
                fail(f"{q} fails when {what} is {hold}: {e!r}"[:400])
            require(alike(want, got), "{} is {} instead of {} when {} is {} (time {})", q, got, want, what, hold, k)
        require(snap(w) == start, "{} changed its input when {} is {}", q, what, hold)
        ctx.ev((variant, hold, what, q))
    ctx.outcome((hold, what))


def gen_copy(tier):
    for hold in HOLDERS:
        for n in (0, 1, 2, 5):
            for nm in COLS:
                yield hold, n, nm


@C.family("copies", gen_copy)
def copies(ctx, hold, n, nm):
    """Copies are plain memory, whatever the original is held in."""
    raw = columns(n)[nm]
    obj = CLASSES[nm](HOLDERS[hold](raw.copy()))
    ev = gcl.Graphicle.from_numpy(**{nm: HOLDERS[hold](raw.copy())})
    for twin in (obj.copy(), component(ev.copy(), nm)):
        require(np.array_equal(cols(twin), raw), "copy of {} from {}", nm, hold)
        if n:
            flat = twin.data
            try:
                for part in [flat[f] for f in flat.dtype.names] if flat.dtype.names else [flat]:
                    part[...] = 0
            except ValueError as e:
                fail(f"the copy of {nm} cannot be written to when the original is {hold}: {e}")
            require(not np.any(cols(twin)), "a copy does not take writes when the original is {}", hold)
            require(np.array_equal(cols(obj), raw), "writing into the copy changes the original {}", hold)
    ctx.ev((hold, n, nm) if n else None)
    ctx.outcome(hold)


def structured(fields, a):
    out = np.zeros(len(a), dtype=[(f, a.dtype) for f in fields])
    for j, f in enumerate(fields):
        out[f] = a[:, j]
    return out


@C.family("structured operands", lambda tier: ((h, n) for h in tuple(HOLDERS) + ("own", "sliced") for n in (1, 2, 3, 7, 40)))
def structured_operands(ctx, hold, n):
    """Functions that take structured rows read them wherever they are."""
    raw = columns(n)["pmu"]
    weights = (np.arange(4 * n).reshape(n, 4) % 5 - 1.0) / 2
    p = gcl.MomentumArray(raw.copy())
    want = [gcl.calculate.combined_mass(p), gcl.calculate.combined_mass(p, weights), gcl.calculate.combined_mass(p, weights[:, :1].copy())]
    ws = structured("abcd", weights)
    if hold == "own":
        rows = p.data
    elif hold == "sliced":
        rows, ws = gcl.MomentumArray(np.repeat(raw, 3, axis=0)).data[1::3], np.repeat(ws, 2)[::2]
    else:
        if hold == "fortran":
            ctx.ev()
            return
        rows, ws = HOLDERS[hold](structured("xyze", raw)), HOLDERS[hold](ws)
    keep = rows.tobytes(), ws.tobytes()
    got = [gcl.calculate.combined_mass(rows), gcl.calculate.combined_mass(rows, ws), gcl.calculate.combined_mass(rows, weights[:, :1].copy())]
    got2 = gcl.calculate.combined_mass(p, ws)
    require(close(got, want, rtol=1e-12) and close(got2, want[1], rtol=1e-12), "masses {} and {} instead of {} for {} rows", got, got2, want, hold)
    require((rows.tobytes(), ws.tobytes()) == keep, "operands changed")
    for other in (gcl.MomentumArray(rows), gcl.MomentumArray(rows)[::-1][::-1]):
        require(same(cols(other), raw), "momenta from {} rows are {}", hold, cols(other).tolist())
    masks = structured("mno", np.array([[i % 2, i % 3, 1] for i in range(n)], dtype=bool))
    masks = masks if hold in ("own", "sliced") else HOLDERS[hold](masks)
    grp = G.from_numpy_structured(masks)
    require(grp.serialize() == {f: tuple(masks[f].tolist()) for f in "mno"}, "group from {} rows is {}", hold, grp.serialize())
    ctx.ev((hold, n))
    ctx.outcome(hold)
