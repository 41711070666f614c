"""C10: numpy functions and comparisons act element-wise on the raw columns."""
import operator as op

from mc.core import Check
from mc.util import *

C = Check(
    "C10",
    "exploration",
    "exhaustive enumeration of classes, operators, operand kinds, shapes, reduction axes and single-entry differences",
    "Every operator and universal function of the lists with every operand kind on every class, for row counts 0 to 5 "
    "(and 9), against the same function on the plain columns; every single-entry difference for comparisons.",
    "cases: (class, row count, function or comparison); non-trivial when there are rows",
    ["true division and float operands are only applied to the float class, as integer classes store integers",
     "order comparisons of multi-column arrays are outside the property (they raise)"],
)
INT = ("pdg", "color", "helicity", "status", "edges")
NS = (0, 1, 2, 3, 4, 5, 9, 33, 130)


def raw(name, n, k=0):
    if name == "final":
        return np.array([(i * 7 + k) % 3 == 0 for i in range(n)], dtype=bool)
    nc = {"pmu": 4, "color": 2, "edges": 2}.get(name, 1)
    i = np.arange(n * nc) + 3 * k
    vals = ((i * i + 5 * i + 3) % 23 - 9 + k).reshape((n, nc) if nc > 1 else n)
    vals = np.where(vals == 0, 4, vals)
    return vals + 0.25 if name == "pmu" else vals.astype(CLASSES[name]().data.dtype if nc == 1 else "<i4")


def make(name, n, k=0):
    return CLASSES[name](raw(name, n, k))


def is_class(name, res, want, what):
    want = np.asarray(want)
    if want.dtype == bool:
        require(isinstance(res, M), "{}: boolean result is {}", what, type(res))
        require(same(res.data, want), "{}: {} instead of {}", what, res.data, want)
        return
    require(type(res) is CLASSES[name], "{}: result is {}", what, type(res))
    got = cols(res)
    if got.dtype.kind == "i" and np.any(np.abs(want) > np.iinfo(got.dtype).max):
        return  # wider than the stored integer type
    if got.ndim == 2:
        want = want.reshape(-1, got.shape[1])
    require(got.shape == want.shape and bool(np.all((got == want) | ((got != got) & (want != want)))),
            "{}: {} instead of {}", what, got.tolist(), want.tolist())


BIN = [op.add, op.sub, op.mul, op.floordiv, op.mod, np.maximum, np.minimum, np.add, np.subtract, np.multiply, np.fmod]
CMP = [op.lt, op.le, op.gt, op.ge, np.greater, np.less_equal]
FLOAT_BIN = [op.truediv, np.divide, np.hypot, np.arctan2, np.copysign]
BOOL_BIN = [op.and_, op.or_, op.xor, np.logical_and, np.logical_or, np.logical_xor, np.bitwise_and]


def operands(name, n):
    """(tag, value handed to graphicle, value handed to numpy)."""
    other = raw(name, n, 1)
    yield "object", CLASSES[name](other), other
    yield "array", other, other
    if name == "final":
        return
    yield "int", 3, 3
    yield "numpy int", np.int16(-3), np.int16(-3)
    if name == "pmu":
        yield "float", -2.5, -2.5
        yield "numpy float", np.float64(0.5), np.float64(0.5)
        yield "int array", np.arange(4 * n).reshape(n, 4) + 1, np.arange(4 * n).reshape(n, 4) + 1
    if other.ndim == 2:
        row = np.array([2, -3, 5, 7][: other.shape[1]], dtype=other.dtype)
        yield "row", row, row
        yield "row list", row.tolist(), row
        yield "row tuple", tuple(row.tolist()), row
        col = np.array([[(-1) ** i * (i + 2)] for i in range(n)], dtype=other.dtype).reshape(n, 1)
        yield "column", col, col
        if n:
            yield "nested list", other.tolist(), other
    elif n:
        yield "list", other.tolist(), other


@C.family("binary", lambda tier: ((c, n, t) for c in CLASSES for n in NS for t, _, _ in operands(c, n)))
def binary(ctx, name, n, tag):
    fns = BOOL_BIN if name == "final" else list(BIN)
    if name == "pmu":
        fns += FLOAT_BIN
    if name in ("pdg", "helicity", "status"):
        fns += CMP
    for f in fns:
        for flip in (False, True):
            a = make(name, n)
            ra = raw(name, n)
            other, rother = next((o, r) for t, o, r in operands(name, n) if t == tag)
            if flip and f in (op.and_, op.or_, op.xor) and isinstance(other, np.ndarray):
                continue  # numpy's own operators are covered by C01
            before, obefore = frozen(a), frozen(other)
            if flip and isinstance(other, (list, tuple)) and f in (op.add, op.mul, op.mod):
                pass
            want = f(rother, ra) if flip else f(ra, rother)
            if name != "pmu" and want.dtype.kind == "f":
                continue
            what = (name, n, f.__name__, tag, flip)
            res = f(other, a) if flip else f(a, other)
            is_class(name, res, want, what)
            require(frozen(a) == before and frozen(other) == obefore, "{}: an operand changed", what)
            if not isinstance(res, M):
                res += 1
                require(frozen(a) == before and frozen(other) == obefore, "{}: result shares an operand's data", what)
            ctx.ev(what if n else None)
    ctx.outcome((name, tag))


UN = [np.negative, op.neg, op.pos, abs, np.absolute, np.square, np.sign, np.positive, np.rint]
UN_FLOAT = [np.sqrt, np.exp, np.sin, np.floor, np.ceil, np.cbrt, np.log1p, np.reciprocal]
UN_BOOL1 = [np.isfinite, np.isnan, np.signbit, np.logical_not]


@C.family("unary", lambda tier: ((c, n) for c in CLASSES for n in NS))
def unary(ctx, name, n):
    ra = raw(name, n)
    if name == "final":
        fns = [op.invert, np.logical_not, np.invert]
    else:
        fns = [f for f in UN if not (name != "pmu" and f is np.rint)]
        fns += UN_FLOAT if name == "pmu" else [op.invert]
        if ra.ndim == 1:
            fns += [f for f in UN_BOOL1]
    for f in fns:
        a = make(name, n)
        before = frozen(a)
        what = (name, n, f.__name__)
        res, want = f(a), f(ra)
        if np.asarray(want).dtype.kind == "f" and name != "pmu":
            continue
        is_class(name, res, want, what)
        require(frozen(a) == before, "{}: operand changed", what)
        if not isinstance(res, M):
            res += 1
            require(frozen(a) == before, "{}: result shares the operand's data", what)
        ctx.ev(what if n else None)
    if name == "pmu":
        for f in (np.modf, lambda v: np.divmod(v, 2.0), lambda v: divmod(v, np.array([1.0, 2.0, 3.0, 4.0]))):
            parts = f(make(name, n))
            require(type(parts) is tuple and len(parts) == 2, "two results expected")
            for p, w in zip(parts, f(ra)):
                is_class(name, p, w, (name, n, "multiple"))
            ctx.ev((name, n, "multiple") if n else None)
    if name in INT and n:
        for p, w in zip(np.divmod(make(name, n), 3), np.divmod(ra, 3)):
            is_class(name, p, w, (name, n, "divmod"))


RED = [np.add, np.multiply, np.maximum, np.minimum]


@C.family("reductions", lambda tier: ((c, n) for c in CLASSES for n in NS))
def reductions(ctx, name, n):
    ra = raw(name, n)
    multi = ra.ndim == 2
    if name == "final":
        a = make(name, n)
        for f in (np.logical_or.reduce, np.logical_and.reduce, np.any, np.all, np.sum, np.count_nonzero, np.add.reduce):
            res, want = f(a), f(ra)
            require(np.ndim(res) == 0 and res == want, "{} of a mask is {} instead of {}", f, res, want)
            ctx.ev((name, n, repr(f)) if n else None)
        return
    for u in RED:
        if n == 0 and u in (np.maximum, np.minimum):
            continue
        calls = [("default", lambda v: u.reduce(v)), ("axis0", lambda v: u.reduce(v, axis=0))]
        if multi:
            calls += [
                ("axis1", lambda v: u.reduce(v, axis=1)), ("axis-1", lambda v: u.reduce(v, axis=-1)),
                ("axis-2", lambda v: u.reduce(v, axis=-2)), ("all", lambda v: u.reduce(v, axis=None)),
                ("keep0", lambda v: u.reduce(v, axis=0, keepdims=True)),
                ("keep1", lambda v: u.reduce(v, axis=1, keepdims=True)),
                ("both", lambda v: u.reduce(v, axis=(0, 1))),
            ]
        for tag, f in calls:
            a = make(name, n)
            before = frozen(a)
            res, want = f(a), f(ra)
            what = (name, n, u.__name__, tag)
            if np.ndim(want) == 0:
                require(np.ndim(res) == 0 and res == want, "{}: {} instead of {}", what, res, want)
            elif tag in ("axis1", "axis-1", "keep1"):
                require(type(res) is np.ndarray and same(res, want), "{}: {!r} instead of {}", what, res, want)
            else:
                is_class(name, res, want, what)
                require(len(res) == 1, "{}: {} rows", what, len(res))
            require(frozen(a) == before, "{}: operand changed", what)
            ctx.ev(what if n else None)
        a = make(name, n)
        if n:
            is_class(name, u.accumulate(a) if not multi else u.accumulate(a, axis=0), u.accumulate(ra, axis=0),
                     (name, n, u.__name__, "accumulate"))
            idx = [0, n // 2]
            is_class(name, u.reduceat(a, idx, axis=0), u.reduceat(ra, idx, axis=0), (name, n, u.__name__, "reduceat"))
    for tag, f in (("sum0", lambda v: np.sum(v, axis=0)), ("max0", lambda v: np.max(v, axis=0)),
                   ("sum1", lambda v: np.sum(v, axis=1)), ("min-1", lambda v: np.min(v, axis=-1)), ("sum", np.sum),
                   ("prod", np.prod)):
        if (not multi and tag in ("sum1", "min-1")) or (n == 0 and tag[:3] in ("max", "min")):
            continue
        res, want = f(make(name, n)), f(ra)
        if np.ndim(want) == 0:
            require(np.ndim(res) == 0 and res == want, "{} of {}: {} instead of {}", tag, name, res, want)
        elif tag in ("sum1", "min-1"):
            require(type(res) is np.ndarray and same(res, want), "{} of {} rows: {!r} instead of {}", tag, n, res, want)
        else:
            is_class(name, res, want, (name, n, tag))
        ctx.ev((name, n, tag) if n else None)


@C.family("large sums", lambda tier: ((c, n) for c in CLASSES if c not in ("final", "pmu") for n in (1, 2, 3, 4, 5, 9, 33, 130, 300)))
def large_sums(ctx, name, n):
    """Reductions whose value is beyond the stored type."""
    info = np.iinfo(raw(name, 1).dtype)
    for fill in (info.max, info.min, info.max // 2 + 1, -(info.max // 2) - 1):
        shape = raw(name, n).shape
        r = np.full(shape, fill, dtype=raw(name, 1).dtype)
        for u in RED:
            for f in (u.reduce, {np.add: np.sum, np.multiply: np.prod, np.maximum: np.max, np.minimum: np.min}[u]):
                for axis in ((0, None) if r.ndim == 1 else (1, -1, None)):
                    with np.errstate(all="ignore"):
                        res, want = f(CLASSES[name](r.copy()), axis=axis), f(r, axis=axis)
                    what = (name, n, int(fill), u.__name__, axis)
                    require(np.shape(res) == np.shape(want) and np.all(res == want), "{}: {} instead of {}", what, res, want)
                    ctx.ev(what)
    ctx.outcome(name)


def options(name, n):
    """(tag, keywords handed to graphicle, keywords handed to numpy) of a reduction."""
    nc = {"pmu": 4, "color": 2, "edges": 2}.get(name, 1)
    keep = np.arange(n) % 3 != 1
    where = keep if nc == 1 else np.repeat(keep[:, None], nc, axis=1)
    patch = (np.arange(n * nc) % 4 != 2).reshape(where.shape)
    for ini in (-7, 0, 5, 100, -300):
        yield f"initial {ini}", {"initial": ini}
    for ini in (1, 50):
        yield f"where rows, initial {ini}", {"where": where, "initial": ini}
        yield f"where patch, initial {ini}", {"where": patch, "initial": ini}
        yield f"where none, initial {ini}", {"where": np.zeros_like(where), "initial": ini}
        yield f"where true, initial {ini}", {"where": True, "initial": ini}


@C.family("options", lambda tier: ((c, n) for c in CLASSES for n in NS))
def reduction_options(ctx, name, n):
    """``initial``, ``where`` and ``dtype`` of a reduction mean what they mean to numpy."""
    ra = raw(name, n)
    multi = ra.ndim == 2
    ufuncs = (np.logical_or, np.logical_and) if name == "final" else RED
    for u in ufuncs:
        forms = [(f"{u.__name__}.reduce", u.reduce)]
        forms += {"add": [("sum", np.sum)], "multiply": [("prod", np.prod)], "maximum": [("max", np.max)],
                  "minimum": [("min", np.min)], "logical_or": [("any", np.any)], "logical_and": [("all", np.all)],
                  }[u.__name__]
        axes = [0] if not multi else [0, 1, -1, None]
        for (form, f), (tag, kw), axis in it.product(forms, options(name, n), axes):
            if name == "final":
                if form in ("any", "all"):
                    kw = {k: v for k, v in kw.items() if k == "where"}
                elif "initial" in kw:
                    kw = dict(kw, initial=kw["initial"] > 10)
            a = make(name, n)
            before = frozen(a)
            what = (name, n, form, tag, axis)
            want = f(ra, axis=axis, **kw)
            res = f(a, axis=axis, **kw)
            if np.ndim(want) == 0:
                require(np.ndim(res) == 0 and res == want, "{}: {} instead of {}", what, res, want)
            elif axis in (1, -1):
                require(type(res) is np.ndarray and same(res, want), "{}: {!r} instead of {}", what, res, want)
            else:
                is_class(name, res, want, what)
            require(frozen(a) == before, "{}: operand changed", what)
            ctx.ev(what if n else None)
        if multi and n and u in (np.add, np.multiply):
            for dt in ("<f8", "<i8", "<f4"):
                res, want = u.reduce(make(name, n), axis=1, dtype=dt), u.reduce(ra, axis=1, dtype=dt)
                require(type(res) is np.ndarray and res.dtype == want.dtype and same(res, want),
                        "{}: rows with dtype {} give {!r} instead of {!r}", name, dt, res, want)
                ctx.ev((name, n, u.__name__, dt))
        if n and name != "final":
            # element-wise with a selection and an output array of one's own
            sel = np.arange(n) % 2 == 0
            sel = np.repeat(sel[:, None], ra.shape[1], axis=1) if multi else sel
            a, b, rb = make(name, n), make(name, n, 2), raw(name, n, 2)
            out, rout = make(name, n, 5), raw(name, n, 5)
            with np.errstate(all="ignore"):
                u(ra, rb, out=rout, where=sel)
            u(a, b, out=out, where=sel)
            is_class(name, out, rout, (name, n, u.__name__, "out and where"))
            require(same(cols(a), ra) and same(cols(b), rb), "{}: operands changed by out=", name)
            ctx.ev((name, n, u.__name__, "where"))
    ctx.outcome(name)


@C.family("programs", lambda tier: ((n, d) for n in (1, 2, 4, 5, 40) for d in it.product(range(6), repeat=4 if tier == THOROUGH else 3)))
def programs(ctx, n, prog):
    """Chains of operations on momenta agree with the same chain on the columns."""
    a, r = make("pmu", n), raw("pmu", n)
    b, rb = make("pmu", n, 2), raw("pmu", n, 2)
    snap = frozen(a), frozen(b)
    x, rx = a, r
    for k in prog:
        if k == 0:
            x, rx = x + b, rx + rb
        elif k == 1:
            x, rx = 2.0 * x - a, 2.0 * rx - r
        elif k == 2:
            x, rx = x / np.array([1.0, 2.0, 4.0, 8.0]), rx / np.array([1.0, 2.0, 4.0, 8.0])
        elif k == 3:
            x, rx = np.maximum(x, b), np.maximum(rx, rb)
        elif k == 4:
            x, rx = x - np.sum(x, axis=0), rx - rx.sum(axis=0)
        else:
            x, rx = abs(x)[::-1], abs(rx)[::-1]
        is_class("pmu", x, rx, (n, prog))
        require(close(x.pt, np.hypot(rx[:, 0], rx[:, 1])), "transverse momentum after {}", prog)
    require((frozen(a), frozen(b)) == snap, "operands changed by {}", prog)
    ctx.ev((n, prog))
    ctx.step(len(prog))


# ------------------------------------------------------------------ comparisons
def rows_equal(x, y):
    eq = np.asarray(x) == np.asarray(y)
    return eq.all(axis=1) if eq.ndim == 2 else eq


def both(a, other, want, what):
    eq, ne = a == other, a != other
    require(isinstance(eq, M) and isinstance(ne, M), "{}: comparison gives {} and {}", what, type(eq), type(ne))
    require(same(eq.data, want), "{}: equality {} instead of {}", what, eq.data, want)
    require(same(ne.data, ~want), "{}: inequality {} instead of {}", what, ne.data, ~want)


def aliens(r, o):
    """Arrays of other types: equal values, and ones which only a cast would make equal."""
    for dt in ("<f8", "<f4", ">i4", ">i8", "<f16", "<c16", "<i1", "<u1", "<u2", "<u4", "?"):
        yield o.astype(dt)
    yield r + 0.5
    yield r - np.where(np.arange(len(r)) % 2, 0.25, 0.0)
    yield r.astype("<i8") + 2**16
    yield r.astype("<i8") + 2**32 * (np.arange(len(r)) % 3)
    yield r.astype("<i8").astype("<u8")
    yield np.where(np.arange(len(r)) % 2, r, np.nan)


def gen_cmp(tier):
    for name in CLASSES:
        if name == "final":
            continue  # masks are compared in C01
        for n in (1, 2, 3, 4, 5, 17, 70, 300):
            nc = {"pmu": 4, "color": 2, "edges": 2}.get(name, 1)
            for i in range(-1, n) if n < 6 else (-1, 0, n // 2, n - 1):
                for j in range(nc):
                    for fine in (False, True):
                        yield name, n, i, j, fine


FINE = {"pmu": (0.1, -1 / 3, 1e300, 5e-324, 2.0**53 + 2, -1e-17, 123456789.123456789, 7.0)}
for _nm in ("pdg", "color", "edges"):
    FINE[_nm] = (2**31 - 1, -(2**31), 2**24 + 1, -(2**24) - 3, 2**30 + 7)
for _nm in ("helicity", "status"):
    FINE[_nm] = (2**15 - 1, -(2**15), 2**11 + 1, -(2**14) - 3)


def fine_raw(name, n):
    """Values that need every digit of the stored type."""
    r = raw(name, n)
    f = FINE[name]
    return np.array([f[(i * 3 + i // len(f)) % len(f)] for i in range(r.size)], dtype=r.dtype).reshape(r.shape)


@C.family("comparisons", gen_cmp)
def comparisons(ctx, name, n, i, j, fine):
    """All rows equal, except (unless i is -1) one entry."""
    r = fine_raw(name, n) if fine else raw(name, n)
    for delta in (1, -3) + ((np.nan,) if name == "pmu" else ()):
        o = r.copy()
        if i >= 0:
            at = (i, j) if o.ndim == 2 else i
            if fine and name == "pmu" and delta == delta:
                o[at] = np.nextafter(o[at], delta * np.inf)
            elif fine:
                o[at] = o[at] - delta if o[at] > 0 else o[at] + abs(delta)
            else:
                o[at] += delta
        a, b = CLASSES[name](r.copy()), CLASSES[name](o.copy())
        snap = frozen(a), frozen(b)
        want = rows_equal(r, o)
        both(a, b, want, (name, n, i, j, "object"))
        both(b, a, want, (name, n, i, j, "object, swapped"))
        both(a, b.data, want, (name, n, i, j, "own data"))
        if r.ndim == 1:
            both(a, o, want, (name, n, i, j, "array"))
            both(a, o.tolist(), want, (name, n, i, j, "list"))
            both(a, o.astype("<i8"), want, (name, n, i, j, "wide array"))
            for k, alien in enumerate(aliens(r, o)):
                both(a, alien, r == alien, (name, n, i, "array of another type", k, str(alien.dtype)))
            for v in (0.5, 2.0**31, 2**31, -(2**31) - 1, 2**16, 65535, 2**32 + int(r[0]), float(r[0]) + 0.5, float(r[0]), math.nan, math.inf):
                v = np.array(v)[()]
                both(a, v, r == v, (name, n, "number of another type", v))
            for k in range(n) if n < 20 else (0, n // 2, n - 1):
                both(a, int(o[k]), r == o[k], (name, n, "scalar"))
                both(a, o[k], r == o[k], (name, n, "numpy scalar"))
        else:
            for k in range(n) if n < 20 else (0, n // 2, n - 1):
                row = rows_equal(r, o[k])
                both(a, tuple(o[k].tolist()), row, (name, n, k, "row tuple"))
                both(a, o[k].tolist(), row, (name, n, k, "row list"))
                both(a, next(iter(b[k])), row, (name, n, k, "row element"))
                both(a, b[k], row, (name, n, k, "row object"))
                both(a, b.data[k : k + 1], row, (name, n, k, "structured row"))
            w = r.shape[1]
            for bad in ((1,), (1, 2, 3), (1, 2, 3, 4, 5), (1,) * (2 * w), [2] * (3 * w), (0,) * (n * w) if n != 1 else (), (3,) * (w - 1), (), 7, None, "ab"[:1]):
                require_raises(ValueError, f"comparison of {name} with {bad!r}", op.eq, a, bad)
        require((frozen(a), frozen(b)) == snap, "a comparison changed an operand")
        ctx.ev((name, n, i, j, fine, repr(delta)))


def full_event(n, names, weighted):
    cs = columns(n)
    kw = {k: cs[k].copy() for k in names}
    if "edges" in kw and weighted:
        kw["weights"] = np.arange(n) + 0.5
    return gcl.Graphicle.from_numpy(**kw)


@C.family("composites", lambda tier: ((s, n) for s in subsets(ATTRS) for n in ((1, 4, 70) if tier != THOROUGH else (1, 2, 4, 5, 70, 500))))
def composites(ctx, names, n):
    def pairs(a, b):
        return ((a, b), (b, a), (a.copy(), b), (a[:], b[:]))

    base = full_event(n, names, True)
    for x, y in pairs(base, full_event(n, names, True)):
        require((x == y) is True and (x != y) is False, "equal events differ: {}", names)
        require((x.particles == y.particles) is True and (x.particles != y.particles) is False, "equal sets differ: {}", names)
    ctx.ev((names, n, "equal"))
    for nm in names + (("weights",) if "edges" in names else ()):
        nc = {"pmu": 4, "color": 2, "edges": 2}.get(nm, 1)
        for i in range(n) if n < 9 else (n // 3, n - 1):
            for j in range(nc):
                other = full_event(n, names, True)
                if nm == "weights":
                    other.adj.weights[i] += 1.0
                elif nm == "final":
                    other.final[i] = not base.final.data[i]
                else:
                    data = component(other, nm).data
                    if data.dtype.names:
                        data[data.dtype.names[j]][i] += 1
                    else:
                        data[i] += 1
                for x, y in pairs(base, other):
                    require((x == y) is False and (x != y) is True, "events differing in {}[{},{}] are equal", nm, i, j)
                    if nm not in ("edges", "weights"):
                        require((x.particles == y.particles) is False, "sets differing in {} are equal", nm)
                    else:
                        require((x.particles == y.particles) is True, "sets differ with {}", nm)
                ctx.ev((names, n, nm, i, j))
        if nm == "weights":
            other = full_event(n, names, False)
        else:
            other = full_event(n, tuple(k for k in names if k != nm), True)
        require((base == other) is False and (other == base) is False, "absent {} is equal to a present one", nm)
    longer = full_event(n + 1, names, True)
    if names:
        require((base == longer) is False and (longer != base) is True, "events of different length are equal")
    ctx.outcome(len(names))


def attempt(f, *args):
    try:
        return "ok", f(*args)
    except Exception as e:  # the kind is compared
        return type(e), None


INPLACE = (op.iadd, op.isub, op.imul, op.itruediv, op.ifloordiv, op.imod, op.ipow, op.iand, op.ior, op.ixor)
OPERANDS = (2, 1.5, -0.5, True, np.float32(2.5), np.int64(3), np.uint8(3), 2**40, np.float64(2.0), 1j, np.complex128(1j), "x")
OUTS = (np.add, np.multiply, np.divide, np.less, np.equal, np.logical_and, np.floor_divide, np.hypot)


@C.family("refused casts", lambda tier: ((c, n, k) for c in CLASSES for n in (1, 2, 5) for k in range(len(OPERANDS))))
def refused(ctx, name, n, k):
    """In-place operators and out= take what the raw columns take, refuse what they refuse, and leave refused operands alone."""
    for shape in ("scalar", "array"):
        for f in INPLACE:
            a, ra = make(name, n), raw(name, n)
            other = OPERANDS[k] if shape == "scalar" else np.full(ra.shape, OPERANDS[k])
            before = frozen(a)
            kind, _ = attempt(f, ra, other)
            if name == "final" and f in (op.iand, op.ior, op.ixor):
                continue  # the mask operators have their own property
            got, res = attempt(f, a, other)
            what = (name, n, f.__name__, repr(OPERANDS[k]), shape)
            require((got == "ok") == (kind == "ok"), "{}: {} instead of {}", what, got, kind)
            if kind == "ok":
                require((res is a or name == "final") and np.array_equal(cols(res), ra, equal_nan=name == "pmu"), "{}: {} instead of {}", what, res, ra)
            else:
                require(frozen(a) == before, "{}: refused, but the operand changed to {}", what, a)
            ctx.ev(what)
        for u in OUTS:
            for target in (name, "pdg", "final", "pmu"):
                if (target == "pmu") != (name == "pmu") and target != name and raw(name, n).ndim != 1:
                    continue
                if raw(target, n).shape != raw(name, n).shape:
                    continue
                a, ra = make(name, n), raw(name, n)
                o, ro = make(target, n, 2), raw(target, n, 2)
                other = OPERANDS[k] if shape == "scalar" else np.full(ra.shape, OPERANDS[k])
                before, kept = frozen(a), frozen(o)
                kind, _ = attempt(lambda: u(ra, other, out=ro))
                got, _ = attempt(lambda: u(a, other, out=o))
                what = (name, n, u.__name__, repr(OPERANDS[k]), shape, "into", target)
                require((got == "ok") == (kind == "ok"), "{}: {} instead of {}", what, got, kind)
                if got == "ok":
                    require(kind == "ok" and np.array_equal(cols(o), ro, equal_nan=target == "pmu"), "{}: {} instead of {}", what, o, ro)
                else:
                    require(frozen(o) == kept, "{}: refused, but the output changed to {}", what, o)
                require(frozen(a) == before, "{}: the operand changed", what)
                ctx.ev(what)
    ctx.outcome((name, k))
