"""C44: data objects go through numpy as their columns."""
from mc.core import Check
from mc.util import *

C = Check(
    "C44",
    "model_checking",
    "explicit-state exploration of edit histories with a plain array as the model, in lockstep with the real objects, and exhaustive enumeration of numpy functions over every state",
    "Every class, every row count, every history of edits up to the bound, and in every state reached every conversion and every numpy function of the list "
    "(those that are not universal functions), against the same function on the plain columns.",
    "state: values of the object after a history; transitions: edits and numpy calls; every history is replayed on real objects",
    ["compared are values and shapes: whether a function returns an array or an object of the class is numpy's choice",
     "functions that need another number of columns than the class has (reshape, transpose, outer products), or only take true arrays (copyto, putmask), are outside"],
)
NCOL = {"pmu": 4, "color": 2, "edges": 2}
NS = (0, 1, 2, 3, 5, 17, 70)


def raw_of(name, n, k=0):
    c = columns(n, k)[name]
    if name == "pdg":
        return (c * (1 + np.arange(n) % 3) + 100100 * (np.arange(n) % 4 == 3)).astype(c.dtype)
    if name in ("color", "edges"):
        return (c + 70007 * (np.arange(n) % 4 == 2)[:, None]).astype(c.dtype)
    return c.copy()


def plain(obj):
    """Values handed back by numpy, whatever they are in."""
    if isinstance(obj, (tuple, list)):
        return [plain(x) for x in obj]
    if isinstance(obj, tuple(CLASSES.values())):
        return cols(obj)
    return np.asarray(obj)


def alike(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(map(alike, x, y))
    if x.shape != y.shape and x.ravel().shape != y.ravel().shape:
        return False
    x, y = x.ravel(), y.ravel()
    if x.dtype.kind in "fc" or y.dtype.kind in "fc":
        return bool(np.allclose(x, y, rtol=1e-12, atol=1e-12, equal_nan=True))
    return bool(np.array_equal(x, y))


# ------------------------------------------------------------------ conversions
CONV = {
    "asarray": np.asarray, "array": np.array, "asanyarray": np.asanyarray, "ascontiguousarray": np.ascontiguousarray, "asfortranarray": np.asfortranarray,
    "copy": np.copy, "require": lambda v: np.require(v, requirements=["C", "A"]), "atleast_1d": np.atleast_1d, "atleast_2d": np.atleast_2d, "ravel": np.ravel,
    "stacked": lambda v: np.array([v, v]), "array subok": lambda v: np.array(v, subok=True), "array ndmin": lambda v: np.array(v, ndmin=3),
    "shape": np.shape, "size": np.size, "ndim": np.ndim, "len": len, "broadcast_to": lambda v: np.broadcast_to(v, (3,) + np.shape(v)),
    "view rows": lambda v: [r for r in np.asarray(v)], "tolist": lambda v: np.asarray(v).tolist() or [],
}
DTYPES = ("<f8", "<f4", "<i8", "<i4", ">f8", ">i4", "<c16", "object", "<?")
COPIES = ("array", "copy", "array subok", "array ndmin", "stacked")
# ------------------------------------------------------------------ functions of one object
ONE = {
    "sort": np.sort, "unique": np.unique, "unique all": lambda v: np.unique(v, return_index=True, return_inverse=True, return_counts=True), "flip": np.flip,
    "roll": lambda v: np.roll(v, 1), "tile": lambda v: np.tile(v, 2), "mean": np.mean, "std": np.std, "var": np.var, "mean0": lambda v: np.mean(v, axis=0),
    "median": np.median, "percentile": lambda v: np.percentile(v, [10, 50]), "average": np.average, "ptp": np.ptp, "diff": lambda v: np.diff(v, axis=0),
    "flatnonzero": np.flatnonzero, "count_nonzero": np.count_nonzero, "where": lambda v: np.where(v), "where value": lambda v: np.where(v, 1, 0),
    "isin": lambda v: np.isin(v, [1, 2, 21]), "isclose": lambda v: np.isclose(v, 1), "allclose": lambda v: np.allclose(v, v), "array_equal": lambda v: np.array_equal(v, v),
    "zeros_like": np.zeros_like, "ones_like": np.ones_like, "full_like": lambda v: np.full_like(v, 1), "empty_like": lambda v: np.shape(np.empty_like(v)),
    "round": lambda v: np.round(v), "clip": lambda v: np.clip(v, 0, 3), "cumsum": lambda v: np.cumsum(v, axis=0), "cumprod": lambda v: np.cumprod(v, axis=0),
    "take": lambda v: np.take(v, [0, 0, -1], axis=0), "delete": lambda v: np.delete(v, 0, axis=0), "insert": lambda v: np.insert(v, 0, 1, axis=0),
    "append": lambda v: np.append(v, v, axis=0), "compress": lambda v: np.compress(np.arange(len(v)) % 2 == 0, v, axis=0), "repeat": lambda v: np.repeat(v, 2, axis=0),
    "extract": lambda v: np.extract(np.ones(np.shape(v), dtype=bool), v), "split": lambda v: np.array_split(v, 2), "argsort": lambda v: np.argsort(v, axis=0, kind="stable"),
    "lexsort": lambda v: np.lexsort((np.ravel(v),)), "histogram": lambda v: np.histogram(v, bins=3), "digitize": lambda v: np.digitize(v, [0, 2, 10]),
    "nan_to_num": np.nan_to_num, "nansum": np.nansum, "nanmax": np.nanmax, "linalg.norm": np.linalg.norm, "norm rows": lambda v: np.linalg.norm(v, axis=-1),
    "einsum": lambda v: np.einsum("i,i", np.ravel(v), np.ravel(v)), "vdot": lambda v: np.vdot(v, v), "ediff1d": np.ediff1d, "trim": lambda v: np.trim_zeros(np.ravel(v)),
    "apply": lambda v: np.apply_along_axis(np.sum, 0, v), "vectorize": lambda v: np.vectorize(abs)(v), "nditer": lambda v: [np.array(x) for x in np.nditer(np.asarray(v))],
    "ndenumerate": lambda v: [list(i) + [x] for i, x in np.ndenumerate(v)], "unique rows": lambda v: np.unique(v, axis=0), "any": np.any, "all": np.all, "max": np.max,
    "min": np.min, "sum": np.sum, "amax0": lambda v: np.max(v, axis=0), "packbits": lambda v: np.packbits(np.asarray(v) != 0), "iscomplex": lambda v: np.isreal(v),
    "cov": lambda v: np.cov(np.asarray(v, dtype=float).ravel()), "bool": lambda v: bool(np.any(v)), "asarray chk": lambda v: np.asarray_chkfinite(v), "searchsorted": lambda v: np.searchsorted(np.sort(np.ravel(v)), 2),
}
NOT_MASK = {"diff", "ptp", "mean0 ", "cumprod", "linalg.norm", "norm rows", "ediff1d", "percentile", "histogram", "clip", "round", "vectorize", "cov", "einsum", "median", "cumsum",
            "nan_to_num", "digitize", "isclose", "insert", "vdot", "average", "apply", "std", "var", "searchsorted"}
NOT_MULTI = {"argsort", "delete 1"}
NOT_STORED = {"cumprod", "cumsum"}  # wider than the stored integers
NONEMPTY = {"mean", "std", "var", "mean0", "median", "percentile", "average", "ptp", "take", "delete", "nanmax", "max", "min", "amax0", "histogram", "apply", "vectorize", "nditer",
            "unique rows", "cov", "trim", "view rows", "diff"}
TWO = {
    "concatenate": lambda a, b: np.concatenate([a, b]), "vstack": lambda a, b: np.vstack([a, b]) if np.ndim(a) == 2 else np.hstack([a, b]), "stack": lambda a, b: np.stack([a, b]),
    "where": lambda a, b: np.where(np.arange(len(a)).reshape((-1,) + (1,) * (np.ndim(a) - 1)) % 2 == 0, a, b), "isin": lambda a, b: np.isin(a, b), "setdiff": lambda a, b: np.setdiff1d(a, b),
    "union": lambda a, b: np.union1d(a, b), "intersect": lambda a, b: np.intersect1d(a, b), "array_equal": lambda a, b: np.array_equal(a, b), "append": lambda a, b: np.append(a, b, axis=0),
    "select": lambda a, b: np.select([np.asarray(a) == np.asarray(b)], [a], default=b), "choose": lambda a, b: np.choose(np.zeros(np.shape(a), dtype=int), [a, b]), "allclose": lambda a, b: np.allclose(a, b),
    "shares": lambda a, b: np.shares_memory(a, b), "column_stack": lambda a, b: np.column_stack([a, b]), "block": lambda a, b: np.block([[a], [b]]) if np.ndim(a) == 2 else np.block([a, b]),
    "interleave": lambda a, b: np.concatenate([a, b])[np.argsort(np.tile(np.arange(len(a)), 2), kind="stable")], "copyto": lambda a, b: _copyto(a, b), "assign": lambda a, b: _assign(a, b),
}


def _copyto(a, b):
    out = np.zeros(np.shape(a), dtype=np.asarray(a).dtype)
    np.copyto(out, a)
    np.copyto(out[1:], b[1:] if isinstance(b, np.ndarray) else np.asarray(b)[1:])
    return out


def _assign(a, b):
    out = np.zeros((2,) + np.shape(a), dtype=np.asarray(a).dtype)
    out[0] = a
    out[1] = b
    return out


# ------------------------------------------------------------------ edits
def e_set(o, r):
    o.data = (r[::-1]).copy()
    return r[::-1].copy()


def e_add(o, r):
    o += 1
    return r + np.asarray(1, dtype=r.dtype)


def e_neg(o, r):
    np.negative(o, out=o)
    return -r


def e_slice(o, r):
    return o[1:], r[1:]


def e_rev(o, r):
    return o[::-1], r[::-1]


def e_copy(o, r):
    return o.copy(), r.copy()


def e_view(o, r):
    """A write through the array that numpy is given."""
    v = np.asarray(o)
    if len(v):
        v[-1] = v[0]
        r = r.copy()
        r[-1] = r[0]
    return r


def e_field(o, r):
    """A write through the structured data."""
    d = o.data
    if len(d):
        r = r.copy()
        if d.dtype.names:
            d[d.dtype.names[-1]][0] = 7
            r[0, -1] = 7
        else:
            d[0] = 1
            r[0] = 1
    return r


def e_flip(o, r):
    if len(r):
        o[0] = not r[0]
        r = r.copy()
        r[0] = not r[0]
    return r


EDITS = {"set": e_set, "add": e_add, "negative": e_neg, "slice": e_slice, "reverse": e_rev, "copy": e_copy, "view": e_view, "field": e_field, "flip": e_flip}


def edits_of(name):
    if name == "final":
        return ("set", "slice", "reverse", "copy", "view", "field", "flip")
    return tuple(e for e in EDITS if e != "flip" and not (e == "set" and name == "edges"))


def apply(o, r, hist):
    for e in hist:
        res = EDITS[e](o, r)
        if isinstance(res, tuple):
            o, r = res
        else:
            r = res
    return o, r


def gen_hist(tier):
    for name in CLASSES:
        for d in range(4 if tier == THOROUGH else 3):
            for hist in it.product(edits_of(name), repeat=d):
                for n in NS if d < 2 else (0, 1, 3, 17):
                    yield name, n, hist


@C.family("conversions", gen_hist)
def conversions(ctx, name, n, hist):
    def fresh():
        r = raw_of(name, n)
        return apply(CLASSES[name](r.copy()), r, hist)

    o, r = fresh()
    what = f"{name} of {n} rows after {hist}"
    for k, f in CONV.items():
        got, want = plain(f(o)), plain(f(r))
        if len(r) == 0 and k in NONEMPTY:
            continue
        require(alike(got, want) and (k in ("tolist", "view rows") or getattr(got, "shape", None) == getattr(want, "shape", None)), "{} of {} is {} instead of {}", k, what, got, want)
        ctx.step()
    for dt in DTYPES:
        for f in (np.asarray, np.array):
            got, want = f(o, dtype=dt), r.astype(dt)
            require(got.dtype == want.dtype and got.shape == want.shape and alike(np.asarray(got, dtype=complex), np.asarray(want, dtype=complex)), "{} as {} is {} instead of {}", what, dt, got, want)
        ctx.step(2)
    require(np.asarray(o).dtype == r.dtype, "{} has type {}", what, np.asarray(o).dtype)
    require(same(cols(o), r), "{} holds {} instead of {} after conversions", what, cols(o), r)
    if len(r):
        for k in COPIES:
            c = np.asarray(CONV[k](o))
            require(not np.shares_memory(c, np.asarray(o)), "{} of {} shares its memory", k, what)
            c[...] = 0
            require(same(cols(o), r), "writing into {} changed {}", k, what)
        require(np.shares_memory(np.asarray(o), o.data), "array and data of {} are different memory", what)
        v = np.asarray(o)
        if v.flags.writeable:
            v[0] = 0
            r[0] = 0
            require(same(cols(o), r), "a write into the array of {} gives {} instead of {}", what, cols(o), r)
            require(same(np.asarray(o), r) and same(np.asarray(o.data[:1]).view(r.dtype).ravel(), r[:1].ravel()), "views of {} disagree after a write", what)
    ctx.state((name, n, hist))
    ctx.ev((name, n, hist) if n else None)
    ctx.trace()
    ctx.outcome(name)


def usable(f, name, n):
    if name == "final" and f in NOT_MASK or n == 0 and f in NONEMPTY:
        return False
    if f in NOT_STORED and (name != "pmu" and n > 3 or n > 20):
        return False
    return not (name in NCOL and f in NOT_MULTI)


@C.family("functions", lambda tier: ((name, n, hist, f) for name in CLASSES for n in NS
                                     for hist in [()] + [(e,) for e in edits_of(name)] + ([h for h in it.product(edits_of(name), repeat=2)] if tier == THOROUGH else [])
                                     for f in ("one", "two")))
def functions(ctx, name, n, hist, which):
    r = raw_of(name, n)
    o, r = apply(CLASSES[name](r.copy()), r, hist)
    before = frozen(o)
    what = f"{name} of {n} rows after {hist}"
    if which == "one":
        for k, f in ONE.items():
            if not usable(k, name, len(r)):
                continue
            want = plain(f(r.copy()))
            try:
                res = f(o)
            except Exception as e:
                fail(f"{k} of {what} fails: {e!r}"[:300])
            got = plain(res)
            if isinstance(res, CLASSES[name]):
                want = want.astype(r.dtype)  # numpy hands it back in the class, which has its own type of element
            require(alike(got, want), "{} of {} is {} instead of {}", k, what, got, want)
            ctx.ev((name, n, hist, k) if n else None)
            ctx.step()
    else:
        r2 = raw_of(name, n, 1)
        o2, r2 = apply(CLASSES[name](r2.copy()), r2, hist)
        for k, f in TWO.items():
            if k == "column_stack" and name == "final":
                continue
            for tag, (a, b), (ra, rb) in (("objects", (o, o2), (r, r2)), ("object and array", (o, r2.copy()), (r, r2)), ("array and object", (r.copy(), o2), (r, r2)),
                                          ("itself", (o, o), (r, r)), ("two selections", (o[::2], o2[::2]), (r[::2], r2[::2]))):
                if k == "shares" and tag == "itself" and not len(r):
                    continue
                want = plain(f(ra.copy(), rb.copy())) if not (k == "shares" and tag == "itself") else np.asarray(True)
                try:
                    got = plain(f(a, b))
                except Exception as e:
                    fail(f"{k} of {tag} of {what} fails: {e!r}"[:300])
                require(alike(got, want), "{} of {} ({}) is {} instead of {}", k, what, tag, got, want)
                ctx.ev((name, n, hist, k, tag) if n else None)
                ctx.step()
        require(same(cols(o2), r2), "the second operand changed")
    require(frozen(o) == before, "{} changed", what)
    ctx.outcome((name, which))


# ------------------------------------------------------------------ groups
def trees(n):
    m = [np.arange(n) % 2 == 0, np.arange(n) % 3 == 1, np.arange(n) < n // 2]
    for mode in ("or", "and"):
        f = np.logical_or if mode == "or" else np.logical_and
        yield G({"a": m[0], "b": m[1]}, mode), f(m[0], m[1])
        yield G({"a": m[0]}, mode), m[0]
        for inner in ("or", "and"):
            g = np.logical_or if inner == "or" else np.logical_and
            yield G({"a": m[0], "b": G({"c": m[1], "d": m[2]}, inner)}, mode), f(m[0], g(m[1], m[2]))


@C.family("groups", lambda tier: ((n, k) for n in (1, 2, 3, 5, 17, 70) for k in range(8)))
def groups(ctx, n, k):
    g, r = list(trees(n))[k]
    before = frozen(g)
    for tag, f in {**CONV, **ONE}.items():
        if tag in NOT_MASK | {"len", "view rows", "bool", "append", "delete", "take", "compress", "repeat", "split"} or tag in CONV and tag not in ("asarray", "array", "shape", "size", "ndim", "copy"):
            continue
        if tag not in ("asarray", "array", "shape", "size", "ndim", "copy", "flatnonzero", "count_nonzero", "where", "where value", "any", "all", "sum", "mean", "zeros_like", "extract", "flip", "roll",
                       "tile", "array_equal", "isin", "sort", "unique", "max", "min"):
            continue
        got, want = plain(f(g)), plain(f(r.copy()))
        require(alike(got, want), "{} of a group is {} instead of {}", tag, got, want)
        ctx.ev((n, k, tag))
    arr = np.array(g)
    arr[...] = ~arr
    require(frozen(g) == before and same(np.asarray(g), r), "writing into a copy changed the group")
    for name in CLASSES:
        o, ro = CLASSES[name](raw_of(name, n)), raw_of(name, n)
        require(same(cols(o[np.asarray(g)]), ro[r]) and same(np.asarray(o)[np.asarray(g)], ro[r]), "{} selected by a group as an array", name)
        ctx.ev((n, k, name))
    ctx.outcome(k)
