"""C06: input layout never changes the stored values."""
from mc.core import Check
from mc.util import *

C = Check(
    "C06",
    "exploration",
    "exhaustive enumeration of input layouts (field order, alias, dtype, byte and memory order, strides, rows) against the plain rows",
    "Every permutation of the momentum fields with every combination of aliases, every dtype and layout of plain "
    "columns, for row counts 0 to 5 including those equal to the column count, through constructor, setter and composites.",
    "cases: (class, row count, layout); all non-trivial, as every column and row holds distinct values",
    ["supplied values are representable in both the given and the stored type"],
)
NCOL = {"pdg": 1, "pmu": 4, "color": 2, "helicity": 1, "status": 1, "final": 1, "edges": 2}
STORED = {"pdg": "<i4", "pmu": "<f8", "color": "<i4", "helicity": "<i2", "status": "<i2", "final": "?", "edges": "<i4"}
FIELDS = {"pmu": ("x", "y", "z", "e"), "color": ("color", "anticolor"), "edges": ("src", "dst")}
ALIASES = {
    "pmu": (("x", "px"), ("y", "py"), ("z", "pz"), ("e", "pe", "E")),
    "color": (("color",), ("anticolor",)),
    "edges": (("src", "in"), ("dst", "out")),
}


def rows(name, n):
    """Integer-valued rows which fit int8 and are distinct in every entry."""
    if name == "final":
        return np.array([i % 3 == 0 for i in range(n)], dtype=bool)
    if NCOL[name] == 1:
        return np.array([(-1) ** i * (3 * i + 1) for i in range(n)], dtype=int)
    return np.array([[(-1) ** (i + j) * (i * NCOL[name] + j + 1) for j in range(NCOL[name])] for i in range(n)]).reshape(
        n, NCOL[name]
    )


def check_obj(ctx, name, obj, want, how):
    require(type(obj) is CLASSES[name], "{}: type {}", how, type(obj))
    raw = np.asarray(obj.data)
    if NCOL[name] > 1:
        require(raw.dtype.names == FIELDS[name], "{}: fields {}", how, raw.dtype.names)
        require(raw.shape == (len(want),), "{}: shape {}", how, raw.shape)
        for j, nm in enumerate(FIELDS[name]):
            require(raw.dtype[nm] == np.dtype(STORED[name]), "{}: type of {} is {}", how, nm, raw.dtype[nm])
            require(same(raw[nm], want[:, j]), "{}: column {} is {} instead of {}", how, nm, raw[nm], want[:, j])
    else:
        require(raw.dtype == np.dtype(STORED[name]), "{}: stored type {}", how, raw.dtype)
        require(same(raw, want), "{}: values {} instead of {}", how, raw, want)
    require(len(obj) == len(want), "{}: length {}", how, len(obj))
    if name == "pmu" and len(want):
        require(same(obj.x, want[:, 0]) and same(obj.y, want[:, 1]) and same(obj.z, want[:, 2])
                and same(obj.energy, want[:, 3]), "{}: components", how)
        require(close(obj.pt, np.hypot(want[:, 0].astype(float), want[:, 1])), "{}: transverse momentum", how)
    if name == "color" and len(want):
        require(same(obj.color, want[:, 0]) and same(obj.anticolor, want[:, 1]), "{}: components", how)
    # reductions and comparisons work on rows
    if len(want):
        require(cols(obj).tolist() == want.tolist(), "{}: rows", how)
        require(same(cols(obj[-1]), want[-1:]) or NCOL[name] == 1, "{}: last row {}", how, cols(obj[-1]))
        require(obj.copy().serialize() == obj.serialize(), "{}: serialised copy", how)


def feed(ctx, name, values, want, how):
    """Constructor, setter, composite constructors."""
    before = frozen(values) if isinstance(values, np.ndarray) and not values.dtype.hasobject else None
    check_obj(ctx, name, CLASSES[name](values), want, ("construct",) + how)
    if name != "edges":
        obj = CLASSES[name](rows(name, 3))
        obj.data = values
        check_obj(ctx, name, obj, want, ("setter",) + how)
        obj = gcl.ParticleSet.from_numpy(**{name: values})
        check_obj(ctx, name, getattr(obj, name), want, ("set",) + how)
    obj = gcl.Graphicle.from_numpy(**{name: values})
    check_obj(ctx, name, component(obj, name), want, ("event",) + how)
    require(len(obj) == len(want), "length of the event {}", how)
    if before is not None:
        require(frozen(values) == before, "the input array was modified {}", how)
    ctx.ev((name, len(want)) + how)


def layouts(arr, dtypes):
    """(tag, array) with the same logical content."""
    for dt in dtypes:
        with np.errstate(all="ignore"):
            a = arr.astype(dt)
        if arr.dtype.kind in "iub" and not np.array_equal(a, arr):
            continue  # the type cannot hold these values
        yield ("C", dt), np.ascontiguousarray(a)
        yield ("F", dt), np.asfortranarray(a)
        if a.ndim == 2:
            yield ("T", dt), np.ascontiguousarray(a.T).T
            wide = np.full((len(a), a.shape[1] + 2), 99, dtype=dt)
            wide[:, 1:-1] = a
            yield ("inner", dt), wide[:, 1:-1]
            gap = np.full((len(a), 2 * a.shape[1]), 99, dtype=dt)
            gap[:, ::2] = a
            yield ("colstride", dt), gap[:, ::2]
            yield ("colrev", dt), np.ascontiguousarray(a[:, ::-1])[:, ::-1]
        tall = np.full((2 * len(a),) + a.shape[1:], 99, dtype=dt)
        tall[::2] = a
        yield ("rowstride", dt), tall[::2]
        yield ("rowrev", dt), np.ascontiguousarray(a[::-1])[::-1]
        frz = a.copy()
        frz.flags.writeable = False
        yield ("readonly", dt), frz


NUM = ["<i1", "<i2", "<i4", "<i8", ">i2", ">i4", ">i8", "<f2", "<f4", "<f8", ">f4", ">f8", "<f16"]


def gen_plain(tier):
    ns = (0, 1, 2, 3, 4, 5) if tier != THOROUGH else (0, 1, 2, 3, 4, 5, 8, 61)
    for name in NCOL:
        for n in ns:
            if n * NCOL[name] > 120:
                continue
            yield name, n


@C.family("plain columns", gen_plain)
def plain(ctx, name, n):
    want = rows(name, n)
    dts = ["?"] + NUM if name == "final" else NUM
    for tag, arr in layouts(want, dts):
        feed(ctx, name, arr, want, tag)
    as_list = want.tolist()
    feed(ctx, name, as_list, want, ("list",))
    feed(ctx, name, tuple(map(tuple, as_list)) if NCOL[name] > 1 else tuple(as_list), want, ("tuple",))
    feed(ctx, name, list(want), want, ("list of arrays",))
    if n:
        src = CLASSES[name](want)
        feed(ctx, name, src.data, want, ("own data",))
        feed(ctx, name, src, want, ("own object",))
        feed(ctx, name, list(src), want, ("own elements",))
        feed(ctx, name, src.serialize(), want, ("own serialisation",))
    if NCOL[name] == 1:
        feed(ctx, name, want.reshape(-1, 1), want, ("column",))
        feed(ctx, name, want.reshape(-1, 1).tolist(), want, ("column list",))
    ctx.outcome((name, n))


@C.family("single rows", lambda tier: ((nm, k) for nm in FIELDS for k in range(4)))
def single(ctx, name, k):
    want = rows(name, 4)[k : k + 1]
    for tag, arr in layouts(want[0], NUM):
        feed(ctx, name, arr, want, ("flat",) + tag)
    feed(ctx, name, want[0].tolist(), want, ("flat list",))
    feed(ctx, name, tuple(want[0].tolist()), want, ("flat tuple",))
    st = CLASSES[name](rows(name, 4)).data
    feed(ctx, name, st[k : k + 1], want, ("structured slice",))


def structs(name, want, order, alias, dts, tag):
    """Structured arrays with the fields in ``order`` under ``alias``."""
    fields = FIELDS[name]
    pairs = [(alias[j], dts[j]) for j in order]
    dtype = np.dtype(pairs)
    a = np.zeros(len(want), dtype=dtype)
    for j in range(len(fields)):
        a[alias[j]] = want[:, j]
    if tag == "strided":
        b = np.zeros(2 * len(want), dtype=dtype)
        b[::2] = a
        return b[::2]
    if tag == "reversed":
        return a[::-1].copy()[::-1]
    if tag == "aligned":
        return a.astype(np.dtype(pairs, align=True))
    if tag == "recarray":
        return a.view(np.recarray)
    if tag == "subfields":  # a view with gaps, as from multi-field selection
        big = np.zeros(len(want), dtype=pairs[:1] + [("junk", "<i8")] + pairs[1:])
        for j in range(len(fields)):
            big[alias[j]] = want[:, j]
        return big[[nm for nm, _ in pairs]]
    return a


def gen_struct(tier):
    for name in FIELDS:
        for n in range(6) if tier != THOROUGH else (0, 1, 2, 3, 4, 5, 7, 30):
            for order in it.permutations(range(NCOL[name])):
                yield name, n, order


@C.family("structured", gen_struct)
def structured(ctx, name, n, order):
    want = rows(name, n)
    k = NCOL[name]
    uniform = [(d,) * k for d in ("<f8", ">f8", "<f4", "<i4", ">i2", "<i8")]
    mixed = [tuple(("<f8", "<f4", "<i4", "<i2")[:k]), tuple((">i4", "<f8", "<i2", ">f4")[:k])]
    if n * k > 120:
        uniform, mixed = uniform[:1], mixed[:1]
        want = want % 100
    for alias in it.product(*ALIASES[name]):
        for dts in uniform[:1]:
            feed(ctx, name, structs(name, want, order, alias, dts, "plain"), want, (order, alias, dts))
    alias = tuple(a[-1] for a in ALIASES[name])
    for al in (FIELDS[name], alias):
        for dts in uniform[1:] + mixed:
            feed(ctx, name, structs(name, want, order, al, dts, "plain"), want, (order, al, dts))
        for dts in (uniform[0], uniform[3], mixed[0]):
            for tag in ("strided", "reversed", "aligned", "recarray", "subfields"):
                feed(ctx, name, structs(name, want, order, al, dts, tag), want, (order, al, dts, tag))
    ctx.outcome((name, n))


@C.family("data frames", lambda tier: ((o, n) for o in it.permutations(range(4)) for n in (1, 2, 4, 5)))
def frames(ctx, order, n):
    """Column-major blocks, as data frame libraries hand them out."""
    import pandas as pd

    want = rows("pmu", n)
    df = pd.DataFrame({"xyze"[j]: want[:, j].astype(float) for j in order})
    feed(ctx, "pmu", df.to_records(index=False), want, ("records", order))
    feed(ctx, "pmu", df[list("xyze")].values, want, ("values", order))
    feed(ctx, "pmu", df[list("xyze")].to_numpy(), want, ("to_numpy", order))
    edf = pd.DataFrame({k: rows("edges", n)[:, j] for j, k in ((1, "out"), (0, "in"))})
    feed(ctx, "edges", edf.to_records(index=False), rows("edges", n), ("records", order))
    feed(ctx, "edges", edf[["in", "out"]].values, rows("edges", n), ("values", order))


def gen_bad(tier):
    for name, k in NCOL.items():
        for n in range(1, 6):
            for m in range(1, 7):
                if m == k or (m == 1 and (k == 1 or n == k)):
                    continue
                yield name, n, m


@C.family("wrong columns", gen_bad)
def wrong(ctx, name, n, m):
    base = np.arange(n * m).reshape(n, m)
    good = rows(name, 3)
    for arr in (base, base.astype(float), np.asfortranarray(base), base.tolist()):
        require_raises(ValueError, f"{name} from shape {(n, m)}", CLASSES[name], arr)
        if name != "edges":
            obj = CLASSES[name](good)
            require_raises(ValueError, f"{name} set to shape {(n, m)}", setattr, obj, "data", arr)
            require(same(cols(obj), good), "a rejected assignment changed {}", name)
        ctx.ev((name, n, m))
    if NCOL[name] > 1 and n == 1 and m != NCOL[name]:
        require_raises(ValueError, f"{name} from a flat row of {m}", CLASSES[name], base[0])
        if m > 1:
            st = np.zeros(2, dtype=[(f, "<f8") for f in "abcdef"[:m]])
            require_raises((ValueError, KeyError), f"{name} from {m} unknown fields", CLASSES[name], st)


@C.family("weights", lambda tier: ((n,) for n in range(6)))
def weights(ctx, n):
    want = rows("edges", n)
    w = np.arange(n) * 2.0 + 1.0
    for tag, arr in layouts(w, NUM):
        a = gcl.AdjacencyList(want, arr)
        require(a.weights.dtype == np.dtype("<f8") and same(a.weights, w), "weights {} from {}", a.weights, tag)
        b = gcl.Graphicle.from_numpy(edges=want, weights=arr).adj
        require(same(b.weights, w) and same(cols(b), want), "weights {} from {}", b.weights, tag)
        ctx.ev((n, tag))
    require(same(gcl.AdjacencyList(want, w.tolist()).weights, w), "weights from a list")
    for name in CLASSES:
        for empty in ([], (), np.array([]), np.zeros((0, NCOL[name])), np.zeros(0)):
            obj = CLASSES[name](empty)
            require(len(obj) == 0 and not obj, "{} from an empty input", name)
            require(len(CLASSES[name]()) == 0, "default of {}", name)
            ctx.ev()


EXTREMES = {
    "pdg": (2**31 - 1, -(2**31), 0, 1000010020, -1000010020, 16777217, 300, -300, 70000),
    "color": (2**31 - 1, -(2**31), 0, 16777217, 501, -501, 300, 70000),
    "edges": (2**31 - 1, -(2**31) + 1, 0, 16777217, -16777219, 300, -70000, 1),
    "status": (32767, -32768, 0, 300, -300, 8191, 255, 128),
    "helicity": (32767, -32768, 0, 300, -300, 255, 128, 9),
    "pmu": (1.7976931348623157e308, -5e-324, 1e-310, 0.1, -0.0, math.inf, -math.inf, math.nan, 2.0**53 + 2, 1 / 3, 16777217.0, 1e39),
}


@C.family("extreme values", lambda tier: ((nm, n) for nm in EXTREMES for n in range(1, 6)))
def extremes(ctx, name, n):
    """Values near the limits of the stored type, in every layout wide enough."""
    k = NCOL[name]
    pool = EXTREMES[name]
    wide = ("<f8", ">f8", "<f16") if name == "pmu" else ("<i4", ">i4", "<i8", ">i8", "<f8") if k == 2 or name == "pdg" else ("<i2", ">i2", "<i4", ">i4", "<i8", "<f4", "<f8")
    for shift in range(len(pool)):
        flat = [pool[(shift + j) % len(pool)] for j in range(n * k)]
        want = np.array(flat, dtype="<f8" if name == "pmu" else "<i8").reshape((n, k) if k > 1 else (n,))
        for tag, arr in layouts(want, wide):
            feed_quiet(ctx, name, arr, want, tag)
        feed_quiet(ctx, name, want.tolist(), want, ("list",))
        if k > 1:
            for order in it.permutations(range(k)):
                for dt in wide[:3]:
                    st = structs(name, want, order, FIELDS[name], (dt,) * k, "plain")
                    feed_quiet(ctx, name, st, want, ("structured", order, dt))


def feed_quiet(ctx, name, values, want, how):
    """As ``feed``, comparing bits, without derived quantities."""
    objs = [CLASSES[name](values), component(gcl.Graphicle.from_numpy(**{name: values}), name)]
    if name != "edges":
        obj = CLASSES[name](rows(name, 3))
        obj.data = values
        objs.append(obj)
    stored = want.astype(STORED[name])
    for obj in objs:
        got = cols(obj)
        require(got.dtype == stored.dtype and got.tobytes() == np.ascontiguousarray(stored).tobytes() or
                (name == "pmu" and same(got, stored) and same(np.signbit(got) & ~np.isnan(got), np.signbit(stored) & ~np.isnan(stored))),
                "{} stored as {} instead of {} ({})", name, got.tolist(), stored.tolist(), how)
    ctx.ev((name, want.tobytes(), how))


@C.family("sizes", lambda tier: ((nm, n) for nm in NCOL for n in (16, 31, 64, 100, 257, 1000) + ((4096, 20000) if tier == THOROUGH else ())))
def sizes(ctx, name, n):
    k = NCOL[name]
    i = np.arange(n)
    if name == "final":
        want = (i * 7) % 5 < 2
    elif k == 1:
        want = (-1) ** i * (i + 1)
    else:
        want = np.stack([(-1) ** (i + j) * (k * i + j + 1) for j in range(k)], axis=-1)
    for tag, arr in layouts(want, ("?", "<i8") if name == "final" else ("<i4", ">i8", "<f8", ">f4")):
        feed(ctx, name, arr, want, tag)
    feed(ctx, name, want.tolist(), want, ("list",))
    if k > 1:
        for order in it.islice(it.permutations(range(k)), 0, None, 5 if k == 4 else 1):
            for tag in ("plain", "strided", "aligned", "subfields"):
                feed(ctx, name, structs(name, want, order, FIELDS[name], ("<f8",) * k, tag), want, ("structured", order, tag))
