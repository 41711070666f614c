"""C04: indexing an event keeps every attribute on the same particle."""
from mc.core import Check
from mc.util import *

C = Check(
    "C04",
    "exploration",
    "exhaustive enumeration of lengths, attribute subsets, key forms and two-key chains against plain row selection",
    "All keys of each form for lengths up to the bound on every array class; every attribute subset with a covering "
    "key set on particle sets and events; all two-key chains from the covering set. Large lengths are probed.",
    "cases: (length, class or attribute subset, key chain); non-trivial when the selection is neither empty nor the identity",
    ["rows are distinguishable in every column, so any misplacement is visible"],
)


def all_keys(n, rich):
    """(form, payload) pairs; payloads are hashable."""
    for i in range(-n, n):
        yield "int", i
        yield "npint", i
    ends = [None] + list(range(-n - 1, n + 2)) if rich else [None, 1, -1, n]
    for s in ends:
        for e in ends:
            for st in (None, 2, -1, -2) if rich else (None, -1):
                yield "slice", (s, e, st)
    for b in bits(n):
        for form in ("boolarr", "boollist", "mask", "andgroup", "orgroup") if (rich or n <= 3) else ("mask", "orgroup"):
            if n or form not in ("boollist",):
                yield form, b
    for r in range(0 if not rich else 0, 3 if rich else 2):
        for idx in it.product(range(-n, n), repeat=r):
            yield "list", idx
            yield "intarr", idx
    if n > 2:
        yield "intarr", tuple(range(n)) + (0,) * 3
        yield "intarr", tuple(reversed(range(n)))
    yield "ellipsis", None


def real_key(form, p):
    if form == "int":
        return p
    if form == "npint":
        return np.int64(p)
    if form == "slice":
        return slice(*p)
    if form == "boolarr":
        return np.array(p, dtype=bool)
    if form == "boollist":
        return list(p)
    if form == "mask":
        return M(list(p))
    if form == "andgroup":
        alt = np.arange(len(p)) % 2 == 0
        return G({"u": np.array(p, dtype=bool) | alt, "v": np.array(p, dtype=bool) | ~alt}, "and")
    if form == "orgroup":
        alt = np.arange(len(p)) % 2 == 0
        return G({"u": np.array(p, dtype=bool) & alt, "v": np.array(p, dtype=bool) & ~alt}, "or")
    if form == "list":
        return list(p) if p else np.array([], dtype=int)
    if form == "ellipsis":
        return Ellipsis
    return np.array(p, dtype=np.int32 if len(p) % 2 else np.int64)


def positions(form, p, n):
    if form in ("int", "npint"):
        return [p % n]
    if form == "slice":
        return list(range(n))[slice(*p)]
    if form in ("list", "intarr"):
        return [i % n for i in p]
    if form == "ellipsis":
        return list(range(n))
    return [i for i, b in enumerate(p) if b]


def rows(obj):
    return [tuple(r) if isinstance(r, (list, tuple)) else r for r in cols(obj).tolist()]


def pyrows(obj):
    return [tuple(r) if isinstance(r, tuple) else r for r in obj]


def check_array(name, got, want_col, what):
    require(isinstance(got, CLASSES[name]), "{}: {} is not a {}", what, type(got), CLASSES[name].__name__)
    want = [tuple(r) if isinstance(r, list) else r for r in want_col.tolist()]
    require(rows(got) == want, "{}: {} holds {} instead of {}", what, name, rows(got), want)
    require(len(got) == len(want), "{}: length {} of {} rows", what, len(got), len(want))
    require(bool(got) == (len(want) > 0), "{}: truth of {} rows", what, len(want))
    require(pyrows(got) == want, "{}: iteration gives {}", what, pyrows(got))


FIELDS = {"pmu": ("x", "y", "z", "e"), "color": ("color", "anticolor"), "edges": ("src", "dst")}


def gen_arrays(tier):
    top = 5 if tier == THOROUGH else 4
    for n in range(0, top + 1):
        for name in ATTRS:
            for first in all_keys(n, True):
                yield n, name, first


@C.family("arrays", gen_arrays)
def arrays(ctx, n, name, key):
    col = columns(n)[name]
    kwargs = {}
    if name == "edges":
        kwargs["weights"] = np.arange(n) * 0.5 + 0.125
    obj = CLASSES[name](col.copy(), **kwargs)
    before = frozen(obj)
    check_array(name, obj, col, "whole")
    pos = positions(*key, n)
    got = obj[real_key(*key)]
    ctx.ev((n, name, key) if pos and pos != list(range(n)) else None)
    ctx.outcome((key[0], len(pos)))
    check_array(name, got, col[pos] if len(pos) else col[:0], f"{name}[{n}] at {key}")
    if name in FIELDS:
        for row, want in zip(got, col[pos].tolist()):
            require(row._fields == FIELDS[name], "row fields {}", row._fields)
            require([getattr(row, f) for f in FIELDS[name]] == want, "row {} instead of {}", row, want)
        require(got.data.dtype.names == FIELDS[name], "field names {}", got.data.dtype.names)
        for c, f in enumerate(FIELDS[name]):
            require(got.data[f].tolist() == [r[c] for r in col[pos].tolist()], "field {} after {}", f, key)
    if name == "edges":
        require(got.weights.tolist() == [w for w in (kwargs["weights"][pos] if pos else [])], "weights after {}: {}", key, got.weights)
        bare = gcl.AdjacencyList(col.copy())[real_key(*key)]
        require(bare.weights.size == 0 and rows(bare) == rows(got), "unweighted edges after {}", key)
    if name == "pmu":
        for c, f in enumerate(("x", "y", "z", "energy")):
            require(getattr(got, f).tolist() == [r[c] for r in col[pos].tolist()], "{} after {}", f, key)
    require(frozen(obj) == before, "indexing with {} changed the original", key)


def build(n, attrs, weights, variant=0):
    c = columns(n, variant)
    kwargs = {a: c[a].copy() for a in attrs}
    if weights:
        kwargs["weights"] = np.arange(n) * 0.5 + 0.125 + variant
    return gcl.Graphicle.from_numpy(**kwargs)


def check_event(ev, n, attrs, weights, pos, what):
    c = columns(n)
    require(isinstance(ev, gcl.Graphicle), "{}: {}", what, type(ev))
    check_set(ev.particles, n, [a for a in attrs if a != "edges"], pos, what)
    if "edges" in attrs:
        check_array("edges", ev.adj, c["edges"][pos] if pos else c["edges"][:0], what)
        want = (np.arange(n) * 0.5 + 0.125)[pos].tolist() if weights and pos else []
        require(ev.adj.weights.tolist() == want, "{}: weights {} instead of {}", what, ev.adj.weights.tolist(), want)
        require(cols(ev.edges).tolist() == c["edges"][pos].tolist() if pos else True, "{}: edges property", what)
    else:
        require(len(ev.adj) == 0, "{}: edges appeared", what)
    present = len(pos) if attrs else 0
    require(len(ev) == present, "{}: length {} instead of {}", what, len(ev), present)
    require(bool(ev) == (present > 0), "{}: truth", what)


def check_set(ps, n, attrs, pos, what):
    c = columns(n)
    require(isinstance(ps, gcl.ParticleSet), "{}: {}", what, type(ps))
    for a in ATTRS[:-1]:
        obj = getattr(ps, a)
        if a in attrs:
            check_array(a, obj, c[a][pos] if pos else c[a][:0], what)
        else:
            require(len(obj) == 0, "{}: {} appeared", what, a)
    present = len(pos) if attrs else 0
    require(len(ps) == present, "{}: particle set length {} instead of {}", what, len(ps), present)
    require(bool(ps) == (present > 0), "{}: particle set truth", what)


def gen_comp(tier):
    sizes = (0, 1, 2, 3, 4) if tier == THOROUGH else (0, 1, 2, 4)
    for n in sizes:
        for attrs in subsets(ATTRS):
            for weights in (False, True) if "edges" in attrs else (False,):
                yield n, attrs, weights


@C.family("composites", gen_comp)
def composites(ctx, n, attrs, weights):
    ev = build(n, attrs, weights)
    before = frozen(ev)
    full = len(attrs) in (0, 1, 7) or attrs[:1] == ("pmu",)
    for key in all_keys(n, full and n <= 3):
        pos = positions(*key, n)
        rk = real_key(*key)
        what = f"event of {n} with {attrs} at {key}"
        ctx.ev((n, attrs, weights, key) if pos and pos != list(range(n)) and attrs else None)
        check_event(ev[rk], n, attrs, weights, pos, what)
        check_set(ev.particles[rk], n, [a for a in attrs if a != "edges"], pos, what)
        ctx.outcome((key[0], len(attrs)))
    require(frozen(ev) == before, "indexing changed the event with {}", attrs)


def gen_chain(tier):
    for n in (2, 3, 4) + ((5,) if tier == THOROUGH else ()):
        for attrs in (ATTRS, ("pmu", "edges"), ("final", "status"), ("color",)):
            for k1 in all_keys(n, False):
                yield n, attrs, k1


@C.family("two-key chains", gen_chain)
def chains(ctx, n, attrs, k1):
    ev = build(n, attrs, "edges" in attrs)
    p1 = positions(*k1, n)
    once = ev[real_key(*k1)]
    for k2 in all_keys(len(p1), False):
        p2 = [p1[i] for i in positions(*k2, len(p1))]
        ctx.ev((n, attrs, k1, k2) if p2 else None)
        if not p1:
            continue
        check_event(once[real_key(*k2)], n, attrs, "edges" in attrs, p2, f"event of {n} at {k1} then {k2}")
    ctx.outcome(len(p1))


def gen_scale(tier):
    for n in (10, 59, 60, 61, 64, 127, 128, 255, 256, 257, 1000, 4099, 33000) + ((66000,) if tier == THOROUGH else ()):
        yield (n,)


@C.family("long records", gen_scale)
def scale(ctx, n):
    ev = build(n, ATTRS, True)
    every3 = tuple(i % 3 == 0 for i in range(n))
    for key in (
        ("boolarr", every3), ("mask", every3), ("orgroup", every3), ("andgroup", every3), ("slice", (3, -2, 2)),
        ("intarr", tuple((i * 7) % n for i in range(2 * n))), ("int", n - 1), ("list", (0, n - 1, n // 2)), ("slice", (None, None, -1)),
        ("intarr", (-1, -n, n - 1)),
    ):
        ctx.ev((n, key[0]))
        check_event(ev[real_key(*key)], n, ATTRS, True, positions(*key, n), f"event of {n} at {key[0]}")


def overwrite(obj):
    """Writes into every buffer of an array, particle set or event."""
    if isinstance(obj, gcl.Graphicle):
        overwrite(obj.particles)
        overwrite(obj.adj)
    elif isinstance(obj, gcl.ParticleSet):
        for a in ATTRS[:-1]:
            overwrite(getattr(obj, a))
    elif len(obj):
        raw = obj.data
        for col in [raw] if raw.dtype.names is None else [raw[f] for f in raw.dtype.names]:
            col[...] = ~col if col.dtype == bool else col + 7
        if isinstance(obj, gcl.AdjacencyList) and obj.weights.size:
            obj.weights[...] = -9.0


COPYING = ("boolarr", "boollist", "mask", "andgroup", "orgroup", "list", "intarr")


def gen_apart(tier):
    for n in (1, 2, 3, 4) if tier == THOROUGH else (1, 2, 3):
        for key in all_keys(n, False):
            if key[0] in COPYING:
                yield n, key
        for form in COPYING[:5]:
            yield n, (form, (True,) * n)
            yield n, (form, (False,) * n)
        yield n, ("list", tuple(range(n)))
        yield n, ("intarr", tuple(range(n)))
    for n in (64, 300):
        for form in COPYING[:5]:
            yield n, (form, (True,) * n)
        yield n, ("intarr", tuple(range(n)))


@C.family("selections are apart", gen_apart)
def apart(ctx, n, key):
    """Selections by boolean and index arrays are copies, as numpy makes them; also of everything, and twice in a row."""
    pos = positions(*key, n)
    for attrs in (ATTRS, ("pmu",), ("edges",), ("final", "status", "edges")):
        for part in ("event", "particles", "arrays"):
            for side in (0, 1):
                ev = build(n, attrs, "edges" in attrs)
                src = {"event": [ev], "particles": [ev.particles], "arrays": [getattr(ev, "adj" if a == "edges" else a) for a in attrs]}[part]
                for obj in src:
                    once, again = obj[real_key(*key)], obj[real_key(*key)]
                    twice = once[real_key("mask", (True,) * len(pos))] if pos else once
                    keep = frozen(once)
                    require(once is not obj and frozen(again) == keep, "{} at {} is the object itself, or changes", part, key)
                    if side == 0:
                        before = frozen(obj)
                        overwrite(once)
                        require(frozen(obj) == before, "writing into {}[{}] changed the {}", part, key, part)
                        require(not pos or frozen(twice) == keep, "writing into {}[{}] changed a selection from it", part, key)
                    else:
                        overwrite(obj)
                        require(frozen(once) == keep, "writing into the {} changed its selection by {}", part, key)
                    require(frozen(again) == keep, "two selections of {} by {} share their data", part, key)
                    ctx.ev((n, key, attrs, part, side) if pos else None)
    ctx.outcome((key[0], len(pos)))
