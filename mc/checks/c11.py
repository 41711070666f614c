"""C11: serialisation round-trips every event exactly."""
import json
import struct

from mc.core import Check
from mc.util import *

C = Check(
    "C11",
    "exploration",
    "exhaustive enumeration of attribute subsets, lengths, boundary values and mask trees, serialised and rebuilt",
    "Every attribute subset of events and particle sets at several lengths, every pair of boundary values in every "
    "column of every class, and every small mask tree; compared bit for bit after rebuilding.",
    "cases: (class or subset, length or values); non-trivial when there are rows",
    ["edge weights are not part of the serialised form"],
)
BUILTIN = (int, float, bool, str)


def plain(value, where):
    """Only built-in scalars in (named) tuples and dictionaries."""
    if isinstance(value, dict):
        for k, v in value.items():
            require(type(k) is str, "{}: key {!r}", where, k)
            plain(v, f"{where}.{k}")
    elif isinstance(value, tuple):
        for i, v in enumerate(value):
            plain(v, f"{where}[{i}]")
    else:
        require(type(value) in BUILTIN, "{}: {!r} of type {}", where, value, type(value))


def bits_of(x):
    return struct.pack("<d", x) if isinstance(x, float) else x


def mirror(name, ser, raw, where):
    """The serialised rows equal the raw rows, in order, bit for bit."""
    require(type(ser) is tuple and len(ser) == len(raw), "{}: {} rows instead of {}", where, len(ser), len(raw))
    kind = {"pmu": float, "final": bool}.get(name, int)
    for got, want in zip(ser, raw.tolist()):
        got_l = list(got) if isinstance(got, tuple) else [got]
        want_l = want if isinstance(want, list) else [want]
        require(len(got_l) == len(want_l), "{}: row {}", where, got)
        for g, w in zip(got_l, want_l):
            require(type(g) is kind, "{}: {!r} of type {}", where, g, type(g))
            require(bits_of(g) == bits_of(kind(w)), "{}: {!r} instead of {!r}", where, g, w)
    fields = {"pmu": ("x", "y", "z", "e"), "color": ("color", "anticolor"), "edges": ("src", "dst")}.get(name)
    if fields:
        for row in ser:
            require(row._fields == fields and all(getattr(row, f) is row[i] for i, f in enumerate(fields)),
                    "{}: fields {}", where, row._fields)


def rebuild(name, ser):
    return CLASSES[name](ser)


EXTREME = {
    "pdg": (0, 1, -1, 2**31 - 1, -(2**31), 1000021),
    "helicity": (0, 1, -1, 2**15 - 1, -(2**15), 9),
    "status": (0, -1, 62, 2**15 - 1, -(2**15)),
    "final": (False, True),
    "color": (0, 501, -1, 2**31 - 1, -(2**31)),
    "edges": (0, 7, -7, 2**31 - 1, -(2**31)),
    "pmu": (0.0, -0.0, 0.1, -1.0 / 3.0, math.inf, -math.inf, math.nan, 5e-324, -2.2250738585072014e-308,
            1.7976931348623157e308, 1e16 + 2, 123456789.12345679),
}
NC = {"pmu": 4, "color": 2, "edges": 2}


def gen_values(tier):
    for name, vals in EXTREME.items():
        for v in vals:
            for w in vals:
                yield name, v, w


@C.family("boundary values", gen_values)
def values(ctx, name, v, w):
    nc = NC.get(name, 1)
    dtype = "<f8" if name == "pmu" else "?" if name == "final" else "<i8"
    for col in range(nc):
        row = [w] * nc
        row[col] = v
        for n in (1, 2, nc):
            raw = np.array([row] + [[w] * nc] * (n - 1), dtype=dtype)
            raw = raw if nc > 1 else raw[:, 0]
            obj = CLASSES[name](raw)
            before = frozen(obj)
            ser = obj.serialize()
            plain(ser, name)
            mirror(name, ser, raw, name)
            again = rebuild(name, ser)
            require(frozen(again) == before, "{} rebuilt as {!r} instead of {!r}", name, again, obj)
            require(frozen(obj) == before, "serialising changed the object")
            elems = list(obj)
            require([tuple(map(bits_of, e)) if isinstance(e, tuple) else e for e in elems]
                    == [tuple(map(bits_of, e)) if isinstance(e, tuple) else e for e in ser], "iteration differs")
            if name != "pmu" or all(math.isfinite(x) for x in row):
                text = json.loads(json.dumps(ser))
                require(frozen(rebuild(name, text)) == before, "{} differs after a JSON round trip", name)
            ctx.ev((name, repr(v), repr(w), col, n))


def gen_subsets(tier):
    for n in (0, 1, 2, 3, 4, 5, 61, 130, 1001) if tier != THOROUGH else tuple(range(0, 9)) + (60, 61, 200):
        for names in subsets(ATTRS):
            if n > 5 and 2 < len(names) < 6:
                continue
            yield n, names


@C.family("subsets", gen_subsets)
def subset_case(ctx, n, names):
    cs = columns(n, 1)
    kw = {k: cs[k].copy() for k in names}
    ev = gcl.Graphicle.from_numpy(**kw)
    before = frozen(ev)
    ser = ev.serialize()
    require(type(ser) is dict, "serialised event is {}", type(ser))
    require(list(ser) == list(ATTRS[:-1]) + ["adj"], "keys {}", list(ser))
    plain(ser, "event")
    pser = ev.particles.serialize()
    require(list(pser) == list(ATTRS[:-1]), "keys of the particle set {}", list(pser))
    plain(pser, "set")
    for nm in ATTRS:
        key = "adj" if nm == "edges" else nm
        raw = cs[nm] if nm in names else cs[nm][:0]
        mirror(nm, ser[key], raw, (names, n, key))
        if nm != "edges":
            mirror(nm, pser[nm], raw, (names, n, nm, "set"))
            require(frozen(getattr(ev, nm).serialize()) == frozen(pser[nm]), "component serialisation differs")
    require(frozen(ev) == before, "serialising changed the event")
    again = gcl.Graphicle(
        particles=gcl.ParticleSet(**{k: CLASSES[k](v) for k, v in pser.items()}), adj=gcl.AdjacencyList(ser["adj"])
    )
    require(frozen(again) == before, "event rebuilt differently: {}", names)
    kwargs = {("edges" if k == "adj" else k): v for k, v in ser.items()}
    require(frozen(gcl.Graphicle.from_numpy(**kwargs)) == before, "event rebuilt differently by from_numpy: {}", names)
    require(frozen(gcl.ParticleSet.from_numpy(**pser)) == frozen(ev.particles), "set rebuilt differently: {}", names)
    text = json.loads(json.dumps(kwargs))
    require(frozen(gcl.Graphicle.from_numpy(**text)) == before, "event differs after a JSON round trip")
    require(frozen(ev.copy().serialize()) == frozen(ser), "a copy serialises differently")
    ctx.ev((n, names) if n and names else None)
    ctx.outcome((n, len(names)))


def trees(depth, n):
    leaves = [("m", b) for b in bits(n)]
    yield from leaves
    if depth:
        subs = list(trees(depth - 1, n))
        subs = subs[:4] + subs[-2:]
        for o in ("and", "or", "none"):
            for r in range(4 if depth == 1 else 3):
                for combo in it.product(subs, repeat=r):
                    yield ("g", o, tuple(zip(("b", "latent", "a"), combo)))


def build(t):
    return M(list(t[1])) if t[0] == "m" else G({k: build(v) for k, v in t[2]}, t[1])


def model(t):
    return tuple(t[1]) if t[0] == "m" else {k: model(v) for k, v in t[2]}


@C.family("mask trees", lambda tier: ((t, n) for n in (1, 2) for t in trees(2 if tier != THOROUGH else 3, n)))
def mask_trees(ctx, t, n):
    obj = build(t)
    before = frozen(obj)
    ser = obj.serialize()
    plain(ser, "mask")
    require(ser == model(t) and frozen(ser) == frozen(model(t)), "{} serialised as {}", model(t), ser)
    require(frozen(obj) == before, "serialising changed the masks")
    again = G(ser, t[1]) if t[0] == "g" else M(ser)
    ctx.ev((t, n))
    if t[0] == "m":
        require(frozen(again) == before, "mask rebuilt as {}", again)
    else:
        require(again.serialize() == ser and again.equal_to(obj, check_order=True), "group rebuilt as {}", again.serialize())
        require(type(again) is G and again.agg_op is obj.agg_op, "aggregation")
