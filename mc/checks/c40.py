"""C40: data arrays are sequences of native rows."""
import json
from fractions import Fraction

from mc.core import Check
from mc.util import *

C = Check(
    "C40",
    "exploration",
    "exhaustive enumeration of small arrays over an alphabet of rows and of searches in them, against Python lists of the same rows",
    "Every array of every class over an alphabet of three or four rows up to a length, every row searched for from every start to every stop; "
    "iteration both ways, twice at once, unpacking, serialisation and JSON; particle sets and events of every attribute subset.",
    "cases: (class, rows); non-trivial when a row is repeated or searched for in part of the array",
    ["rows containing NaN are not searched for (unequal to themselves)"],
)
ROWS = {
    "pdg": (11, -11, 2147483647),
    "pmu": ((1.0, 2.0, 3.0, 4.0), (1.0, 2.0, 3.0, 5.0), (0.0, 2.0, 3.0, 4.0), (-0.0, 2.0, 3.0, 4.0)),
    "color": ((501, 0), (0, 501), (501, 501)),
    "helicity": (1, -1, 9),
    "status": (-23, 23, 32767),
    "final": (True, False),
    "edges": ((1, 2), (2, 1), (-1, 2)),
}
OTHERS = {
    "pdg": (12, 11.0, 11.5, "11", None, True, Fraction(11)),
    "pmu": ((1.0, 2.0, 3.0), (1, 2, 3, 4), [1.0, 2.0, 3.0, 4.0], 1.0, None),
    "color": ((501,), (501, 1), [501, 0], 501),
    "helicity": (0, 1.0, True, "1"),
    "status": (0, -23.0, None),
    "final": (1, 0, 2, None, "True"),
    "edges": ((1,), (2, 2), [1, 2], 1, (1.0, 2.0)),
}
NATIVE = {"pdg": int, "helicity": int, "status": int, "final": bool}
TUPLES = {"pmu": gcl.MomentumElement, "color": gcl.ColorElement, "edges": gcl.VertexPair}
LEAF = {"pmu": float, "color": int, "edges": int}


def position(seq, *args):
    try:
        return seq.index(*args)
    except ValueError:
        return None


def make(name, rows):
    want = [TUPLES[name](*r) for r in rows] if name in TUPLES else list(rows)
    return CLASSES[name](np.array(rows).reshape((-1, len(ROWS[name][0])) if name in TUPLES else -1)), want


def gen(tier):
    for name in ROWS:
        for n in range((5 if tier == THOROUGH else 4) + 1):
            for rows in it.product(ROWS[name], repeat=n):
                yield name, rows


@C.family("sequences", gen)
def sequences(ctx, name, rows):
    obj, want = make(name, rows)
    n = len(rows)
    before = frozen(obj)
    got = list(obj)
    require(got == want and len(obj) == n, "iterating {} gives {} instead of {}", name, got, want)
    for v in got:
        if name in TUPLES:
            require(type(v) is TUPLES[name] and all(type(x) is LEAF[name] for x in v), "element {!r} of {}", v, name)
        else:
            require(type(v) is NATIVE[name], "element {!r} of {}", v, name)
    require(repr(got) == repr(want), "elements {} instead of {}", got, want)
    back = list(reversed(obj))
    require(repr(back) == repr(want[::-1]), "reversed {} gives {} instead of {}", name, back, want[::-1])
    require(repr(list(zip(obj, obj))) == repr(list(zip(want, want))), "two iterations at once over {}", name)
    one, two = iter(obj), iter(obj)
    if n > 1:
        next(one)
        require(next(two) == want[0] and next(one) == want[1], "iterations over {} disturb each other", name)
    first, *rest = (None, *obj)
    require(rest == want and tuple(obj) == tuple(want), "unpacking {} gives {}", name, rest)
    require(repr(obj.serialize()) == repr(tuple(want)), "serialised {} is {} instead of {}", name, obj.serialize(), want)
    require(json.loads(json.dumps(obj.serialize())) == [list(r) if name in TUPLES else r for r in want], "JSON of {}", name)
    for v in dict.fromkeys(ROWS[name] + tuple(w for w in want)):
        search(ctx, name, rows, obj, want, TUPLES[name](*v) if name in TUPLES else v, n <= 3)
        if name in TUPLES:
            search(ctx, name, rows, obj, want, tuple(v), False)
    for v in OTHERS[name]:
        search(ctx, name, rows, obj, want, v, False)
    require(frozen(obj) == before, "searching {} changes it", name)
    ctx.ev((name, rows) if len(set(rows)) < n else None)
    ctx.outcome((name, n))


def search(ctx, name, rows, obj, want, v, ranges):
    require((v in obj) is (v in want), "{!r} in {} {} is {}", v, name, want, v in obj)
    require((v not in obj) is (v not in want), "{!r} not in {} {}", v, name, want)
    require(obj.count(v) == want.count(v), "{!r} counted {} times in {} {}", v, obj.count(v), name, want)
    require(position(obj, v) == position(want, v), "{!r} found at {} of {} {}", v, position(obj, v), name, want)
    for start in range(-len(want) - 1, len(want) + 2) if ranges else (1, -1):
        require(position(obj, v, start) == position(want, v, start), "{!r} found at {} of {} {} from {}", v, position(obj, v, start), name, want, start)
        for stop in range(-len(want) - 1, len(want) + 2) if ranges else (2,):
            a, b = position(obj, v, start, stop), position(want, v, start, stop)
            require(a == b, "{!r} found at {} not {} of {} {} from {} to {}", v, a, b, name, want, start, stop)
            ctx.ev((name, rows, repr(v), start, stop))


def gen_big(tier):
    for name in ROWS:
        for n in (127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 32769) + ((65537, 100003) if tier == THOROUGH else ()):
            yield name, n


@C.family("long", gen_big)
def long(ctx, name, n):
    rows = [ROWS[name][(i * i + i // 3) % len(ROWS[name])] for i in range(n)]
    obj, want = make(name, rows)
    require(list(obj) == want and len(obj) == n, "iterating {} of {} rows", name, n)
    require(list(reversed(obj)) == want[::-1], "reversed {} of {} rows", name, n)
    require(obj.serialize() == tuple(want), "serialised {} of {} rows", name, n)
    for v in want[:3] + want[-2:]:
        require(obj.count(v) == want.count(v), "counting in {} of {} rows", name, n)
        for start in (0, n // 2, n - 2):
            require(position(obj, v, start) == position(want, v, start), "position in {} of {} rows", name, n)
    ctx.ev((name, n))


def gen_comp(tier):
    for n in (0, 1, 2, 3) + ((70,) if tier == THOROUGH else ()):
        for attrs in subsets(ATTRS):
            for weights in (False, True) if "edges" in attrs else (False,):
                yield n, attrs, weights


@C.family("composites", gen_comp)
def composites(ctx, n, attrs, weights):
    c = columns(n)
    ev = gcl.Graphicle.from_numpy(**{a: c[a] for a in attrs}, **({"weights": np.arange(n) + 0.5} if weights else {}))
    before = frozen(ev)
    for obj, names in ((ev, attrs), (ev.particles, [a for a in attrs if a != "edges"])):
        length = n if names else 0
        require(len(obj) == length, "length {} of {} rows", len(obj), length)
        forth = list(it.islice(iter(obj), n + 2))
        back = list(it.islice(reversed(obj), n + 2))
        require(len(forth) == length and len(back) == length, "iterating {} rows gives {} and back {}", length, len(forth), len(back))
        for i, row in enumerate(forth):
            require(type(row) is type(obj) and row == obj[[i]] and frozen(row) == frozen(obj[i]), "row {} of {} with {}: {}", i, n, attrs, row)
            require(frozen(back[length - 1 - i]) == frozen(row), "row {} from the end", i)
        require(len(list(zip(obj, obj))) == length, "two iterations at once")
        for i, row in enumerate(forth):
            require(row in obj, "row {} is not in its own {}", i, type(obj).__name__)
    require(frozen(ev) == before, "iterating changes an event")
    ctx.ev((n, attrs, weights) if n and attrs else None)
    ctx.outcome((n, len(attrs)))
