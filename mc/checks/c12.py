"""C12: particle-code lookups agree with the particle data table."""
import csv
import os
from fractions import Fraction

import mcpid.lookup

from mc.core import Check
from mc.util import *

C = Check(
    "C12",
    "exploration",
    "exhaustive enumeration of every code of the particle data table, array arrangements and filter arguments",
    "All codes alone and in whole-table arrangements, all short arrays over a covering set of codes, all names, and "
    "all filter targets up to the bound with all flags, against an independent reading of the table.",
    "cases: (code or array); (data, target, flags); non-trivial: all with rows",
    ["the table shipped with mcpid, read with the csv module, is the reference", "ambiguous names are outside the property"],
)


def number(s):
    if s == "":
        return math.nan
    return float(Fraction(s)) if "/" in s else float(s)


def load():
    path = os.path.join(os.path.dirname(mcpid.lookup.__file__), "_mcpid.csv")
    with open(path) as f:
        lines = [ln for ln in f if not ln.startswith("#")]
    out = {}
    for row in csv.DictReader(lines):
        out[int(row["id"])] = row
    return out


TABLE = load()
CODES = list(TABLE)
NAMES = {}
for _c in CODES:
    NAMES.setdefault(TABLE[_c]["name"], []).append(_c)
NUMERIC = {"charge": ("charge", 1.0), "mass": ("mass", 1e-3), "width": ("width", 1e-3), "isospin": ("i", 1.0),
           "g_parity": ("g", 1.0), "space_parity": ("p", 1.0), "charge_parity": ("c", 1.0)}
# mcpid reads missing fractions as zero
FILL = {a: "" if a in ("mass", "width") else "0" for a in NUMERIC}
TEXT = {"name": "name", "quarks": "quarks", "latex": "latex"}
RANGES = {"mass_bounds": ("masslower", "massupper"), "width_bounds": ("widthlower", "widthupper")}


def check_codes(codes):
    p = gcl.PdgArray(list(codes))
    before = frozen(p)
    require(p.data.tolist() == list(codes), "codes {}", p.data)
    for attr, (colname, scale) in NUMERIC.items():
        got = np.asarray(getattr(p, attr), dtype=float)
        want = np.array([number(TABLE[c][colname] or FILL[attr]) * scale for c in codes])
        require(close(got, want, rtol=1e-12, atol=0.0), "{} of {} is {} instead of {}", attr, codes[:8], got[:8], want[:8])
    for attr, colname in TEXT.items():
        got = getattr(p, attr)
        require(got.dtype.kind == "U", "{} has type {}", attr, got.dtype)
        want = [TABLE[c][colname] or "nan" for c in codes]
        require(got.tolist() == want, "{} of {} is {} instead of {}", attr, codes[:8], got.tolist()[:8], want[:8])
    for attr, pair in RANGES.items():
        got = getattr(p, attr)
        require(tuple(got.dtype.names) == pair, "fields of {}: {}", attr, got.dtype.names)
        for colname in pair:
            want = np.array([number(TABLE[c][colname]) * 1e-3 for c in codes])
            require(close(np.asarray(got[colname], dtype=float), want, rtol=1e-12, atol=0.0),
                    "{} of {} is {} instead of {}", colname, codes[:8], got[colname][:8], want[:8])
    require(frozen(p) == before, "a lookup changed the codes")
    # a second lookup gives the same values
    require(close(np.asarray(p.mass_bounds["massupper"], dtype=float),
                  np.array([number(TABLE[c]["massupper"]) * 1e-3 for c in codes]), rtol=1e-12, atol=0.0), "second lookup of mass bounds")
    require(close(np.asarray(p.mass, dtype=float), np.array([number(TABLE[c]["mass"]) * 1e-3 for c in codes]),
                  rtol=1e-12, atol=0.0), "second lookup of masses")


COVER = (1, -1, 21, 24, -24, 2212, 211, -211, 111, 130, 22, 11, -13, 5122)
ALL = tuple(NUMERIC) + tuple(TEXT) + tuple(RANGES)


def scribble(codes):
    """Whatever is written into an answer, later answers (of this or other arrays) are the table's."""
    p, q = gcl.PdgArray(list(codes)), gcl.PdgArray(list(codes))
    before = frozen(p)
    for attr in ALL:
        first = getattr(p, attr)
        keep = np.array(first)
        for other in (getattr(p, attr), getattr(q, attr)):
            require(other is not first and not np.shares_memory(other, first), "two answers for {} share their data", attr)
        if first.dtype.names:
            for f in first.dtype.names:
                first[f] = -7.0
        else:
            first[...] = "zz" if first.dtype.kind == "U" else -7.0
        for r in (p, q, gcl.PdgArray(list(codes))):
            again = getattr(r, attr)
            require(again.dtype == keep.dtype and again.tolist().__repr__() == keep.tolist().__repr__(), "{} of {} after writing into an earlier answer: {} instead of {}", attr, codes, again, keep)
    require(frozen(p) == before, "writing into an answer changed the codes")
    check_codes(codes)


@C.family("answers are apart", lambda tier: ((c,) for r in (1, 2) for c in it.product(COVER, repeat=r)))
def answers(ctx, cs):
    scribble(cs)
    scribble(cs * 3)
    ctx.ev(cs)


@C.family("codes", lambda tier: ((c,) for c in CODES))
def codes(ctx, c):
    check_codes([c])
    check_codes([c, 22])
    check_codes([-11, c, c])
    ctx.ev(c)
    ctx.outcome((TABLE[c]["pythia"], TABLE[c]["quarks"] == ""))


PYTHIA = tuple(c for c in CODES if TABLE[c]["pythia"] == "True")[:3]


def gen_arrays(tier):
    base = COVER[:6] + PYTHIA[:1]
    for n in (2, 3) if tier != THOROUGH else (2, 3, 4):
        yield from ((c,) for c in it.product(base, repeat=n))
    yield (COVER + PYTHIA,)
    yield ((COVER + PYTHIA)[::-1] * 2,)
    yield (tuple(CODES),)
    yield (tuple(CODES[::-1]),)
    yield (tuple(sorted(CODES, key=lambda c: (c % 7, c))),)
    yield (tuple(CODES[::3] + CODES[::5]),)


@C.family("arrangements", gen_arrays)
def arrangements(ctx, cs):
    check_codes(list(cs))
    ctx.ev(cs)


@C.family("names", lambda tier: ((nm,) for nm in NAMES))
def names(ctx, nm):
    if len(NAMES[nm]) > 1:
        ctx.note("ambiguous names")
        return
    c = NAMES[nm][0]
    for arg in (nm, [nm], (nm,), iter([nm])):
        p = gcl.PdgArray.from_name(arg)
        require(type(p) is gcl.PdgArray and p.data.tolist() == [c], "name {} gives {} instead of {}", nm, p, c)
    require(gcl.PdgArray([c]).name.tolist() == [nm], "name of {}", c)
    other = "g" if nm != "g" else "u"
    p = gcl.PdgArray.from_name([other, nm, nm])
    require(p.data.tolist() == [NAMES[other][0], c, c], "names {} give {}", [other, nm, nm], p)
    require(gcl.PdgArray.from_name(p.name.tolist()).data.tolist() == p.data.tolist(), "names do not invert")
    for bad in (nm + "#", [nm, nm + "#"], [nm + "#", nm]):
        require_raises(ValueError, f"name {bad}", gcl.PdgArray.from_name, bad)
    ctx.ev(nm)


@C.family("bad names", lambda tier: ((b,) for b in ("", "nobody", 5, None, 2.5, (1, "u"), ("u", None), ("u", 2), (b"u",))))
def bad_names(ctx, b):
    require_raises(ValueError, f"names {b!r}", gcl.PdgArray.from_name, list(b) if isinstance(b, tuple) else b)
    ctx.ev(repr(b))


UNIVERSE = (11, -11, 13, 21, -13, 5)


def gen_mask(tier):
    n = 4 if tier == THOROUGH else 3
    for r in range(n + 1):
        for data in it.product(UNIVERSE, repeat=r):
            yield data,


TARGETS = [t for r in range(3) for t in it.product((11, -11, 13, -13, 21, 99), repeat=r)] + [(11, 13, -5), (11, 11, 21, -21)]


@C.family("filters", gen_mask)
def filters(ctx, data):
    p = gcl.PdgArray(list(data))
    before = frozen(p)
    for tgt in TARGETS:
        forms = [list(tgt), np.array(tgt, dtype=int)]
        if len(tgt) == 1:
            forms += [tgt[0], tuple(tgt), gcl.PdgArray(list(tgt))]
        for form in forms:
            keep_in = frozen(form)
            for black in (False, True):
                for sign in (False, True):
                    hit = [(d in tgt) if sign else (abs(d) in {abs(t) for t in tgt}) for d in data]
                    want = [h != black for h in hit]
                    m = p.mask(form, blacklist=black, sign_sensitive=sign)
                    require(isinstance(m, M) and m.data.tolist() == want,
                            "{} filtered by {!r} (blacklist {}, sign {}) gives {} instead of {}", data, form, black, sign, m, want)
            require(frozen(form) == keep_in, "the target was modified")
        m = p.mask(list(tgt))
        require(m.data.tolist() == [abs(d) not in {abs(t) for t in tgt} for d in data], "default flags")
        ctx.ev((data, tgt) if data else None)
    require(frozen(p) == before, "filtering changed the codes")
    ctx.outcome(len(data))


@C.family("large codes", lambda tier: ((k,) for k in (0, 1)))
def large(ctx, k):
    data = [1000021, -1000021, 2147483647, -2147483647, 9900012, 0]
    p = gcl.PdgArray(data)
    for t in data:
        for sign in (False, True):
            want = [(d == t) if sign else abs(d) == abs(t) for d in data]
            got = p.mask([t], blacklist=bool(k), sign_sensitive=sign).data.tolist()
            require(got == [w != bool(k) for w in want], "large code {}: {}", t, got)
            ctx.ev((k, t, sign))


WIDE = tuple(sorted({abs(c) for c in CODES}))
WIDE = WIDE[:: max(1, len(WIDE) // 60)]


@C.family("long filters", lambda tier: ((n, m, k) for n in (1, 2, 3, 10, 40, 200) + ((1000,) if tier == THOROUGH else ())
                                        for m in range(0, len(WIDE), 1 if tier == THOROUGH else 3) for k in range(4)))
def long_filters(ctx, n, m, k):
    """Long targets over the whole range of codes, and arrays with repeated codes."""
    tgt = [(-1) ** (i * k) * c for i, c in enumerate((WIDE[k:] + WIDE[:k])[:m])]
    data = [(-1) ** (i // 3) * WIDE[(7 * (i // 2 + k)) % len(WIDE)] for i in range(n)]
    p = gcl.PdgArray(data)
    for sign in (False, True):
        hit = [(d in set(tgt)) if sign else (abs(d) in {abs(t) for t in tgt}) for d in data]
        for black in (False, True):
            got = p.mask(tgt, blacklist=black, sign_sensitive=sign).data.tolist()
            require(got == [h != black for h in hit], "{} codes filtered by {} targets (blacklist {}, sign {}): {}",
                    n, m, black, sign, got[:12])
        ctx.ev((n, m, k, sign))
    ctx.outcome(any(hit))
