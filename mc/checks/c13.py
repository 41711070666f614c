"""C13: status filters partition the record by code."""
from mc.core import Check
from mc.util import *

C = Check(
    "C13",
    "exploration",
    "exhaustive enumeration of all 16-bit status codes and a covering set of range bounds in both sign modes",
    "Every 16-bit code in one record, alone, and in all short records over a covering "
    "set, with every pair of bounds from a set reaching beyond the code range.",
    "cases: (bounds, sign mode) on the full record; short records; non-trivial when the record is not empty",
    [],
)
ALL = np.arange(-32768, 32768)
BOUNDS = (-40000, -32768, -32767, -91, -63, -24, -23, -2, -1, 0, 1, 2, 20, 21, 22, 23, 24, 25, 62, 63, 80, 90, 91, 200, 32766, 32767, 32768, 40000)
STAGES = {"incoming": 21, "intermediate": 22, "outgoing": 23, "outgoing_nonperturbative_diffraction": 24}


def want_range(data, lo, hi, sign):
    vals = np.asarray(data, dtype=int)
    vals = vals if sign else np.abs(vals)
    return (vals >= lo) & ((vals <= hi) if hi is not None else True)


def check_range(data, st, lo, hi, sign):
    want = want_range(data, lo, hi, sign)
    for call in (
        lambda: st.in_range(lo, hi, sign),
        lambda: st.in_range(min_status=lo, max_status=hi, sign_sensitive=sign),
    ):
        got = call()
        require(isinstance(got, M) and len(got) == len(data), "range gives {}", type(got))
        bad = np.flatnonzero(got.data != want)
        require(len(bad) == 0, "codes {} in [{}, {}] (sign sensitive: {})", np.asarray(data)[bad][:5], lo, hi, sign)


@C.family("ranges", lambda tier: ((lo, hi) for lo in (BOUNDS if tier != THOROUGH else tuple(range(-130, 131)) + BOUNDS)
                                  for hi in (None,) + (BOUNDS if tier != THOROUGH else tuple(range(-130, 131, 3)) + BOUNDS)))
def ranges(ctx, lo, hi):
    st = gcl.StatusArray(ALL)
    before = frozen(st)
    for sign in (False, True):
        check_range(ALL, st, lo, hi, sign)
        check_range(ALL[::-7], gcl.StatusArray(ALL[::-7]), lo, hi, sign)
        ctx.ev((lo, hi, sign))
    require(frozen(st) == before, "filtering changed the codes")
    ctx.outcome(int(want_range(ALL, lo, hi, False).sum() > 0))


@C.family("defaults", lambda tier: ((k,) for k in BOUNDS))
def defaults(ctx, k):
    st = gcl.StatusArray(ALL)
    require(bool(np.all(st.in_range().data)), "the default range drops codes")
    require(same(st.in_range(sign_sensitive=True).data, ALL >= 0), "default range with signs")
    require(same(st.in_range(k).data, np.abs(ALL) >= k), "default upper bound")
    require(same(st.in_range(max_status=k).data, (np.abs(ALL) <= k)), "default lower bound")
    ctx.ev(k)


def check_hard(data, masks):
    data = np.asarray(data, dtype=int)
    require(isinstance(masks, G) and list(masks) == list(STAGES), "categories {}", list(masks))
    for nm, code in STAGES.items():
        require(isinstance(masks[nm], M) and same(masks[nm].data, np.abs(data) == code), "category {} of {}", nm, data)
    union = (np.abs(data) >= 21) & (np.abs(data) <= 24)
    require(same(masks.data, union), "hard process of {} is {}", data, masks.data)
    total = sum((np.asarray(m).astype(int) for m in masks.values()), np.zeros(len(data), dtype=int))
    require(bool(np.all(total <= 1)) and same(total == 1, union), "categories overlap or do not cover: {}", data)


CODES = (21, -21, 22, -22, 23, -23, 24, -24, 20, 25, 0, -1, 62)


def gen_rec(tier):
    for n in range(4 if tier != THOROUGH else 5):
        for rec in it.product(CODES, repeat=n):
            yield rec,


@C.family("records", gen_rec)
def records(ctx, rec):
    st = gcl.StatusArray(list(rec))
    before = frozen(st)
    check_hard(rec, st.hard_mask)
    if rec:
        ev = gcl.Graphicle.from_numpy(status=np.array(rec), pdg=np.full(len(rec), 21))
        check_hard(rec, ev.hard_mask)
        sel = ev[ev.hard_mask]
        require(sel.status.data.tolist() == [c for c in rec if 21 <= abs(c) <= 24], "selected hard process {}", sel.status)
        for lo, hi, sign in ((21, 24, False), (-24, 0, True), (22, None, True), (21, 21, True)):
            check_range(rec, st, lo, hi, sign)
    require(frozen(st) == before, "filtering changed the codes")
    ctx.ev(rec if rec else None)
    ctx.outcome(len(rec))


@C.family("all codes", lambda tier: ((k,) for k in range(-32768, 32768, 997)))
def all_codes(ctx, k):
    part = np.arange(k, min(k + 997, 32768))
    check_hard(part, gcl.StatusArray(part).hard_mask)
    for c in part:
        require((gcl.StatusArray([c]).in_range(21, 29).data[0]) == (21 <= abs(int(c)) <= 29), "code {}", c)
    check_hard(ALL, gcl.StatusArray(ALL).hard_mask)
    ctx.ev(k, len(part))


@C.family("sizes", lambda tier: ((n, s) for n in (9, 16, 17, 33, 64, 65, 130, 1000) + ((50000,) if tier == THOROUGH else ()) for s in range(8)))
def sizes(ctx, n, s):
    """Long records, contiguous and strided, in several sort orders."""
    data = np.array([CODES[(i * (s + 1) + i // 7) % len(CODES)] * (1 if i % 11 else 3) for i in range(n)])
    if s % 3 == 1:
        data = np.sort(data)
    for st, d in ((gcl.StatusArray(data), data), (gcl.StatusArray(np.repeat(data, 2)[::2]), data), (gcl.StatusArray(data)[::-1], data[::-1])):
        check_hard(d, st.hard_mask)
        for lo, hi in ((21, 24), (-24, -21), (22, None), (0, 23), (23, 23), (-63, 63)):
            for sign in (False, True):
                check_range(d, st, lo, hi, sign)
    ctx.ev((n, s))
    ctx.outcome(n)
