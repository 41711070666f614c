"""C14: events built from arrays carry exactly what was supplied."""
from types import SimpleNamespace

from mc.core import Check
from mc.util import *

C = Check(
    "C14",
    "exploration",
    "exhaustive enumeration of attribute subsets, source styles and Les Houches status codes against the supplied rows",
    "All subsets of the supplied attributes through every constructor and source style, and all short Les Houches "
    "records over every mapped and several unmapped status codes, at several integer types.",
    "cases: (subset, length, style); (status record, type); non-trivial when something is supplied",
    ["a source that exposes a final mask only in its mask table does so under the key 'final'"],
)
SETATTRS = ATTRS[:-1]
LHE_MAP = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}


def flat_row(name, val):
    return cols(val)


def check_event(ev, given, cs, weights=None, what=""):
    require(type(ev) is gcl.Graphicle and type(ev.particles) is gcl.ParticleSet, "type of the event")
    for nm in ATTRS:
        comp = component(ev, nm)
        require(type(comp) is CLASSES[nm], "{} is {} {}", nm, type(comp), what)
        want = cs[nm] if nm in given else cs[nm][:0]
        require(cols(comp).tolist() == want.tolist(), "{} is {} instead of {} {}", nm, cols(comp).tolist(), want.tolist(), what)
        require(bool(comp) == (nm in given and len(want) > 0), "truth of {}", nm)
        if nm != "edges":
            require(getattr(ev, nm) is getattr(ev.particles, nm), "{} differs between event and particle set", nm)
    want_w = weights if weights is not None and "edges" in given else np.array([])
    require(same(ev.adj.weights, want_w), "weights {} instead of {}", ev.adj.weights, want_w)
    if "edges" in given:
        require(same(ev.edges, ev.adj.data), "edges of the event")
    n = max([len(cs[nm]) for nm in given], default=0)
    require(len(ev) == n, "length {} instead of {}", len(ev), n)


def structured(name, arr):
    dt = CLASSES[name]().dtype
    if dt.names is None:
        return arr
    out = np.zeros(len(arr), dtype=dt)
    for j, f in enumerate(dt.names):
        out[f] = arr[:, j]
    return out


class Properties:
    """An event whose attributes are computed, and some not available."""

    def __init__(self, given):
        self.given = given

    def __getattr__(self, name):
        try:
            return self.__dict__["given"][name]
        except KeyError:
            raise AttributeError(name) from None


def gen_events(tier):
    for n in (1, 2, 4) if tier != THOROUGH else (0, 1, 2, 3, 4, 5, 61):
        for given in subsets(ATTRS):
            yield n, given


@C.family("subsets", gen_events)
def subset_case(ctx, n, given):
    cs = columns(n, 2)
    for style in ("plain", "structured", "wide", "list"):
        kw = {}
        for nm in given:
            val = cs[nm].copy()
            if style == "structured":
                val = structured(nm, val)
            elif style == "wide" and val.dtype.kind == "i":
                val = val.astype("<i8")
            elif style == "list":
                val = val.tolist()
            kw[nm] = val
        before = frozen({k: np.asarray(v) for k, v in kw.items()})
        check_event(gcl.Graphicle.from_numpy(**kw), given, cs, what=f"(from_numpy, {style})")
        for w in (np.arange(n) + 0.5, np.zeros(n), -np.arange(n) * 1.0):
            check_event(gcl.Graphicle.from_numpy(weights=w, **kw), given, cs, w, what=f"(weights, {style})")
        pkw = {k: v for k, v in kw.items() if k != "edges"}
        ps = gcl.ParticleSet.from_numpy(**pkw)
        check_event(gcl.Graphicle(ps), [k for k in given if k != "edges"], cs, what=f"(particle set, {style})")
        sources = [SimpleNamespace(**kw), Properties(kw), type("Ev", (), dict(kw))()]
        extra = SimpleNamespace(masks={"final": ~cs["final"], "other": cs["final"]}, name="x", weights=w, adj=None, **kw)
        sources.append(extra)
        for k, src in enumerate(sources):
            if k == 3 and "final" not in given:
                want = dict(cs, final=~cs["final"])
                check_event(gcl.Graphicle.from_event(src), given + ("final",), want, what=f"(from_event with masks, {style})")
            else:
                check_event(gcl.Graphicle.from_event(src), given, cs, what=f"(from_event {k}, {style})")
        if "final" not in given:
            kwm = SimpleNamespace(masks={"final": cs["final"]}, **kw)
            check_event(gcl.Graphicle.from_event(kwm), given + ("final",), cs, what=f"(masks only, {style})")
        # an existing event is a source as well
        if style == "plain":
            first = gcl.Graphicle.from_numpy(**{k: v.copy() for k, v in kw.items()})
            raw = SimpleNamespace(**{nm: component(first, nm).data for nm in given})
            check_event(gcl.Graphicle.from_event(raw), given, cs, what="(from own data)")
        require(frozen({k: np.asarray(v) for k, v in kw.items()}) == before, "the source arrays were modified")
        ctx.ev((n, given, style) if given else None)
    ctx.outcome((n, len(given)))


@C.family("explicit none", lambda tier: ((s,) for s in subsets(ATTRS)))
def explicit_none(ctx, given):
    cs = columns(3)
    kw = {nm: cs[nm].copy() if nm in given else None for nm in ATTRS}
    check_event(gcl.Graphicle.from_numpy(**kw), given, cs, what="(None)")
    args = [kw[nm] for nm in ATTRS]
    check_event(gcl.Graphicle.from_numpy(*args), given, cs, what="(positional)")
    check_event(gcl.Graphicle(gcl.ParticleSet.from_numpy(*args[:-1])), [g for g in given if g != "edges"], cs, what="(positional set)")
    objs = {nm: CLASSES[nm](cs[nm].copy()) for nm in given if nm != "edges"}
    check_event(gcl.Graphicle(gcl.ParticleSet(**objs)), [g for g in given if g != "edges"], cs, what="(objects)")
    ctx.ev(given)


def gen_falsy(tier):
    for n in (1, 2, 3):
        for given in subsets(ATTRS):
            for zero in subsets(given):
                if zero:
                    yield n, given, zero


@C.family("all-zero attributes", gen_falsy)
def falsy(ctx, n, given, zero):
    """Zeros and False are values like any other."""
    cs = columns(n, 1)
    for nm in zero:
        cs[nm] = np.zeros_like(cs[nm])
    kw = {nm: cs[nm].copy() for nm in given}
    w = np.zeros(n)
    check_event(gcl.Graphicle.from_numpy(**kw), given, cs, what="(zeros)")
    check_event(gcl.Graphicle.from_numpy(weights=w, **kw), given, cs, w, what="(zeros, weights)")
    check_event(gcl.Graphicle.from_event(SimpleNamespace(**kw)), given, cs, what="(zeros, from_event)")
    pgiven = [k for k in given if k != "edges"]
    check_event(gcl.Graphicle(gcl.ParticleSet.from_numpy(**{k: kw[k] for k in pgiven})), pgiven, cs, what="(zeros, set)")
    ctx.ev((n, given, zero))


CODES = (-1, 1, -2, 2, 3, -9, 0, 4, 9, -3, 21, -21, -22, -23, -12, 12, 22, 23, 120, -120)


def gen_lhe(tier):
    for n in range(0, 4 if tier == THOROUGH else 3):
        for rec in it.product(CODES, repeat=n):
            for dt in ("<i1", "<i2", ">i2", "<i4", "<i8", "<f8"):
                yield rec, dt
    if tier != THOROUGH:
        for rec in it.product((-1, 1, 2, -2, 3, -9), repeat=3):
            yield rec, "<i2"
    yield CODES * 4, "<i2"


@C.family("les houches", gen_lhe)
def les_houches(ctx, rec, dt):
    n = len(rec)
    cs = columns(n)
    names = ("pdg", "pmu", "color", "helicity")
    for style in ("plain", "structured", "strided", "readonly"):
        status = np.array(rec, dtype=dt)
        if style == "strided":
            buf = np.full(2 * n, 77, dtype=dt)
            buf[::2] = status
            status = buf[::2]
        src = {nm: (structured(nm, cs[nm]) if style == "structured" else cs[nm].copy()) for nm in names}
        src["status"] = status
        if style == "readonly":
            for v in src.values():
                v.flags.writeable = False
        before = frozen(src)
        ps = gcl.ParticleSet.from_lhe_event(SimpleNamespace(**src))
        require(type(ps) is gcl.ParticleSet, "type {}", type(ps))
        want = [LHE_MAP.get(c, c) for c in rec]
        require(ps.status.data.tolist() == want, "status {} became {} instead of {}", rec, ps.status.data.tolist(), want)
        require(ps.final.data.tolist() == [False] * n, "final mask {}", ps.final)
        for nm in names:
            require(cols(getattr(ps, nm)).tolist() == cs[nm].tolist(), "{} is {}", nm, cols(getattr(ps, nm)).tolist())
        require(frozen(src) == before, "the source's arrays were modified")
        ps2 = gcl.ParticleSet.from_lhe_event(SimpleNamespace(**src))
        require(ps2.status.data.tolist() == want, "a second reading of the same event gives {}", ps2.status.data.tolist())
        ctx.ev((rec, dt, style) if n else None)
    ctx.outcome(tuple(sorted(set(LHE_MAP.get(c, 0) for c in rec))))


@C.family("sizes", lambda tier: ((n, s) for n in (9, 33, 65, 130, 257, 1000) + ((20000,) if tier == THOROUGH else ()) for s in range(8)))
def sizes(ctx, n, s):
    given = [ATTRS[(s + k) % len(ATTRS)] for k in range(1 + s % len(ATTRS))]
    cs = columns(n, s % 3)
    cs["helicity"], cs["status"] = cs["helicity"] * 3, (cs["status"].astype(int) % 300).astype("<i2")
    for style in ("plain", "structured", "strided", "readonly"):
        kw = {nm: structured(nm, cs[nm]) if style == "structured" else cs[nm].copy() for nm in given}
        if style == "strided":
            kw = {nm: np.repeat(v, 2, axis=0)[::2] for nm, v in kw.items()}
        if style == "readonly":
            for v in kw.values():
                v.flags.writeable = False
        check_event(gcl.Graphicle.from_numpy(**kw), given, cs, what=f"({n} rows, {style})")
        check_event(gcl.Graphicle.from_event(SimpleNamespace(**kw)), given, cs, what=f"({n} rows, from_event, {style})")
    status = np.array([CODES[(i * (s + 2) + i // 5) % len(CODES)] for i in range(n)], dtype="<i2")
    src = SimpleNamespace(status=status, **{nm: cs[nm] for nm in ("pdg", "pmu", "color", "helicity")})
    before = frozen(vars(src))
    ps = gcl.ParticleSet.from_lhe_event(src)
    require(ps.status.data.tolist() == [LHE_MAP.get(int(c), int(c)) for c in status], "status codes of {} rows", n)
    require(ps.final.data.tolist() == [False] * n and frozen(vars(src)) == before, "final mask or source of {} rows", n)
    ctx.ev((n, s))
    ctx.outcome(n)
