"""C18: vertex search finds exactly the matching interaction vertices."""
from mc.core import Check
from mc.util import *

C = Check(
    "C18",
    "exploration",
    "exhaustive enumeration of small directed multigraphs with code assignments and search sets against a set-inclusion model",
    "Every list of up to 3 edges (loops and repeats included, vertices numbered by first appearance) with codes that repeat, differ by sign and "
    "coincide with vertex ids, crossed with all pairs of search sets of up to 2 codes, absent, empty or foreign.",
    "cases: graph x codes; queries: pairs of search sets; non-trivial when some but not all vertices match",
)
LABELS = ((1, 2, 3, 4), (0, -1, 5, -9), (21, -2, -4, 1))
A, B, X, F = 1, -2, 21, 13
SETS = (None, frozenset(), frozenset({A}), frozenset({B}), frozenset({A, B}), frozenset({-A}), frozenset({F}), frozenset({A, F}), frozenset({A, X}), frozenset({X}))
SOME = (None, frozenset({A}), frozenset({B}), frozenset({A, B}), frozenset({A, B, X}))


def want(edges, codes, pin, pout):
    out = set()
    for v in {v for e in edges for v in e}:
        inc = {c for e, c in zip(edges, codes) if e[1] == v}
        outc = {c for e, c in zip(edges, codes) if e[0] == v}
        if (pin or set()) <= inc and (pout or set()) <= outc:
            out.add(v)
    return out


def canonical(k, nv):
    """Lists of k edges over at most nv vertices, numbered by first appearance."""

    def rec(seq, used):
        if len(seq) == 2 * k:
            yield tuple(zip(seq[::2], seq[1::2]))
            return
        for v in range(min(used + 1, nv)):
            yield from rec(seq + (v,), max(used, v + 1))

    return rec((), 0)


def gen(tier):
    deep = tier == THOROUGH
    for k in (1, 2):
        for e in canonical(k, 4):
            for codes in it.product((A, B), repeat=k):
                for li in range(3) if deep or k == 1 else (sum(map(sum, e)) % 3,):
                    yield e, codes, li, "full"
    for i, e in enumerate(canonical(3, 4)):
        for j, codes in enumerate(((A, B, A), (A, B, X)) if not deep else it.product((A, B, X), repeat=3)):
            yield e, codes, (i + j) % 3, "some" if deep else "few"
    shapes = (
        ((0, 1), (1, 2), (1, 3), (2, 3)), ((0, 2), (1, 2), (2, 3), (2, 3)), ((0, 3), (1, 3), (2, 3), (3, 0)), ((3, 0), (3, 1), (3, 2), (0, 3)),
        ((0, 1), (0, 1), (0, 1), (1, 2)), ((0, 1), (2, 3), (1, 0), (3, 2)),
    )
    for i, e in enumerate(shapes):
        for codes in it.product((A, B, X) if deep else (A, B), repeat=4):
            yield e, codes, i % 3, "some" if deep else "few"


FEW = (
    (frozenset({A}), None), (None, frozenset({A})), (frozenset({A, B}), None), (None, frozenset({A, B})), (frozenset({A}), frozenset({B})),
    (frozenset({B}), frozenset({A})), (frozenset({A}), frozenset()), (frozenset({X, A}), frozenset({B})),
)
QUERIES = {"full": tuple(it.product(SETS, repeat=2)), "some": tuple(it.product(SOME, repeat=2)), "few": FEW}


@C.family("graphs", gen)
def graphs(ctx, pattern, codes, li, pool):
    edges = [(LABELS[li][s], LABELS[li][d]) for s, d in pattern]
    ev = gcl.Graphicle.from_numpy(edges=np.array(edges, dtype=np.int32), pdg=np.array(codes))
    before = frozen(ev)
    nv = len({v for e in edges for v in e})
    for pin, pout in QUERIES[pool]:
        kw = {k: set(v) for k, v in (("pdgs_in", pin), ("pdgs_out", pout)) if v is not None}
        if not kw:
            require_raises(ValueError, "no search set", gcl.select.find_vertex, ev)
            require_raises(ValueError, "no search set", gcl.select.find_vertex, ev, None, None)
            continue
        keep = {k: set(v) for k, v in kw.items()}
        got = np.asarray(gcl.select.find_vertex(ev, **kw)).tolist()
        exp = want(edges, codes, pin, pout)
        require(sorted(got) == sorted(exp), "{} with codes {}: search {} gives {} not {}", edges, codes, kw, got, sorted(exp))
        require(kw == keep, "search sets changed")
        ctx.ev((pattern, codes, str(kw)) if 0 < len(exp) < nv else None)
        ctx.outcome(len(exp))
    require(frozen(ev) == before, "the event changed")


ZERO = (None, frozenset(), frozenset({0}), frozenset({1}), frozenset({0, 1}), frozenset({-1, 0}), frozenset({2**31 - 1}), frozenset({-(2**31), 0}))


def gen_odd(tier):
    pool = (0, 1, -1, 2**31 - 1, -(2**31))
    for k in (1, 2):
        for e in canonical(k, 3):
            for codes in it.product(pool, repeat=k):
                yield e, codes, (k + sum(map(sum, e))) % 3
    for e in list(canonical(3, 4))[:: 1 if tier == THOROUGH else 3]:
        for codes in ((0, 0, 1), (0, 1, 0), (1, 0, -1)):
            yield e, codes, sum(map(sum, e)) % 3


@C.family("unusual codes", gen_odd)
def odd(ctx, pattern, codes, li):
    """Codes of zero and at the ends of the stored type."""
    edges = [(LABELS[li][s], LABELS[li][d]) for s, d in pattern]
    ev = gcl.Graphicle.from_numpy(edges=np.array(edges, dtype=np.int32), pdg=np.array(codes, dtype=np.int32))
    nv = len({v for e in edges for v in e})
    for pin, pout in it.product(ZERO, repeat=2):
        kw = {k: set(v) for k, v in (("pdgs_in", pin), ("pdgs_out", pout)) if v is not None}
        if not kw:
            continue
        got = np.asarray(gcl.select.find_vertex(ev, **kw)).tolist()
        exp = want(edges, codes, pin, pout)
        require(sorted(got) == sorted(exp), "{} with codes {}: search {} gives {} not {}", edges, codes, kw, got, sorted(exp))
        ctx.ev((pattern, codes, str(kw)) if 0 < len(exp) < nv else None)
    ctx.outcome(len(codes))


def gen_sizes(tier):
    """Larger graphs: vertices of high degree, many vertices, many codes."""
    for n in (8, 16, 17, 33, 64, 65, 130, 257) + ((1000, 5000) if tier == THOROUGH else ()):
        for nv in (3, 9, n // 2 + 2, n + 1):
            for ncode in (2, 5, 40):
                yield n, nv, ncode


@C.family("sizes", gen_sizes)
def sizes(ctx, n, nv, ncode):
    edges = [((7 * i) % nv - nv // 2, (5 * i + i // 3 + 1) % nv - nv // 2) for i in range(n)]
    codes = [(-1) ** i * (1 + (i * i + i // 2) % ncode) * (1 if i % 5 else 1000021) for i in range(n)]
    ev = gcl.Graphicle.from_numpy(edges=np.array(edges, dtype=np.int32), pdg=np.array(codes, dtype=np.int32))
    verts = {v for e in edges for v in e}
    inc, out = {v: set() for v in verts}, {v: set() for v in verts}
    for (s, d), c in zip(edges, codes):
        out[s].add(c)
        inc[d].add(c)
    for v in sorted(verts)[:: max(1, nv // 6)]:
        for pin, pout in ((inc[v], out[v]), (set(sorted(inc[v])[:1]), None), (None, set(sorted(out[v])[-1:])), (set(sorted(inc[v])[-2:]), set(sorted(out[v])[:2])),
                          (inc[v] | {99}, None), (None, out[v] | {99}), (out[v], inc[v])):
            exp = sorted(u for u in verts if (pin or set()) <= inc[u] and (pout or set()) <= out[u])
            got = sorted(np.asarray(gcl.select.find_vertex(ev, pdgs_in=pin, pdgs_out=pout)).tolist())
            require(got == exp, "{} edges over {} vertices with {} codes: in {} out {} gives {} not {}", n, nv, ncode, pin, pout, got, exp)
            ctx.ev((n, nv, ncode, v, str(pin), str(pout)) if 0 < len(exp) < len(verts) else None)
            ctx.outcome(len(exp))
