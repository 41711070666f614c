"""C17: descendants of a vertex are exactly the reachable edges."""
from mc.core import Check
from mc.util import *

C = Check(
    "C17",
    "exploration",
    "exhaustive enumeration of all small directed multigraphs, labellings and start vertices against a fixed-point reachability model",
    "Every ordered list of up to 4 edges over 4 vertices and every simple digraph of 4 vertices, cycles, diamonds, self-loops and "
    "repeated edges included; every vertex and edge as start; labellings with zero, negative and extreme ids; long chains, "
    "ladders and stars beyond the small bound.",
    "cases: graph x labelling; non-trivial when some vertex reaches another edge",
    ["for a vertex without outgoing edges the edges ending there are meant, as documented"],
)
LABELS = (
    (1, 2, 3, 4, 5), (0, -1, 5, -9, 2), (-3, -2, -1, -4, -5), (7, -7, 2, -2, 0), (2**31 - 1, -(2**31), 0, 65536, -8), (300, 20, -1, 10000, 4),
)


def want_vertex(edges, v):
    if not any(s == v for s, _ in edges):
        return [d == v for _, d in edges]
    reach, size = {v}, 0
    while len(reach) != size:
        size = len(reach)
        reach |= {d for s, d in edges if s in reach}
    return [s in reach for s, _ in edges]


def want_edge(edges, e):
    return [a or b == e for a, b in zip(want_vertex(edges, e[1]), edges)]


def check(ctx, edges, key, queries=None):
    adj = gcl.AdjacencyList(np.array(edges, dtype=np.int32))
    before = frozen(adj)
    nontrivial = False
    verts = sorted({v for e in edges for v in e}) if queries is None else queries
    for v in verts:
        got = gcl.select.vertex_descendants(adj, v)
        want = want_vertex(edges, v)
        require(isinstance(got, M) and got.data.tolist() == want, "descendants of {} in {}: {}", v, edges, got.data.tolist() if len(edges) < 30 else np.flatnonzero(got.data != want))
        nontrivial |= sum(want) > sum(s == v for s, _ in edges) > 0
    for e in sorted(set(edges)) if queries is None else [e for e in edges if e[0] in queries]:
        want = want_edge(edges, e)
        for arg in (e, gcl.VertexPair(*e)):
            got = gcl.select.edge_descendants(adj, arg)
            require(isinstance(got, M) and got.data.tolist() == want, "descendants of edge {} in {}", e, edges if len(edges) < 30 else len(edges))
    require(frozen(adj) == before, "the edge list changed")
    ctx.ev(key if nontrivial else None)
    ctx.outcome(nontrivial)


def gen(tier):
    pairs4 = tuple(it.product(range(4), repeat=2))
    for k in (1, 2, 3):
        yield from ((e, li) for e in it.product(pairs4, repeat=k) for li in ((k, 5) if k == 3 and tier != THOROUGH else range(6)))
    for k in (4,):  # all edge orders
        for e in it.product(pairs4 if tier == THOROUGH else tuple(it.product(range(3), repeat=2)), repeat=k):
            yield e, 1
    if tier == THOROUGH:
        for e in it.combinations_with_replacement(tuple(it.product(range(5), repeat=2)), 5):
            yield e[::-1], 3


@C.family("multigraphs", gen)
def multigraphs(ctx, pattern, li):
    check(ctx, [(LABELS[li][s], LABELS[li][d]) for s, d in pattern], (pattern, li))


def gen_dag(tier):
    """All digraphs without loops on 4 vertices, two edge orders each."""
    pairs = [(i, j) for i in range(4) for j in range(4) if i != j]
    for sub in range(1, 1 << len(pairs)):
        yield tuple(p for i, p in enumerate(pairs) if sub >> i & 1), sub % 6
    if tier == THOROUGH:  # all DAGs on 5 vertices, in scrambled order
        pairs = [(i, j) for i in range(5) for j in range(i + 1, 5)]
        for sub in range(1, 1 << len(pairs)):
            edges = [p for i, p in enumerate(pairs) if sub >> i & 1]
            for li in range(6):
                yield tuple(edges[li:] + edges[:li])[::-1], li


@C.family("digraphs", gen_dag)
def digraphs(ctx, pattern, li):
    edges = [(LABELS[li][s], LABELS[li][d]) for s, d in pattern]
    check(ctx, edges, (pattern, li))
    check(ctx, edges[::-1], (pattern, li, "r"))


def gen_big(tier):
    for n in (10, 40, 200) + ((2000,) if tier == THOROUGH else ()):
        for shape in ("chain", "ladder", "star", "tree", "cycle", "two"):
            yield shape, n
    for n in (33000, 66000) + ((140000,) if tier == THOROUGH else ()):
        for shape in ("chain", "star", "tree", "cycle", "two", "far"):
            yield shape, n


def reach_fast(edges, v):
    out = {}
    for s, d in edges:
        out.setdefault(s, []).append(d)
    seen, todo = {v}, [v]
    while todo:
        for d in out.get(todo.pop(), ()):
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return [s in seen for s, _ in edges] if v in out else [d == v for _, d in edges]


def huge(ctx, shape, n, edges):
    """Counts and ids past 16 bits, against a graph search."""
    for order in (edges, edges[::-1]):
        adj = gcl.AdjacencyList(np.array(order, dtype=np.int32))
        verts = sorted({v for e in order for v in e})
        for v in {verts[0], verts[len(verts) // 3], verts[2 * len(verts) // 3], verts[-2], verts[-1], order[0][0], order[-1][1]}:
            want = np.array(reach_fast(order, v))
            got = gcl.select.vertex_descendants(adj, v)
            require(got.data.shape == want.shape and not (got.data != want).any(), "descendants of {} in a {} of {} edges differ at {}", v, shape, len(order), np.flatnonzero(got.data != want)[:5])
        e = order[len(order) // 2]
        want = np.array(reach_fast(order, e[1])) | np.array([x == e for x in order])
        require(not (gcl.select.edge_descendants(adj, e).data != want).any(), "descendants of edge {} in a {} of {} edges", e, shape, len(order))
        ctx.ev((shape, n, order[0]))
    ctx.outcome(shape)


@C.family("long shapes", gen_big)
def long_shapes(ctx, shape, n):
    if shape == "chain":
        edges = [(-i, -i - 1) for i in range(1, n)] + [(-n, 5)]
    elif shape == "ladder":
        edges = [(-2 * i - a, -2 * i - 2 - b) for i in range(1, n) for a in (0, 1) for b in (0, 1)]
    elif shape == "star":
        edges = [(0, i) for i in range(1, n)] + [(i, 1000 + i) for i in range(1, n, 3)]
    elif shape == "tree":
        edges = [(-((i + 1) // 2), -(i + 1)) for i in range(1, n)]
    elif shape == "cycle":
        edges = [(i, (i + 1) % n) for i in range(n)]
    elif shape == "far":
        edges = [(5 * i - 10**9, 5 * i - 10**9 + 5 + 5 * (i % 2)) for i in range(n)]
    else:
        edges = [(i, i + 2) for i in range(n)]
    if n > 30000:
        return huge(ctx, shape, n, edges)
    for order in (edges, edges[::-1], edges[::2] + edges[1::2]):
        verts = sorted({v for e in order for v in e})
        check(ctx, order, (shape, n, order[0]), queries=verts[:3] + verts[len(verts) // 2 : len(verts) // 2 + 2] + verts[-2:])
