"""C16: edge lists and matrices describe the same graph."""
from mc.core import Check
from mc.util import *

C = Check(
    "C16",
    "exploration",
    "exhaustive enumeration of all small directed multigraphs under several vertex labellings against a plain edge-list model, in both conversion directions",
    "Every ordered list of up to 4 edges over 3 vertices and 3 edges over 4 vertices, self-loops and repeats included, under "
    "labellings with zero, negative and extreme ids, with and without weights; every 3x3 matrix over a value set.",
    "cases: edge list x labelling, or matrix; non-trivial when there is at least one edge",
    ["empty edge lists are excluded as in the statement"],
)
LABELS = (
    (1, 2, 3, 4), (0, -1, 5, -9), (-3, -2, -1, -4), (7, -7, 2, -2), (2**31 - 1, -(2**31) + 1, 0, 65536), (1, -(2**31), 2**31 - 1, -7), (300, 20, -1, 10000),
)
WEIGHTS = (0.5, -2.0, 3.25, 0.0)


def model(edges):
    labels = sorted({v for e in edges for v in e})
    idx = {v: i for i, v in enumerate(labels)}
    return labels, [(idx[s], idx[d]) for s, d in edges]


def dense(edges, values, dtype):
    labels, rel = model(edges)
    out = np.zeros((len(labels), len(labels)), dtype=dtype)
    for (s, d), v in zip(rel, values):
        out[s, d] += v
    return out


def check_views(adj, edges, weights, what):
    labels, rel = model(edges)
    srcs, dsts = {e[0] for e in edges}, {e[1] for e in edges}
    nodes = np.asarray(adj.nodes).tolist()
    require(sorted(nodes) == labels, "{}: nodes {} of {}", what, nodes, edges)
    mags = list(map(abs, nodes))
    require(mags == sorted(mags), "{}: nodes {} not by magnitude", what, nodes)
    for name, want in (("roots", [s not in dsts for s, _ in edges]), ("leaves", [d not in srcs for _, d in edges])):
        got = getattr(adj, name)
        require(isinstance(got, M) and got.data.tolist() == want, "{}: {} of {} are {}", what, name, edges, got)
    mat = adj.matrix
    if weights is None:
        want = dense(edges, [1] * len(edges), int)
        require(np.asarray(mat).dtype.kind in "iu", "{}: matrix dtype {}", what, mat.dtype)
        require(same(np.asarray(mat), want), "{}: matrix of {} is {}", what, edges, mat)
    else:
        want = dense(edges, weights, float)
        require(close(np.asarray(mat), want), "{}: matrix of {} with {} is {}", what, edges, weights, mat)
    vals = np.array([1.5 * (i + 1) for i in range(len(edges))])
    sp = adj.to_sparse(vals)
    require(sp.shape == want.shape, "{}: sparse shape {}", what, sp.shape)
    require(close(sp.toarray(), dense(edges, vals, float)), "{}: sparse values of {}", what, edges)
    got = sorted(zip(sp.row.tolist(), sp.col.tolist(), sp.data.tolist()))
    require(got == sorted((s, d, float(v)) for (s, d), v in zip(rel, vals)), "{}: sparse entries {}", what, got)
    ints = np.arange(1, len(edges) + 1)
    require(same(adj.to_sparse(ints).toarray(), dense(edges, ints, int)), "{}: sparse integers", what)
    out = adj.to_sparse()
    want = sorted((s, d, e[1] > 0) for (s, d), e in zip(rel, edges))
    require(sorted(zip(out.row.tolist(), out.col.tolist(), map(bool, out.data.tolist()))) == want, "{}: sparse default of {}", what, edges)


def gen(tier):
    for k in range(1, 5 if tier == THOROUGH else 4):
        yield from ((e, li) for e in it.product(it.product(range(3), repeat=2), repeat=k) for li in range(len(LABELS)))
    for k in (3,) if tier != THOROUGH else (3, 4):
        for e in it.product(it.product(range(4), repeat=2), repeat=k):
            if len({v for x in e for v in x}) == 4:
                for li in ((1, 3) if tier != THOROUGH or k == 4 else range(len(LABELS))):
                    yield e, li
    if tier != THOROUGH:
        for e in it.product(it.product(range(3), repeat=2), repeat=4):
            yield e, 3


@C.family("edge lists", gen)
def edge_lists(ctx, pattern, li):
    edges = [(LABELS[li][s], LABELS[li][d]) for s, d in pattern]
    arr = np.array(edges, dtype=np.int32)
    adj = gcl.AdjacencyList(arr.copy())
    before = frozen(adj)
    check_views(adj, edges, None, "unweighted")
    check_views(adj, edges, None, "unweighted, again")
    require(frozen(adj) == before, "the edge list changed")
    w = [WEIGHTS[i % 4] for i in range(len(edges))]
    wadj = gcl.AdjacencyList(arr.copy(), weights=np.array(w))
    before = frozen(wadj)
    check_views(wadj, edges, w, "weighted")
    check_views(wadj, edges, w, "weighted, again")
    require(frozen(wadj) == before, "the weighted edge list changed")
    if li == 0 or len(edges) < 3:
        for w in (0.0, 1.0, -1.0, 1e-300):
            for ws in ([w] * len(edges), [w * (-1) ** i for i in range(len(edges))]):
                check_views(gcl.AdjacencyList(arr.copy(), weights=np.array(ws)), edges, ws, "weights of one size")
    ev = gcl.Graphicle.from_numpy(edges=arr, pdg=np.full(len(edges), 21))
    require(same(ev.nodes, adj.nodes), "event nodes")
    # back through the dense matrix
    labels, rel = model(edges)
    back = gcl.AdjacencyList.from_matrix(np.asarray(adj.matrix))
    require(sorted(map(tuple, cols(back).tolist())) == sorted(set(rel)), "edges of the matrix of {}: {}", edges, cols(back))
    ctx.ev((pattern, li))
    ctx.outcome(len(labels))


VALS = (0.0, 1.0, -2.5)


def gen_mat(tier):
    for n in (1, 2):
        yield from (((n, m),) for m in it.product(VALS + ((0.25, 1e-12) if tier == THOROUGH else (0.25,)), repeat=n * n))
    yield from (((3, m),) for m in it.product(VALS if tier == THOROUGH else (0.0, -2.5), repeat=9))


@C.family("matrices", gen_mat)
def matrices(ctx, spec):
    n, flat = spec
    mat = np.array(flat).reshape(n, n)
    for a in (mat, np.asfortranarray(mat), (mat != 0), (mat != 0).astype("<i4") * 3):
        a = a.copy(order="K")
        keep = a.copy()
        entries = {(i, j): a[i, j] for i in range(n) for j in range(n) if a[i, j] != 0}
        for weighted in (False, True):
            adj = gcl.AdjacencyList.from_matrix(a, weighted=weighted)
            got = list(map(tuple, cols(adj).tolist()))
            require(len(got) == len(entries) and set(got) == set(entries), "edges {} of {}", got, a)
            if weighted:
                require(len(adj.weights) == len(got), "weights {}", adj.weights)
                require(all(w == entries[e] for e, w in zip(got, adj.weights.tolist())), "weights {} of {}", adj.weights, a)
            else:
                require(len(adj.weights) == 0, "unweighted list has weights")
            nodes = {v for e in entries for v in e}
            if nodes == set(range(n)):
                back = np.asarray(adj.matrix)
                require(same(back, a if weighted else (a != 0).astype(int)), "round trip of {} gives {}", a, back)
            looped = gcl.AdjacencyList.from_matrix(a, weighted=weighted, self_loop=True)
            got = list(map(tuple, cols(looped).tolist()))
            want = set(entries) | {(i, i) for i in range(n)}
            require(len(got) == len(want) and set(got) == want, "looped edges {} of {}", got, a)
            if weighted:
                require(len(looped.weights) == len(got), "looped weights")
                require(all(w == entries[e] for e, w in zip(got, looped.weights.tolist()) if e[0] != e[1]), "looped weights of {}", a)
        require(same(a, keep), "the matrix was modified")
    ctx.ev(spec if any(flat) else None)
    ctx.outcome(sum(map(bool, flat)))


BIG = 2**31 - 1
FINE = (0.1, 1 / 3, 1e-50, 5e-324, 2.0**53 - 1, 1e300, -0.7, 1e-17, -123456789.123456789, 16777217.0, 1 + 2.0**-52, 1e39)


@C.family("fine weights", lambda tier: ((k, n) for k in range(len(FINE)) for n in (1, 2, 3, 5)))
def fine_weights(ctx, k, n):
    """Weights that need every digit and the whole range of a double."""
    full = np.array([FINE[(k + 5 * i) % len(FINE)] for i in range(n * n)]).reshape(n, n)
    for mat in (full, np.where(np.add.outer(range(n), range(n)) % 2, full, 0.0), np.triu(full)):
        entries = {(i, j): mat[i, j] for i in range(n) for j in range(n) if mat[i, j] != 0}
        for looped in (False, True):
            adj = gcl.AdjacencyList.from_matrix(mat.copy(), weighted=True, self_loop=looped)
            got = dict(zip(map(tuple, cols(adj).tolist()), adj.weights.tolist()))
            want = set(entries) | ({(i, i) for i in range(n)} if looped else set())
            require(set(got) == want and len(got) == len(adj), "edges {} of {}", got, mat)
            require(all(got[e] == w for e, w in entries.items() if not looped or e[0] != e[1]), "weights {} of {}", got, mat)
        adj = gcl.AdjacencyList.from_matrix(mat.copy(), weighted=True)
        if entries and {v for e in entries for v in e} == set(range(n)):
            require(same(np.asarray(adj.matrix), mat), "round trip of {} gives {}", mat, adj.matrix)
        e = list(entries)
        if e:
            flat = gcl.AdjacencyList(np.array(e) + 1, weights=np.array([entries[x] for x in e]))
            check = [(s + 1, d + 1) for s, d in e]
            require(same(np.asarray(flat.matrix), dense(check, [entries[x] for x in e], float)), "matrix of the weights {}", flat.weights)
            require(same(flat.to_sparse(flat.weights).data, flat.weights), "sparse weights")
    ctx.ev((k, n))


def gen_big(tier):
    for k in (100, 127, 128, 129, 255, 256, 257, 400, 32767, 32768, 65536):
        yield "parallel", k
    for k in (10, 100, 127, 128, 129, 255, 256, 257, 300) + ((1000,) if tier == THOROUGH else ()):
        for kind in ("chain", "reversed chain", "star in", "star out", "negative chain", "spread chain"):
            yield kind, k
    for k in range(8):
        yield "large labels", k


@C.family("sizes", gen_big)
def sizes(ctx, kind, k):
    """Many parallel edges, many vertices and labels of every magnitude."""
    if kind == "parallel":
        edges = [(1, 2)] * k + [(2, 3)] * 2 + [(3, 1)]
    elif kind == "large labels":
        labels = (1, -2, 40000, -70000, 2**24 + 1, -(2**24) - 2, BIG, -BIG - 1)
        edges = [(labels[k], labels[(k + 1) % 8]), (labels[(k + 1) % 8], labels[(k + 2) % 8]), (labels[(k + 3) % 8], labels[(k + 1) % 8])]
    else:
        f = {"negative chain": lambda v: -v, "spread chain": lambda v: (-1) ** v * v * 1013}.get(kind, lambda v: v)
        edges = [(f(v), f(v + 1)) for v in range(1, k + 1)]
        if kind == "star in":
            edges = [(v, k + 1) for v in range(1, k + 1)]
        elif kind == "star out":
            edges = [(k + 1, v) for v in range(1, k + 1)]
        elif kind == "reversed chain":
            edges = edges[::-1]
    adj = gcl.AdjacencyList(np.array(edges, dtype=np.int32))
    check_views(adj, edges, None, kind)
    w = [WEIGHTS[i % 4] for i in range(len(edges))]
    check_views(gcl.AdjacencyList(np.array(edges, dtype=np.int32), weights=np.array(w)), edges, w, kind + " weighted")
    ctx.ev((kind, k))


def gen_long(tier):
    for k in (32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000) + ((1_000_000,) if tier == THOROUGH else ()):
        for kind in ("chain", "negative chain", "reversed chain", "pairs", "spread"):
            yield kind, k


@C.family("long lists", gen_long)
def long_lists(ctx, kind, k):
    """More vertices than 16 bits can number: roots, leaves, nodes and sparse entries."""
    i = np.arange(1, k, dtype=np.int64)
    src, dst = {
        "chain": (i, i + 1), "negative chain": (-i, -i - 1), "reversed chain": (i[::-1], i[::-1] + 1), "pairs": (2 * i, 2 * i + 1),
        "spread": (i * 2039, -(i + 1) * 2039),
    }[kind]
    src, dst = (v[np.abs(src * 1.0).argsort(kind="stable")] if kind == "reversed chain" and k % 2 else v for v in (src, dst))
    pairs = np.stack((src, dst), axis=1)
    if np.abs(pairs).max() > BIG:
        return
    adj = gcl.AdjacencyList(pairs)
    labels = np.unique(pairs)
    require(same(np.sort(np.asarray(adj.nodes)).astype(np.int64), labels), "nodes of a {} of {}", kind, k)
    require(bool(np.all(np.diff(np.abs(np.asarray(adj.nodes).astype(np.int64))) >= 0)), "order of the nodes of a {} of {}", kind, k)
    inner = set(src.tolist()) & set(dst.tolist())
    require(same(adj.roots.data, np.array([v not in inner for v in src.tolist()])), "roots of a {} of {}", kind, k)
    require(same(adj.leaves.data, np.array([v not in inner for v in dst.tolist()])), "leaves of a {} of {}", kind, k)
    vals = np.arange(len(pairs)) + 0.5
    sp = adj.to_sparse(vals)
    require(sp.shape == (len(labels), len(labels)), "shape of the matrix of a {} of {}: {}", kind, k, sp.shape)
    order = np.argsort(sp.data)
    row, col, data = (np.asarray(x)[order] for x in (sp.row, sp.col, sp.data))
    require(same(data, vals) and same(labels[row], pairs[:, 0]) and same(labels[col], pairs[:, 1]), "entries of a {} of {}", kind, k)
    ctx.ev((kind, k))
