"""C29: adjacency constructed from affinities keeps exactly the right edges."""
from mc.core import Check
from mc.util import *

C = Check(
    "C29",
    "exploration",
    "exhaustive enumeration of small affinity matrices over a value set with ties, every cut, k and flag combination",
    "Every symmetric affinity matrix up to the size bound over a value set with ties, every k up to all others, every cut "
    "at, between and beyond the values, every flag combination, judged by the defining comparisons.",
    "cases: (size, upper triangle, diagonal); non-trivial for sizes of at least two",
    ["no NaN affinities; nearest neighbours only for symmetric affinities; off-diagonal entries are judged apart from "
     "self-loops, which carry weight one in cut_adj and their affinity in knn_adj"],
)
X = gcl.matrix




def sym(tier):
    sizes = ((1, (0.5, 1.0)), (2, (0.0, 0.5, 1.0, 2.0)), (3, (0.0, 0.5, 1.0, np.inf)), (4, (0.5, 1.0, 2.0)),
             (5, (0.5, 1.0)) if tier == "quick" else (5, (0.5, 1.0, 2.0)))
    for n, vals in sizes:
        for tri in it.product(vals, repeat=n * (n - 1) // 2):
            yield n, tri
    for k in range(24):
        n = 6 + k % 4
        yield n, tuple(((i * 7 + k * 3) % (3 + k)) / 2.0 + 0.25 for i in range(n * (n - 1) // 2))


def matrix(n, tri, diag=0.0):
    m = np.zeros((n, n))
    m[np.triu_indices(n, 1)] = tri
    m = m + m.T
    np.fill_diagonal(m, diag)
    return m


def storages(m):
    yield "C order", m.copy()
    yield "Fortran order", np.asfortranarray(m)
    yield "strided", np.repeat(np.repeat(m, 2, axis=0), 2, axis=1)[::2, ::2]


@C.family("nearest neighbours", lambda t: sym(t))
def knn(ctx, n, tri):
    off = ~np.eye(n, dtype=bool)
    for diag in (0.0, 1.0):
        base_m = matrix(n, tri, diag)
        for order, m in list(storages(base_m))[: 1 if n > 3 else 3]:
            for k in range(0, n):
                for weighted, row, self_loop in it.product((False, True), repeat=3):
                    kk = k + 1 if self_loop else k
                    keep = frozen(m)
                    adj = X.knn_adj(m, kk, self_loop=self_loop, weighted=weighted, row=row)
                    tag = f"knn_adj(k={kk}, self_loop={self_loop}, weighted={weighted}, row={row}) of {base_m.tolist()} ({order})"
                    require(frozen(m) == keep and not np.shares_memory(adj, m), "{} modified or aliased its input", tag)
                    require(adj.shape == (n, n), "{} has shape {}", tag, adj.shape)
                    require(adj.dtype == (np.float64 if weighted else np.bool_), "{} has dtype {}", tag, adj.dtype)
                    a = np.asarray(adj if row else adj.T)
                    edges = X.knn_adj(m, kk, self_loop=self_loop, weighted=False, row=row)
                    edges = edges if row else edges.T
                    if weighted:
                        require(same(a[off], np.where(edges, base_m, 0.0)[off]), "{} carries {} instead of affinities", tag, a.tolist())
                        if self_loop:
                            require(same(np.diag(a), np.where(np.diag(edges), np.diag(base_m), 0.0)), "{} has diagonal {}", tag, np.diag(a))
                    if not self_loop:
                        require(not np.diag(a).any(), "{} has self-loops", tag)
                    cnt = edges.sum(axis=1)
                    require(np.all(cnt == kk), "{} has {} edges per row instead of {}", tag, cnt, kk)
                    for i in range(n):
                        cand = [j for j in range(n) if self_loop or j != i]
                        kept = [base_m[i, j] for j in cand if edges[i, j]]
                        left = [base_m[i, j] for j in cand if not edges[i, j]]
                        require(not kept or not left or max(kept) <= min(left),
                                "{}: row {} keeps {} and leaves out {}", tag, i, kept, left)
                    ctx.ev((n, tri, k, diag) if n > 1 else None)
            for dt in ("<f4", np.float64, "<f8"):
                adj = X.knn_adj(m, n - 1, weighted=True, dtype=dt)
                require(adj.dtype == np.dtype(dt) and np.allclose(adj[off], base_m[off]), "dtype {} gives {}", dt, adj.dtype)
            require_raises(ValueError, "weighted with integer dtype", X.knn_adj, m, max(n - 1, 0), weighted=True, dtype="<i4")
    ctx.outcome(n)


def cuts(n, tri):
    vals = sorted((set(tri) | {0.0}) - {np.inf})
    out = set(vals)
    out.update((a + b) / 2 for a, b in zip(vals, vals[1:]))
    out.update((vals[0] - 1.0, vals[-1] + 1.0))
    return sorted(out)


@C.family("cuts", lambda t: sym(t))
def cut(ctx, n, tri):
    off = ~np.eye(n, dtype=bool)
    variants = [matrix(n, tri), matrix(n, tri, 1.0)]
    asym = matrix(n, tri)
    asym[np.tril_indices(n, -1)] += 0.25
    asym -= 0.5
    variants.append(asym)
    for base_m in variants:
        for order, m in list(storages(base_m))[: 1 if n > 3 else 3]:
            for c in cuts(n, tri):
                for mode in ("max", "min", None):
                    for weighted, self_loop in it.product((False, True), repeat=2):
                        keep = frozen(m)
                        kw = {} if mode is None else {"mode": mode}
                        adj = X.cut_adj(m, c, self_loop=self_loop, weighted=weighted, **kw)
                        tag = f"cut_adj({c}, mode={mode}, self_loop={self_loop}, weighted={weighted}) of {base_m.tolist()} ({order})"
                        require(frozen(m) == keep and not np.shares_memory(adj, m), "{} modified or aliased its input", tag)
                        side = base_m > c if mode == "min" else base_m < c
                        require(adj.dtype == (np.float64 if weighted else np.bool_) and adj.shape == (n, n), "{}: {}", tag, adj.dtype)
                        want = np.where(side, base_m, 0.0) if weighted else side
                        require(same(adj[off], want[off]), "{} is {}", tag, adj.tolist())
                        require(np.all(np.diag(adj) == (1 if self_loop else 0)), "{} has diagonal {}", tag, np.diag(adj))
                        ctx.ev((n, tri, c, mode) if n > 1 else None)
    m = matrix(n, tri)
    require_raises(ValueError, "unknown mode", X.cut_adj, m, 1.0, mode="mid")
    require_raises(ValueError, "weighted is not a boolean", X.cut_adj, m, 1.0, weighted=None)
    ctx.outcome(n)


@C.family("undefined affinities", lambda t: ((n, c) for n in (2, 3, 5, 40) for c in range(6)))
def undefined(ctx, n, c):
    """An undefined or infinite entry is kept only if it is on the requested side."""
    m = np.array([[(i * 3 + j * 5) % 7 - 2.0 for j in range(n)] for i in range(n)])
    for k, odd in enumerate((np.nan, np.inf, -np.inf)):
        m[(np.arange(n * n).reshape(n, n) + c) % 11 == k] = odd
    at = (-3.0, 0.0, 1.5, 4.0, np.inf, -np.inf)[c]
    off = ~np.eye(n, dtype=bool)
    for mode, weighted, self_loop in it.product(("max", "min"), (False, True), (False, True)):
        with np.errstate(all="ignore"):
            adj = X.cut_adj(m, at, mode=mode, weighted=weighted, self_loop=self_loop)
        side = m > at if mode == "min" else m < at
        want = np.where(side, m, 0.0) if weighted else side
        require(np.array_equal(adj[off], want[off]), "cut_adj of {} at {}, {}: {}", m, at, mode, adj)
        require(np.all(np.diag(adj) == (1 if self_loop else 0)), "cut_adj of {}: diagonal {}", m, np.diag(adj))
        ctx.ev((n, c, mode, weighted, self_loop))


@C.family("fully connected", lambda t: ((n,) for n in range(0, 12)))
def full(ctx, n):
    for self_loop in (None, False, True):
        for dt in (None, bool, "<?", float, "<i4", np.float32):
            kw = {k: v for k, v in (("self_loop", self_loop), ("dtype", dt)) if v is not None}
            adj = X.fc_adj(n, **kw)
            require(adj.dtype == np.dtype(dt or bool) and adj.shape == (n, n), "fc_adj({}, {}) is {} {}", n, kw, adj.dtype, adj.shape)
            for i in range(n):
                for j in range(n):
                    require(adj[i, j] == (1 if i != j or self_loop else 0), "fc_adj({}, {}) has {} at {}", n, kw, adj[i, j], (i, j))
            ctx.ev((n, self_loop, str(dt)))
    ctx.outcome(n)


def gen_large(t):
    for n in (12, 17, 33, 64, 65) + ((130, 300) if t != "quick" else ()):
        for kind in range(6):
            yield n, kind


@C.family("larger matrices", gen_large)
def larger(ctx, n, kind):
    """Distances of points on lines and lattices, negative and huge affinities, with and without ties."""
    i = np.arange(n)
    pos = {0: i * 1.0, 1: (i * 7 % n) ** 1.5, 2: (i // 3) * 1.0, 3: np.sin(i * 1.7) * 5, 4: i * 1e-9, 5: i * 1e9}[kind]
    base_m = np.abs(pos[:, None] - pos[None, :])
    if kind == 3:
        base_m = base_m - 4.0
    off = ~np.eye(n, dtype=bool)
    keep = frozen(base_m)
    for k in sorted({0, 1, 2, 3, n // 2, n - 2, n - 1}):
        for weighted, row, self_loop in it.product((False, True), repeat=3):
            kk = k + 1 if self_loop else k
            adj = X.knn_adj(base_m, kk, self_loop=self_loop, weighted=weighted, row=row)
            a = np.asarray(adj if row else adj.T)
            edges = X.knn_adj(base_m, kk, self_loop=self_loop, row=row)
            edges = edges if row else edges.T
            tag = f"knn_adj(n={n}, k={kk}, self_loop={self_loop}, weighted={weighted}, row={row}), kind {kind}"
            if weighted:
                require(same(a[off], np.where(edges, base_m, 0.0)[off]), "{}: affinities", tag)
            require(np.all(edges.sum(axis=1) == kk), "{}: edges per row {}", tag, edges.sum(axis=1))
            require(self_loop or not np.diag(edges).any(), "{}: self-loops", tag)
            for r in range(n):
                cand = np.ones(n, bool) if self_loop else off[r]
                kept, left = base_m[r][edges[r] & cand], base_m[r][~edges[r] & cand]
                require(not len(kept) or not len(left) or kept.max() <= left.min(), "{}: row {}", tag, r)
            ctx.ev((n, kind, k))
    vals = np.unique(base_m)
    for c in (*vals[:: max(len(vals) // 9, 1)].tolist(), vals[-1] + 1.0, vals[0] - 1.0, float(np.mean(vals))):
        for mode, (weighted, self_loop) in it.product(("max", "min"), it.product((False, True), repeat=2)):
            adj = X.cut_adj(base_m, c, self_loop=self_loop, weighted=weighted, mode=mode)
            side = base_m > c if mode == "min" else base_m < c
            want = np.where(side, base_m, 0.0) if weighted else side
            require(same(adj[off], want[off]), "cut_adj({}, {}) of size {}", c, mode, n)
            require(np.all(np.diag(adj) == (1 if self_loop else 0)), "cut_adj({}) has diagonal {}", c, np.diag(adj))
            ctx.ev((n, kind, c, mode))
    for self_loop in (False, True):
        adj = X.fc_adj(n, self_loop=self_loop)
        require(same(adj, off | self_loop), "fc_adj({}, {})", n, self_loop)
    require(frozen(base_m) == keep, "the affinities were modified")
    ctx.outcome(kind)
