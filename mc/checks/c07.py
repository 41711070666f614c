"""C07: derived quantities always reflect the current data."""
from mc.core import Check
from mc.util import *

C = Check(
    "C07",
    "model_checking",
    "lockstep exploration of read / write histories against a model that recomputes every derived quantity from scratch",
    "All histories of reads and writes up to the depth (no pruning by state equality, as the cache state is what is "
    "checked) are replayed on one real object; after each, every derived quantity equals a fresh object's.",
    "state: current data and set of quantities read since the last write; transition: one read or one write; "
    "every history is replayed from scratch",
    ["writes into an array handed out by the object, which it cannot notice, are outside the property"],
)
READS = ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")
A = np.array([[1.0, 2.0, 3.0, 9.0], [-3.0, 0.5, -1.0, 4.0]])
B = np.array([[2.0, -1.0, 0.0, 5.0], [0.0, 0.0, 4.0, 6.0], [1.0, 1.0, 1.0, 1.0]])
E = np.array([[-4.0, 1.0, 2.5, 6.0], [2.5, 2.0, -1.5, 7.0]])


def w_setter(p, d):
    new = B if len(d) == 2 else A
    p.data = new.copy()
    return p, new.copy()


def w_setter_struct(p, d):
    p.data = gcl.MomentumArray(E.copy()).data
    return p, E.copy()


def w_setter_list(p, d):
    p.data = (E + 1.0).tolist()
    return p, E + 1.0


def w_iadd(p, d):
    p += 1.0
    return p, d + 1.0


def w_imul_arr(p, d):
    p *= np.array([2.0, -1.0, 3.0, 4.0])
    return p, d * np.array([2.0, -1.0, 3.0, 4.0])


def w_isub_self(p, d):
    p -= gcl.MomentumArray(d * 0.5)
    return p, d * 0.5


def w_itruediv(p, d):
    p /= -2.0
    return p, d / -2.0


def w_out(p, d):
    np.add(d * 1.5, 0.25, out=p)
    return p, d * 1.5 + 0.25


def w_out_other(p, d):
    q = gcl.MomentumArray(d.copy())
    q.pt, q.mass
    np.multiply(q, 3.0, out=p)
    return p, d * 3.0


def w_out_tuple(p, d):
    np.negative(p, out=(p,))
    return p, -d


def w_at(p, d):
    np.add.at(p, [0, 0], 1.5)
    d = d.copy()
    d[0] += 3.0
    return p, d


def w_where(p, d):
    keep = np.zeros(d.shape, dtype=bool)
    keep[0] = True
    np.add(p, 2.0, out=p, where=keep)
    return p, d + 2.0 * keep


def w_accumulate(p, d):
    np.add.accumulate(p, axis=0, out=p)
    return p, np.add.accumulate(d, axis=0)


WRITES = {
    f.__name__[2:]: f
    for f in (w_setter, w_setter_struct, w_setter_list, w_iadd, w_imul_arr, w_isub_self, w_itruediv, w_out,
              w_out_other, w_out_tuple, w_at, w_where, w_accumulate)
}


def run_history(hist, read, writes, make, check, ctx):
    obj, data = make()
    since = []
    for ev in hist:
        if ev[0] == "r":
            read(obj, ev[1])
            since.append(ev[1])
        else:
            obj2, data = writes[ev[1]](obj, data)
            require(obj2 is obj, "the object was replaced by {}", ev)
            since = []
        ctx.step()
    ctx.state((data.tobytes() if isinstance(data, np.ndarray) else repr(data), tuple(sorted(set(since)))))
    ctx.trace()
    check(obj, data, hist)


def histories(reads, writes, depth):
    events = [("r", r) for r in reads] + [("w", w) for w in writes]
    for n in range(depth + 1):
        for h in it.product(events, repeat=n):
            yield h


def gen_pmu(tier):
    events = [("r", r) for r in READS] + [("w", w) for w in WRITES]
    depth = 5 if tier == THOROUGH else 4
    yield (), 0
    for e1 in events:
        yield (e1,), 1
        for e2 in events:
            yield (e1, e2), depth


def quantities(p):
    return {a: np.array(getattr(p, a)) for a in READS}


def check_pmu(p, data, hist):
    raw = cols(p)
    require(close(raw, data, rtol=1e-12), "data is {} instead of {} after {}", raw.tolist(), data.tolist(), hist)
    fresh = gcl.MomentumArray(raw.copy())
    require(same(p.x, raw[:, 0]) and same(p.y, raw[:, 1]) and same(p.z, raw[:, 2]) and same(p.energy, raw[:, 3]),
            "components are stale after {}", hist)
    for a in READS:
        got, want = getattr(p, a), getattr(fresh, a)
        require(close(got, want, rtol=1e-12), "{} is {} instead of {} after {}", a, got, want, hist)
        require(same(getattr(p, a), got), "second read of {} differs after {}", a, hist)


@C.family("momenta", gen_pmu)
def momenta(ctx, prefix, depth):
    events = [("r", r) for r in READS] + [("w", w) for w in WRITES]
    for n in range(0, depth - len(prefix) + 1):
        for rest in it.product(events, repeat=n):
            hist = prefix + rest
            # a history ending in a read is covered by the final observation
            if rest and hist[-1][0] == "r" and n > 0:
                continue
            # reads right after one another commute with the final observation only as sets
            if any(x[0] == "r" == y[0] and READS.index(x[1]) > READS.index(y[1]) for x, y in zip(hist, hist[1:])):
                continue
            run_history(hist, getattr, WRITES, lambda: (gcl.MomentumArray(A.copy()), A.copy()), check_pmu, ctx)
            ctx.ev(hist)


@C.family("read orders", lambda tier: ((o,) for o in it.permutations(READS)))
def read_orders(ctx, order):
    """Every order of the seven reads, before and after a write."""
    p = gcl.MomentumArray(A.copy())
    for a in order:
        getattr(p, a)
    check_pmu(p, A, order)
    p += 1.0
    for a in order:
        getattr(p, a)
    check_pmu(p, A + 1.0, order)
    ctx.ev(order)
    ctx.step(15)
    ctx.trace()


# ------------------------------------------------------------------ edge lists
EA = np.array([[1, 2], [1, 3], [3, -4]])
EB = np.array([[5, 1], [2, 1], [1, 2], [2, 7]])
EC = np.array([[3, 1], [1, 2], [2, 9]])
ADJ_READS = ("nodes", "roots", "leaves", "matrix", "sparse", "descend", "edges")


def adj_read(adj, what):
    if what == "nodes":
        return np.array(adj.nodes)
    if what == "roots":
        return np.array(adj.roots.data)
    if what == "leaves":
        return np.array(adj.leaves.data)
    if what == "matrix":
        return np.array(adj.matrix)
    if what == "sparse":
        return adj.to_sparse().toarray()
    if what == "descend":
        return np.array([gcl.select.vertex_descendants(adj, int(v)).data for v in np.unique(cols(adj))])
    return cols(adj.edges)


def a_iadd(a, d):
    a += 1
    return a, (d[0] + 1, d[1])


def a_out(a, d):
    np.multiply(d[0], -1, out=a)
    return a, (-d[0], d[1])


def a_at(a, d):
    np.add.at(a, 0, 1)
    new = d[0].copy()
    new[0] += 1
    return a, (new, d[1])


def a_flip(a, d):
    np.subtract(np.array([[0, 0]]), a, out=a)
    return a, (-d[0], d[1])


def a_weights(a, d):
    w = np.arange(len(d[0])) * 1.5 + (1.0 if d[1] is None else d[1][0] + 1.0)
    a.weights = w.copy()
    return a, (d[0], w)


ADJ_WRITES = {f.__name__[2:]: f for f in (a_iadd, a_out, a_at, a_flip, a_weights)}


def check_adj(a, d, hist):
    require(same(cols(a), d[0]), "edges are {} instead of {} after {}", cols(a).tolist(), d[0].tolist(), hist)
    fresh = gcl.AdjacencyList(d[0].copy()) if d[1] is None else gcl.AdjacencyList(d[0].copy(), d[1].copy())
    for what in ADJ_READS:
        got, want = adj_read(a, what), adj_read(fresh, what)
        require(same(got, want), "{} is {} instead of {} after {}", what, got.tolist(), want.tolist(), hist)
        require(same(adj_read(a, what), got), "second read of {} differs after {}", what, hist)


def gen_adj(tier):
    events = [("r", r) for r in ADJ_READS] + [("w", w) for w in ADJ_WRITES]
    depth = 4 if tier == THOROUGH else 3
    for weighted in (False, True):
        for e1 in events:
            for e2 in events:
                yield weighted, (e1, e2), depth


@C.family("edge lists", gen_adj)
def edge_lists(ctx, weighted, prefix, depth):
    events = [("r", r) for r in ADJ_READS] + [("w", w) for w in ADJ_WRITES]

    def make():
        w = np.array([0.5, 1.0, 2.0])
        if weighted:
            return gcl.AdjacencyList(EA.copy(), w.copy()), (EA.copy(), w)
        return gcl.AdjacencyList(EA.copy()), (EA.copy(), None)

    for n in range(0, depth - len(prefix) + 1):
        for rest in it.product(events, repeat=n):
            hist = prefix + rest
            run_history(hist, adj_read, ADJ_WRITES, make, check_adj, ctx)
            ctx.ev((weighted, hist))


@C.family("inside events", lambda tier: ((r, w) for r in READS for w in WRITES))
def in_event(ctx, r, w):
    ev = gcl.Graphicle.from_numpy(pmu=A.copy(), edges=EA[:2].copy())
    getattr(ev.pmu, r)
    p, data = WRITES[w](ev.pmu, A.copy())
    ctx.ev((r, w))
    check_pmu(ev.pmu, data, (r, w))
    check_pmu(ev.particles.pmu, data, (r, w))


@C.family("long arrays", lambda tier: ((n, w) for n in (16, 65, 130, 1000) for w in WRITES))
def long_arrays(ctx, n, w):
    """Every write on a long array all of whose derived quantities were read."""
    i = np.arange(n)
    raw = np.stack([np.cos(i) * (i % 7 + 1), np.sin(i) * (i % 5 + 2), (i % 11) - 5.0, 20.0 + i % 13], axis=-1)
    for reads in ((), READS, READS[::-1]):
        p = gcl.MomentumArray(raw.copy())
        for r in reads:
            getattr(p, r)
        if w in ("setter", "setter_struct", "setter_list"):
            data = np.roll(raw, 1, axis=0) * 1.5
            p.data = {"setter": data.copy(), "setter_struct": gcl.MomentumArray(data).data, "setter_list": data.tolist()}[w]
        else:
            p, data = WRITES[w](p, raw.copy())
        ctx.step()
        check_pmu(p, data, (n, reads, w))
    ctx.ev((n, w))
    ctx.trace()


@C.family("long edge lists", lambda tier: ((n, w) for n in (20, 70, 300) for w in ADJ_WRITES))
def long_edges(ctx, n, w):
    i = np.arange(n)
    raw = np.stack([i // 2 + 1, i + 2], axis=-1)
    for weighted in (False, True):
        d = (raw.copy(), i * 0.5 + 1.0 if weighted else None)
        a = gcl.AdjacencyList(raw.copy(), d[1].copy()) if weighted else gcl.AdjacencyList(raw.copy())
        for what in ADJ_READS[:-2] + ("edges",):
            adj_read(a, what)
        a, d = ADJ_WRITES[w](a, d)
        ctx.step()
        fresh = gcl.AdjacencyList(d[0].copy()) if d[1] is None else gcl.AdjacencyList(d[0].copy(), d[1].copy())
        for what in ADJ_READS[:-2] + ("edges",):
            require(same(adj_read(a, what), adj_read(fresh, what)), "{} of {} edges is stale after {}", what, n, w)
        for v in (1, 2, int(cols(a)[0, 0]), int(cols(a)[-1, 1])):
            if v in cols(a):
                require(same(gcl.select.vertex_descendants(a, v).data, gcl.select.vertex_descendants(fresh, v).data), "descendants of {} after {}", v, w)
    ctx.ev((n, w))
    ctx.trace()
