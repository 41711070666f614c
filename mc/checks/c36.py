"""C36: rejected operations leave everything as it was."""
from types import SimpleNamespace

from mc.core import Check
from mc.util import *

C = Check(
    "C36",
    "fault_enumeration",
    "exhaustive enumeration of histories in which every operation that is rejected is placed between every read and write, against the model in which it does nothing",
    "For every class: every pair of rejected operations, after no read, all reads or a write, followed by every write; all "
    "values, derived quantities, operands and process-wide settings are compared with the same history without them.",
    "state: values of the object and which derived quantities have been read; transitions: read, write, rejected operation; every history is replayed on real objects",
    ["which exception is raised is judged by the property that demands it"],
)
SE, CA, TR, MX = gcl.select, gcl.calculate, gcl.transform, gcl.matrix
A = np.array([[1.0, 2.0, 3.0, 9.0], [-3.0, 0.5, -1.0, 4.0], [0.25, -0.5, 8.0, 10.0]])
E = np.array([[1, 2], [1, 3], [3, -4]])


def setter(values):
    def op(o):
        o.data = values.copy() if isinstance(values, np.ndarray) else values

    return op


def index(key):
    return lambda o: o[key]


def assign(key, val):
    def op(o):
        o[key] = val

    return op


def common(width):
    """Operations every data array must refuse."""
    bad = np.zeros((3, 5)) if width > 1 else np.zeros((3, 2))
    out = {
        "set columns": setter(bad), "set text": setter([["a"] * max(width, 1)] * 2) if width > 1 else setter(["a", "b"]),
        "set ragged": setter([[1, 2], [3]]), "index": index(7), "index list": index([0, 9]), "mask length": index(M([True] * 5)),
        "add shape": lambda o: o.__iadd__(np.zeros((5, 7))), "at index": lambda o: np.add.at(o, [0, 99], 1), "compare shape": lambda o: np.equal(o, np.zeros((5, 7))),
        "out shape": lambda o: np.add(o, 1, out=np.zeros((1, 1, 9))), "construct": lambda o: type(o)(bad), "reduce axis": lambda o: np.sum(o, axis=5),
    }
    return out


def pmu_reads(o):
    return [np.array(getattr(o, a)) for a in ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t", "x", "energy")]


def adj_reads(o):
    return [np.array(o.nodes), np.array(o.roots.data), np.array(o.leaves.data), np.array(o.matrix), o.to_sparse().toarray(),
            np.array(SE.vertex_descendants(o, int(cols(o)[0, 0])).data)]


def none_reads(o):
    return [np.array(o.data), len(o), bool(o), repr(o)]


def group_reads(o):
    return [list(o), frozen(o), len(o), repr(o), o.serialize(), frozen(o.flatten("leaves"))]


def event_reads(o):
    return [str(o), len(o), pmu_reads(o.pmu), adj_reads(o.adj) if isinstance(o, gcl.Graphicle) else None, frozen(o.status.hard_mask), repr(o.pdg.name)]


def make_group():
    return G({"a": M([1, 0, 1]), "b": G({"c": M([0, 0, 1]), "latent": M([1, 1, 0])}, agg_op="or"), "d": M([1, 1, 1])}, agg_op="or")


CS = columns(3)
CS["pmu"], CS["edges"], CS["status"] = A, E, np.array([-22, 23, 23])


def make_event():
    return gcl.Graphicle.from_numpy(weights=np.array([0.5, 1.0, 2.0]), **{k: CS[k].copy() for k in ATTRS})


def grp_none(o):
    g = o.copy()
    g.agg_op = "none"
    return g.data


KINDS = {
    "pmu": (
        lambda: gcl.MomentumArray(A.copy()), pmu_reads,
        {"set": setter(A[::-1] * 2.0), "add": lambda o: o.__iadd__(1.5), "out": lambda o: np.multiply(o, -2.0, out=o), "at": lambda o: np.add.at(o, [0], 0.5)},
        {**common(4), "eq row": lambda o: o == (1.0, 2.0), "shift": lambda o: o.shift_rapidity(np.zeros(7)), "rotate": lambda o: o.shift_phi(np.zeros(7)),
         "threads 0": lambda o: o.delta_R(o, threads=0), "threads many": lambda o: o.delta_R(o[:1], True, 10**6), "fraction": lambda o: TR.split_hardest(o, 0.9, 0.1),
         "single": lambda o: TR.split_momentum(o, 0.2, 0.1, (0.1, 0.2)), "lone": lambda o: TR.split_hardest(o[:1], 0.2, 0.1),
         "jets": lambda o: SE.fastjet_clusters(o, radius=-1.0, p_val=-1), "cut": lambda o: SE.fastjet_clusters(o, radius=1.0, p_val=-1, pt_cut=-2.0),
         "count": lambda o: SE.fastjet_clusters(o, radius=1.0, p_val=-1, top_k=0), "coefficient threads": lambda o: CA.cluster_coeff_distbn(o, 1.0, True, 0),
         "distance to nothing": lambda o: o.delta_R(SimpleNamespace(eta=o.eta), True, 3), "closest to nothing": lambda o: SE.arg_closest(o, SimpleNamespace(eta=o.eta, _xy_pol=1), 2),
         "closest threads": lambda o: SE.arg_closest(o[:1], o, 0), "probability": lambda o: o.from_spherical_uniform(3, 1.0, 1.5, 2)},
    ),
    "pdg": (
        lambda: gcl.PdgArray([11, -5, 24]), lambda o: none_reads(o) + [o.name.tolist(), o.mass.tolist(), o.mass_bounds.tolist()],
        {"set": setter([1, 2, -3]), "mul": lambda o: o.__imul__(-1)},
        {**common(1), "unknown name": lambda o: o.from_name("nobody"), "one unknown": lambda o: o.from_name(["u", "nobody"]), "not text": lambda o: o.from_name(["u", 3]),
         "filter text": lambda o: o.mask(["x"])},
    ),
    "status": (lambda: gcl.StatusArray([21, -22, 23]), lambda o: none_reads(o) + [frozen(o.hard_mask)], {"set": setter([1, 2, -23]), "add": lambda o: o.__iadd__(1)}, common(1)),
    "helicity": (lambda: gcl.HelicityArray([1, -1, 0]), none_reads, {"set": setter([0, 2, -2]), "add": lambda o: o.__iadd__(1)}, common(1)),
    "color": (
        lambda: gcl.ColorArray([[501, 0], [0, 502], [503, 504]]), lambda o: none_reads(o) + [o.color.tolist(), o.anticolor.tolist()],
        {"set": setter([[1, 2], [3, 4], [5, 6]]), "add": lambda o: o.__iadd__(1)}, common(2),
    ),
    "adj": (
        lambda: gcl.AdjacencyList(E.copy(), np.array([0.5, 1.0, 2.0])), adj_reads,
        {"add": lambda o: o.__iadd__(1), "out": lambda o: np.negative(o, out=o), "weights": lambda o: setattr(o, "weights", np.array([2.0, 3.0, 5.0]))},
        {**{k: v for k, v in common(2).items() if not k.startswith("set")}, "weights text": lambda o: setattr(o, "weights", ["x"]),
         "sparse length": lambda o: o.to_sparse(np.zeros(7))},
    ),
    "mask": (
        lambda: M([True, False, True]), none_reads, {"set": setter([False, False, True]), "flip": assign(0, False), "put list": assign([0, 1], [True, True]), "put slice": assign(slice(0, 2), True),
         "put mask": assign(M([True, True, False]), np.array([True, False]))},
        {"set columns": setter([[True, False], [True, True]]), "index": index(7), "assign": assign(7, True), "assign list": assign([0, 9], False),
         "assign length": assign([True, True, False], [True, True, True]), "mask length": index(M([True] * 5)), "eq length": lambda o: o == M([True]),
         "ne length": lambda o: o != np.array([True, False]), "eq text": lambda o: o == "x", "and": lambda o: o & "x", "or": lambda o: o | 3,
         "and length": lambda o: o & M([True] * 5), "or length": lambda o: o | np.array([True] * 5)},
    ),
    "group": (
        make_group, group_reads,
        {"put": assign("z", M([0, 1, 0])), "put array": assign("a", np.array([False, True, True])), "put list": assign("y", [True, True, False]),
         "update": lambda o: o.update({"x": np.array([True, False, False])}), "drop": lambda o: o.recursive_drop(inplace=True), "mode": lambda o: setattr(o, "agg_op", "and"), "delete": lambda o: o.pop("a")},
        {"key": assign(3, M([1, 1, 1])), "key none": assign(None, [True]), "value": assign("a", [[True, False], [True, True]]), "missing": index("nothing"),
         "delete missing": lambda o: o.__delitem__("nothing"), "pop missing": lambda o: o.pop("nothing"), "list missing": index(["d", "nothing"]),
         "index": index(7), "mask length": index(M([True] * 5)), "no mode": grp_none, "eq length": lambda o: o == M([True]), "and": lambda o: o & "x",
         "or": lambda o: o | [True, True, True], "and length": lambda o: o & M([True] * 5), "put key": lambda o: o.setdefault(5, M([True]))},
    ),
    "event": (
        make_event, event_reads,
        {"pmu": lambda o: o.pmu.__iadd__(1.0), "pdg": lambda o: setattr(o.pdg, "data", [1, 2, 3]), "edges": lambda o: o.adj.__iadd__(1)},
        {"index": index(7), "index list": index([0, 9]), "mask length": index(M([True] * 5)), "array length": index(np.array([True])), "pmu columns": lambda o: setattr(o.pmu, "data", np.zeros((2, 3))),
         "no search": lambda o: SE.find_vertex(o), "jets": lambda o: SE.fastjet_clusters(o.pmu, radius=0.4, p_val=-1, eta_cut=-1.0),
         "stage": lambda o: SE.monte_carlo_tag(o.particles, [o.final], None, False, False), "lists": lambda o: SE.monte_carlo_tag(o.particles, [o.final], None, True, True, True, [5], [6]),
         "no clusters": lambda o: SE.monte_carlo_tag(o.particles, []), "few clusters": lambda o: SE.monte_carlo_tag(o.particles, [M([True] * int(o.final.data.sum()))], None, True, True),
         "threads": lambda o: o.pmu.delta_R(o.pmu, True, -1),
         "from columns": lambda o: gcl.Graphicle.from_numpy(pmu=o.pmu.data, edges=np.zeros((3, 3))), "event": lambda o: gcl.Graphicle.from_event(SimpleNamespace(pmu=np.zeros((2, 3)))),
         "les houches": lambda o: gcl.ParticleSet.from_lhe_event(SimpleNamespace(status=o.status.data, pdg=o.pdg.data))},
    ),
    "particles": (
        lambda: make_event().particles, event_reads, {"pmu": lambda o: o.pmu.__iadd__(1.0), "status": lambda o: setattr(o.status, "data", [22, 23, 24])},
        {"index": index(7), "index list": index([0, 9]), "mask length": index(M([True] * 5)), "pmu columns": lambda o: setattr(o.pmu, "data", np.zeros((2, 3))),
         "color columns": lambda o: setattr(o.color, "data", np.zeros((2, 3))), "from columns": lambda o: gcl.ParticleSet.from_numpy(color=np.zeros((3, 3)), pdg=o.pdg.data)},
    ),
}


def plain(x):
    if isinstance(x, (list, tuple)):
        return tuple(map(plain, x))
    return frozen(x) if not isinstance(x, (str, bool, int)) else x


def refused(kind, name, obj):
    """Whether the operation is rejected; one that is accepted is not this property's matter."""
    try:
        KINDS[kind][3][name](obj)
    except Exception:
        return True
    return False


EXPECTED = {}


def expected(kind, pre, post):
    """Outcome of the same history without the rejected operations."""
    key = kind, pre, post
    if key not in EXPECTED:
        make, reads, writes, _ = KINDS[kind]
        obj = make()
        if pre in writes:
            writes[pre](obj)
        mid = frozen(obj), plain(reads(make_like(kind, pre)))
        if post:
            writes[post](obj)
        fresh = make_like(kind, pre, post)
        EXPECTED[key] = mid, (frozen(obj), plain(reads(fresh)))
    return EXPECTED[key]


def make_like(kind, *writes):
    obj = KINDS[kind][0]()
    for w in writes:
        if w in KINDS[kind][2]:
            KINDS[kind][2][w](obj)
    return obj


def gen(tier):
    for kind, (_, _, writes, bad) in KINDS.items():
        for pre in ("nothing", "reads") + tuple(writes):
            for b1 in bad:
                yield kind, pre, b1


@C.family("rejections", gen)
def rejections(ctx, kind, pre, b1):
    make, reads, writes, bad = KINDS[kind]
    for b2 in bad:
        for post in (None,) + tuple(writes):
            obj = make()
            if pre in writes:
                if post == pre:
                    continue
                reads(obj)
                writes[pre](obj)
            elif pre == "reads":
                reads(obj)
            mid, end = expected(kind, pre, post)
            if not refused(kind, b1, obj):
                return
            require(frozen(obj) == mid[0], "{}: rejected {!r} changed the object", kind, b1)
            if not refused(kind, b2, obj):
                continue
            require(frozen(obj) == mid[0], "{}: rejected {!r} (after {!r}) changed the object", kind, b2, b1)
            if post is None:
                require(plain(reads(obj)) == mid[1], "{}: after {} and rejected {!r}, {!r} the answers differ", kind, pre, b1, b2)
            else:
                writes[post](obj)
                require(frozen(obj) == end[0] and plain(reads(obj)) == end[1], "{}: {} after rejected {!r}, {!r} gives a different object", kind, post, b1, b2)
            ctx.step(3)
            ctx.trace()
            ctx.ev((kind, pre, b1, b2, post))
            ctx.state((kind, pre, post))
    require_process("rejected {!r} of {}", b1, kind)
    ctx.outcome(kind)


MODES = ("or", "and", "none")
PARTS = ("pdg", "pmu", "status", "final", "color", "edges")
TOOLS = {
    "partition": lambda e, h, m: SE.partition_descendants(e, h), "partition far": lambda e, h, m: SE.partition_descendants(e, h, 1.0),
    "clusters": lambda e, h, m: SE.clusters(e, 1.0), "hierarchy": lambda e, h, m: SE.hierarchy(e), "hierarchy of masks": lambda e, h, m: SE.hierarchy(e, h),
    "descendants": lambda e, h, m: SE.hard_descendants(e, {5}), "edge": lambda e, h, m: SE.edge_descendants(e.adj, (1, 2)),
    "vertices": lambda e, h, m: SE.hadron_vertices(e.adj, e.status), "vertex": lambda e, h, m: SE.find_vertex(e, pdgs={5}, pmu=e.pmu[0]),
    "tag": lambda e, h, m: SE.monte_carlo_tag(e.particles, [m], None, True, True), "tag with momenta": lambda e, h, m: SE.monte_carlo_tag(e.particles, list(h.values()), e.pmu, True, True),
    "colour": lambda e, h, m: SE.color_singlets(h, e.status, e.color), "outcasts": lambda e, h, m: SE.color_singlets(SE.leaf_masks(h), e.status, e.color, True),
    "overlap": lambda e, h, m: SE.any_overlap(h), "prune": lambda e, h, m: SE.centroid_prune(e.pmu, 1.0, h["x"]), "prune group": lambda e, h, m: SE.centroid_prune(e.pmu, 1.0, h),
    "aggregate": lambda e, h, m: CA.aggregate_momenta(e.pmu, h.values()), "coefficients": lambda e, h, m: CA.cluster_coeff_distbn(e.pmu[h], 1.0),
    "thrust": lambda e, h, m: CA.thrust(e.pmu[m]), "jets": lambda e, h, m: SE.fastjet_clusters(e.pmu[h], 0.5, -1), "closest": lambda e, h, m: SE.arg_closest(e.pmu[h["x"]], e.pmu),
    "split": lambda e, h, m: TR.split_hardest(e.pmu, 0.25, 0.125), "select": lambda e, h, m: e[h["x"]], "select group": lambda e, h, m: e[h],
    "distances": lambda e, h, m: e.pmu.delta_R(e.pmu[h]), "union": lambda e, h, m: h.bitwise_or() | e.final, "both": lambda e, h, m: h.bitwise_and() & e.final,
    "data": lambda e, h, m: (h.data, e.pmu[h.data], h.to_dict()), "group select": lambda e, h, m: h[e.final][m], "flatten": lambda e, h, m: h.flatten("rise")[e.hard_mask],
}


def incomplete(missing, mode, k):
    """An event with a hierarchy, before and after the loss of some of its parts."""
    from mc.checks.c20 import build

    rec, _, _ = build(bool(k % 2), ("A", "AB"), "A", (0, 2, 4), k % 3, k % 3)
    full = rec.graph()
    hier = SE.hierarchy(full)
    hier["x"] = full.final
    hier.agg_op = mode
    for v in hier.values():
        if isinstance(v, G):
            v.agg_op = MODES[(MODES.index(mode) + k) % 3]
    n = len(full)
    raw = {nm: cols(component(full, nm)) for nm in PARTS}
    kw = {nm: (v[: n - 1] if nm in missing and k > 2 else v).copy() for nm, v in raw.items() if nm not in missing or k > 2}
    return gcl.Graphicle.from_numpy(**kw), hier, M(np.arange(n) % 2 == 0)


def gen_incomplete(tier):
    for missing in subsets(PARTS):
        if len(missing) <= (6 if tier == THOROUGH else 3):
            for mode in MODES:
                for k in range(6):
                    yield missing, mode, k


@C.family("incomplete events", gen_incomplete)
def incomplete_events(ctx, missing, mode, k):
    """Selections that fail half-way, for want of a part of the event, change none of their arguments."""
    e, h, m = incomplete(missing, mode, k)
    before = frozen(e), frozen(h), frozen(m)
    for nm, f in TOOLS.items():
        try:
            f(e, h, m)
        except Exception:
            ctx.ev((missing, mode, k, nm))
        require((frozen(e), frozen(h), frozen(m)) == before, "{} of an event without {} changed its arguments", nm, missing)
        ctx.step()
    require_process("selections of an event without {}", missing)
    ctx.outcome(len(missing))


SPOILT = ("drop", "short", "group", "empty group", "none inside", "rename")


def gen_spoilt(tier):
    for kind in ("flat", "tree"):
        for how in SPOILT:
            for mode in MODES:
                for k in range(4):
                    yield kind, how, mode, k


@C.family("incomplete hierarchies", gen_spoilt)
def spoilt(ctx, kind, how, mode, k):
    """Every entry of a hierarchy in turn is lost, cut short or replaced; whatever fails then changes none of its arguments."""
    from mc.checks.c20 import build

    rec, _, _ = build(bool(k % 2), ("A", "AB"), "A", (0, 2, 4), k % 3, k % 3)
    e = rec.graph()
    n = len(e)
    m = M(np.arange(n) % 2 == 0)

    def fresh():
        return SE.hard_descendants(e) if kind == "flat" else SE.hierarchy(e)

    places = [(i, None) for i in fresh()] + [(i, j) for i, v in fresh().items() if isinstance(v, G) for j in v]
    for outer, inner in places:
        h = fresh()
        where, key = (h, outer) if inner is None else (h[outer], inner)
        if how == "short":
            where[key] = M([True] * (n - 1))
        elif how == "rename":
            where[key + "?"] = where[key]
        elif how == "group":
            where[key] = G({"y": m, "latent": e.final}, "or")
        elif how == "empty group":
            where[key] = G({})
        elif how == "none inside":
            where[key] = G({"y": m, "latent": e.final}, "none")
        if how in ("drop", "rename"):
            del where[key]
        h["x"] = e.final
        h.agg_op = mode
        before = frozen(e), frozen(h), frozen(m)
        for nm, f in TOOLS.items():
            try:
                f(e, h, m)
            except Exception:
                ctx.ev((kind, how, mode, k, outer, inner, nm))
            require((frozen(e), frozen(h), frozen(m)) == before, "{} with the hierarchy spoilt at {} ({}) changed its arguments", nm, (outer, inner), how)
            ctx.step()
    require_process("selections with a hierarchy spoilt by {}", how)
    ctx.outcome((kind, how))


def gen_operands(tier):
    for n in (3, 70):
        for k in range(len(OPERANDS)):
            yield n, k


def long_event(n):
    return gcl.Graphicle.from_numpy(**columns(n))


OPERANDS = (
    lambda e, m, a: e.pmu.__iadd__(a), lambda e, m, a: SE.centroid_prune(e.pmu, 1.0, m), lambda e, m, a: CA.aggregate_momenta(e.pmu, [m]),
    lambda e, m, a: CA.combined_mass(e.pmu, a), lambda e, m, a: e[m], lambda e, m, a: e.final & m,
    lambda e, m, a: SE.monte_carlo_tag(e.particles, [m, m, m]), lambda e, m, a: e.pmu.shift_rapidity(a[:, 0]), lambda e, m, a: gcl.MomentumArray(a),
    lambda e, m, a: gcl.Graphicle.from_numpy(pmu=a, pdg=e.pdg.data), lambda e, m, a: gcl.AdjacencyList(a), lambda e, m, a: np.add(e.pmu, a, out=e.pmu),
    lambda e, m, a: e.adj.to_sparse(a[:, 0]), lambda e, m, a: e.pmu.__setattr__("data", a),
)


@C.family("operands", gen_operands)
def operands(ctx, n, k):
    """The operands of a rejected operation are left alone, too."""
    for extra in (1, 2, n):
        e, m, a = long_event(n), M(np.arange(n + extra) % 2 == 0), np.arange(3.0 * (n + extra)).reshape(-1, 3)
        before = frozen(e), frozen(m), frozen(a)
        try:
            OPERANDS[k](e, m, a)
        except Exception:
            pass
        else:
            continue
        require((frozen(e), frozen(m), frozen(a)) == before, "rejected operation {} changed an operand", k)
        ctx.ev((n, k, extra))
    require_process("rejected operation {}", k)
