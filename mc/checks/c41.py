"""C41: the order of rows and the numbering of vertices are immaterial."""
import math

from mc.core import Check
from mc.checks import c20, c33
from mc.checks.c32 import jets
from mc.events import *
from mc.util import *

C = Check(
    "C41",
    "exploration",
    "exhaustive enumeration of row permutations x vertex relabellings of events, every answer translated back and compared with that of the original",
    "Every permutation of the rows of small records with every relabelling of a family; on larger events all rotations, transpositions of a family, reversals, "
    "interleavings and sorts by every column, with relabellings that change order, sign, spacing and magnitude.",
    "cases: (event, permutation, relabelling); non-trivial when either moves something; evaluations: answers compared",
    ["momenta are generic: no two distances or transverse momenta are equal", "numbers of sums are compared within rounding"],
)
SE, CA, TR, MX = gcl.select, gcl.calculate, gcl.transform, gcl.matrix


def shaken(rec):
    """The record with generic momenta."""
    for i, r in enumerate(rec.rows):
        x, y, z, e = r["pmu"]
        pt = math.hypot(x, y) or 2.0 + 0.1 * i
        eta = math.asinh(z / pt) + 0.2 * ((i * 0.618) % 1.0)
        phi = wrap_angle(math.atan2(y, x) + 0.2 * ((i * 0.7548) % 1.0) + 0.003 * i)
        r["pmu"] = c20.mom(eta, phi, pt * (1.0 + 0.013 * ((i * 0.414) % 1.0)) + 0.001 * i, 0.2)
    return rec


def small(k):
    """Records of six rows over few vertices, with branches, joins and loose edges."""
    wires = (
        ((0, 1), (1, 2), (1, 3), (2, 4), (3, 4), (4, 5)),
        ((0, 2), (1, 2), (2, 3), (2, 4), (4, 5), (5, 6)),
        ((0, 1), (2, 3), (1, 3), (3, 4), (0, 4), (5, 6)),
        ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (1, 5)),
    )[k % 4]
    b = Builder()
    v = [b.vertex() for _ in range(7)]
    for i, (s, d) in enumerate(wires):
        b.row(v[s], v[d], (6, 5, 24, 2, -1, 11)[i], (-21, -22, -23, 23, 84, 91)[(i + k) % 6], i > 2, c20.mom(*c20.PARTONS[i]), ((501, 0), (0, 501), (0, 0))[i % 3])
    return shaken(b.finish(None, 1))


def events():
    out = {f"small {k}": small(k) for k in range(4)}
    out["top"] = shaken(c33.build("top", ("A", "AB", "B"), ((501, 0), (502, 0), (0, 502)), "A", (1, 4, 2), 1, 0, False)[0])
    out["top final"] = shaken(c33.build("top", ("-", "A", "AB"), ((501, 0), (502, 0), (0, 502)), "", (0, 3, 5), 1, 0, False)[0])
    out["twins"] = shaken(c33.build("twins", ("A", "AB"), ((501, 0), (0, 501)), "B", (2, 0, 1), 1, 0, False)[0])
    out["singlet"] = shaken(c33.build("W and b", ("AB", "B", "A"), ((501, 0), (502, 0), (0, 502)), "A", (3, 1, 4), 1, 0, False)[0])
    out["crowd"] = shaken(c20.crowd(3, 3, 24, True, 1, ((501, 0), (502, 0), (0, 502)))[0])
    out["large"] = shaken(c20.crowd(6, 5, 60, True, 0)[0])
    return out


EVENTS = {}


def event(name):
    if not EVENTS:
        EVENTS.update(events())
    return EVENTS[name]


# ------------------------------------------------------------ permutations and labels


def perm_family(n, rec, deep):
    ident = list(range(n))
    yield "same", ident
    yield "reversed", ident[::-1]
    yield "odd even", ident[1::2] + ident[::2]
    yield "even odd back", ident[::2] + ident[1::2][::-1]
    step = next(s for s in (7, 11, 13, 17, 19, 23) if math.gcd(s, n) == 1)
    yield "stride", [i * step % n for i in ident]
    for key in ("src", "dst", "pdg", "status", "final"):
        up = sorted(ident, key=lambda i: rec.rows[i][key])
        yield "by " + key, up
        yield "by falling " + key, up[::-1]
    yield "by pt", sorted(ident, key=lambda i: math.hypot(*rec.rows[i]["pmu"][:2]))
    for k in range(1, n) if deep or n < 40 else (1, n // 3, n // 2, n - 1):
        yield f"rotated {k}", ident[k:] + ident[:k]
    pairs = it.combinations(ident, 2) if deep and n < 40 else [(i, j) for i in ident for j in (i + 1, n - 1 - i) if i < j < n] if n < 40 else [(0, n - 1), (1, 2)]
    for i, j in pairs:
        p = list(ident)
        p[i], p[j] = p[j], p[i]
        yield f"swapped {i} {j}", p


LABELS = {
    "same": lambda labels: dict(zip(labels, labels)),
    "negated": lambda labels: {v: -v for v in labels},
    "falling": lambda labels: {v: len(labels) - i for i, v in enumerate(sorted(labels))},
    "from zero": lambda labels: {v: i for i, v in enumerate(sorted(labels))},
    "mixed": lambda labels: {v: (i * 7 % 1009 + 1) * (-1) ** i for i, v in enumerate(sorted(labels))},
    "huge": lambda labels: {v: 2147483647 - 65536 * (i * 5 % 997) for i, v in enumerate(sorted(labels))},
    "tiny": lambda labels: {v: -2147483000 + 257 * (i * 3 % 991) for i, v in enumerate(sorted(labels))},
    "clashing": lambda labels: {v: (i // 2 + 1) * (-1) ** i for i, v in enumerate(sorted(labels))},
}


def moved(rec, perm, label):
    labels = {x for r in rec.rows for x in (r["src"], r["dst"])}
    f = LABELS[label](labels)
    assert len(set(f.values())) == len(labels)
    rows = [dict(rec.rows[i], src=f[rec.rows[i]["src"]], dst=f[rec.rows[i]["dst"]]) for i in perm]
    return Record(rows, None), {w: v for v, w in f.items()}


# ------------------------------------------------------------ answers in terms of the original


class Near:
    """Numbers to compare within rounding."""

    def __init__(self, x):
        self.x = np.asarray(x, dtype=float)

    def __eq__(self, other):
        return self.x.shape == other.x.shape and close(self.x, other.x, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(other.x), initial=1e-3)))

    def __repr__(self):
        return f"≈{self.x.tolist()}"


def base(name):
    return name.split(":")[0]


def tree(group, tag):
    """Nested masks without order: multiset of (name, masks)."""
    if isinstance(group, M):
        require(len(group) == len(tag), "mask of {} for {} rows", len(group), len(tag))
        return frozenset(tag[group.data].tolist())
    kids = [(base(k), tree(v, tag)) for k, v in group.items()]
    return (group.agg_op.name, frozenset((kid, kids.count(kid)) for kid in kids))


def rows(values, tag):
    out = [None] * len(tag)
    for t, v in zip(tag.tolist(), np.asarray(values).tolist()):
        out[t] = v
    return repr(out)


def square(values, tag):
    pos = np.argsort(tag)
    return np.asarray(values)[np.ix_(pos, pos)].tolist()


def answers(ev, tag, back, full):
    """name -> answer in terms of original rows and vertices."""
    n = len(tag)
    f = back.__getitem__
    fwd = {v: w for w, v in back.items()}
    inv = np.argsort(tag)
    mask = lambda m: frozenset(tag[np.asarray(m.data if isinstance(m, M) else m, dtype=bool)].tolist())
    a = {}
    a["nodes"] = sorted(map(f, ev.nodes.tolist()))
    a["nodes by magnitude"] = np.all(np.diff(np.abs(ev.nodes.astype(np.int64))) >= 0)
    a["roots"], a["leaves"] = mask(ev.adj.roots), mask(ev.adj.leaves)
    names = [back[x] for x in sorted(back)]
    i, j = np.nonzero(ev.adj.matrix)
    a["matrix"] = {(names[p], names[q]): int(ev.adj.matrix[p, q]) for p, q in zip(i.tolist(), j.tolist())}
    verts = sorted(fwd) if full else sorted(fwd)[:: max(1, len(fwd) // 12)]
    a["vertex descendants"] = {v: mask(SE.vertex_descendants(ev.adj, fwd[v])) for v in verts}
    edges = list(ev.adj)
    picks = range(n) if full else range(0, n, max(1, n // 12))
    # parallel edges to a sink have the same descendants, so they are identified by the row
    a["edge descendants"] = {t: mask(SE.edge_descendants(ev.adj, edges[inv[t]])) for t in picks}
    a["hadron vertices"] = sorted(map(f, SE.hadron_vertices(ev.adj, ev.status)))
    for key, kw in {"in": dict(pdgs_in={2, 24}), "in one": dict(pdgs_in={24}), "out": dict(pdgs_out={211}), "out two": dict(pdgs_out={5, 24}), "both": dict(pdgs_in={24}, pdgs_out={2}), "none": dict(pdgs_in={12345})}.items():
        a["find_vertex " + key] = sorted(map(f, SE.find_vertex(ev, **kw).tolist()))
    a["hard masks"] = {k: mask(m) for k, m in ev.hard_mask.items()}
    a["in_range"] = mask(ev.status.in_range(22, 84))
    a["pdg mask"] = mask(ev.pdg.mask([5, 24, 21], blacklist=False))
    for nm in ("name", "charge", "mass"):
        a["pdg " + nm] = rows(getattr(ev.pdg, nm), tag)
    for nm in ("x", "energy", "pt", "eta", "phi", "theta", "rapidity", "mass", "mass_t"):
        a["pmu " + nm] = rows(getattr(ev.pmu, nm), tag)
    a["serialize"] = {k: rows(np.array([list(x) if isinstance(x, tuple) else x for x in v]), tag) for k, v in ev.particles.serialize().items() if len(v)}
    if n <= 60:
        a["table"] = sorted(ln.split() for ln in str(ev.particles).split("\n") if ln.strip())
    hard = np.any(ev.hard_mask["intermediate"].data) or np.any(ev.hard_mask["outgoing"].data)
    fin = np.asarray(ev.final.data)
    ftag = tag[fin]
    # momenta
    p, pf = ev.pmu, ev.pmu[ev.final]
    if n <= 120:
        a["delta_R"] = square(p.delta_R(p), tag)
        a["delta_R rapidity"] = square(p.delta_R(p.copy(), pseudo=False), tag)
        a["clustering coefficients"] = rows(CA.cluster_coeff_distbn(p, 1.1), tag)
        d = p.delta_R(p)
        for k in (1, 3):
            a[f"knn {k}"] = square(MX.knn_adj(d, k, weighted=True), tag)
        a["cut"] = square(MX.cut_adj(d, 0.8, weighted=True), tag)
    a["sum"] = Near(cols(np.sum(p, axis=0)))
    a["combined mass"] = Near(CA.combined_mass(p))
    a["centroid"], a["resultant"] = Near(CA.weighted_centroid(p)), Near(CA.resultant_coords(p))
    a["c parameter"] = Near(CA.c_parameter(p))
    a["jaccard"] = Near(CA.jaccard_distance(ev.pdg == 21, ev.final, np.abs(ev.pmu.pt)))
    a["prune"] = mask(SE.centroid_prune(p, 1.3, mask=ev.status.in_range(20, 84)))
    a["prune around"] = mask(SE.centroid_prune(p, 1.3, centre=(0.3, 0.4)))
    split = TR.split_hardest(p, 0.3, 0.2)
    a["split"] = (sorted(map(tuple, cols(split)[:-2].tolist())), cols(split)[-2:].tolist())
    a["shift"] = rows(cols(p.shift_phi(0.7)), tag), rows(cols(p.shift_rapidity(-0.4)), tag)
    parts = [CA.aggregate_momenta(pf, [M(ftag % 3 == k) for k in range(3)])]
    a["aggregate"] = Near(cols(parts[0]))
    focus = np.argsort(tag)[: 3]
    a["closest"] = tag[SE.arg_closest(p[focus], p)].tolist()
    found = jets(pf, 0.7, -1)
    a["jets"] = [frozenset(ftag[m.data].tolist()) for m in found]
    a["jets cut"] = [frozenset(ftag[m.data].tolist()) for m in jets(pf, 0.5, 0, pt_cut=4.0, eta_cut=2.0, top_k=3)]
    if not hard:
        return a
    desc = SE.hard_descendants(ev)
    hard = ev.pdg[ev.status.in_range(22, 24)].data.tolist()
    wanted = set(sorted(hard)[::2])
    a["hard descendants"] = tree(desc, tag)
    a["hard descendants of"] = tree(SE.hard_descendants(ev, wanted | {13}, strict=False), tag)
    if n == 6:  # not a process
        return a
    hier = SE.hierarchy(ev)
    a["hierarchy"] = tree(hier, tag)
    a["hierarchy of given"] = tree(SE.hierarchy(ev, desc), tag)
    a["flat"] = tree(hier.flatten(), tag), tree(hier.flatten("leaves"), tag)
    for exp in (-0.1, 0.7):
        a[f"partition {exp}"] = tree(SE.partition_descendants(ev, hier, exp), tag)
    leaf = SE.leaf_masks(hier)
    a["leaf masks"] = tree(leaf, tag)
    a["overlap"] = bool(SE.any_overlap(leaf))
    if np.any(ev.hard_mask["outgoing"].data):
        a["singlets"] = frozenset(frozenset(base(x) for x in s) for s in SE.color_singlets(leaf, ev.status, ev.color))
        for r in (0.8, 2.0):
            a[f"clusters {r}"] = tree(SE.clusters(ev, r), ftag)
        if len(found) >= int(np.sum(ev.hard_mask["outgoing"].data)):
            tags = SE.monte_carlo_tag(ev.particles, found)
            a["tags"] = sorted((base(k), sorted(ftag[m.data].tolist())) for k, m in tags.items())
    return a


ORIGIN = {}


def origin(name, full):
    if (name, full) not in ORIGIN:
        rec = event(name)
        rec0, back = moved(rec, range(len(rec.rows)), "same")
        ORIGIN[name, full] = answers(rec0.graph(), np.arange(len(rec.rows)), back, full)
    return ORIGIN[name, full]


def gen(tier):
    deep = tier == THOROUGH
    for k in range(4):
        for j, perm in enumerate(it.permutations(range(6))):
            for i, label in enumerate(LABELS):
                if deep or (i + j + k) % len(LABELS) < 2 or j == 0:
                    yield f"small {k}", perm, label
    for name in ("top", "top final", "twins", "singlet", "crowd", "large"):
        rec = event(name)
        for j, (_, perm) in enumerate(perm_family(len(rec.rows), rec, deep)):
            for i, label in enumerate(LABELS):
                if deep or name not in ("crowd", "large") and (i + j) % 3 == 0 or (i + j) % len(LABELS) == 0 or j == 0:
                    yield name, tuple(perm), label


@C.family("moves", gen)
def moves(ctx, name, perm, label):
    full = len(perm) <= 40
    want = origin(name, full)
    rec, back = moved(event(name), perm, label)
    ev = rec.graph()
    before = frozen(ev)
    got = answers(ev, np.array(perm), back, full)
    require(set(got) == set(want), "answers {} instead of {}", sorted(got), sorted(want))
    for key in want:
        require(got[key] == want[key], "{} of {} becomes {} instead of {} when rows are ordered {} and vertices relabelled {}", key, name, got[key], want[key], perm, label)
        ctx.ev((name, perm, label, key) if list(perm) != sorted(perm) or label != "same" else None)
    require(frozen(ev) == before, "the event changed")
    ctx.outcome((name, label))


WIDE = {
    "same": lambda v: v, "negated": lambda v: -v, "falling": lambda v: v.max() + 1 - v, "spread": lambda v: v * 2039 - 10**6,
    "mixed": lambda v: v * (1 - 2 * (v % 2)), "huge": lambda v: 2**31 - 1 - v, "lowest": lambda v: v - 2**31, "scrambled": lambda v: v * 7919 % 104729,
}


def gen_wide(tier):
    for n in (130, 300, 32800, 40000, 70000) + ((200000,) if tier == THOROUGH else ()):
        for shape in ("chain", "binary", "combs"):
            for label in WIDE:
                if label != "scrambled" or n < 104729:
                    yield n, shape, label


@C.family("wide graphs", gen_wide)
def wide(ctx, n, shape, label):
    """More vertices than small integers can number, under every relabelling and some orders of rows."""
    i = np.arange(1, n, dtype=np.int64)
    src, dst = {"chain": (i, i + 1), "binary": ((i + 1) // 2, i + 1), "combs": (np.where(i % 3 == 0, i // 3 * 3, i // 3 * 3 + 1), i + 1)}[shape]
    parents = {}
    for s, d in zip(src.tolist(), dst.tolist()):
        parents.setdefault(s, []).append(d)
    start = n // 2 if shape == "chain" else 3
    reach, todo = {start}, [start]
    while todo:
        for d in parents.get(todo.pop(), ()):
            if d not in reach:
                reach.add(d)
                todo.append(d)
    want_desc = np.isin(src, list(reach))
    want_roots, want_leaves = ~np.isin(src, dst), ~np.isin(dst, src)
    f = WIDE[label]
    pairs = f(np.stack((src, dst), axis=1))
    at = int(f(np.concatenate((src, dst)))[np.flatnonzero(np.concatenate((src, dst)) == start)[0]])
    for k, perm in enumerate((i - 1, (i - 1)[::-1], np.argsort(i * 7919 % 1000003, kind="stable"))):
        adj = gcl.AdjacencyList(pairs[perm])
        for nm, got, want in (("roots", adj.roots, want_roots), ("leaves", adj.leaves, want_leaves), ("descendants", SE.vertex_descendants(adj, at), want_desc)):
            require(same(got.data, want[perm]), "{} of a {} of {} vertices labelled {} in order {}", nm, shape, n, label, k)
        require(len(adj.nodes) == n if shape != "combs" else True, "{} nodes of {}", len(adj.nodes), n)
        ctx.ev((n, shape, label, k), 3)
