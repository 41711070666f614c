"""C33: end-to-end clustering tags final particles by their hard parton."""
import math

from mc.core import Check
from mc.checks.c20 import PARTONS, POS, coords, crowd, mom, partition_oracle
from mc.checks.c21 import oracle as singlet_oracle
from mc.events import *
from mc.util import *

C = Check(
    "C33",
    "exploration",
    "exhaustive enumeration of hard trees, colour flows, hadronisation incidences, placements and radii against the composition of the step oracles",
    "Every hard tree of a family with every feeding of two hadronisation vertices by leaves and background, every colour "
    "assignment of a family (singlets, coloured and neutral leaves), hadrons on a grid including the azimuth seam, and "
    "radii from nothing to everything; the expected masks are computed from the event description alone.",
    "cases: tree x incidence x colours; non-trivial when the hadron partition or the radius removes a particle",
    ["particles at equal distance from two partons or exactly at the radius within rounding are not judged"],
)
# (pdg, parent, kind); kind: 'o' outgoing leaf, 'i' leaf without outgoing parton, 'r' resonance
TREES = {
    "one": ((5, -1, "o"),),
    "pair": ((5, -1, "o"), (-5, -1, "o")),
    "twins": ((1, -1, "o"), (1, -1, "o")),
    "Z": ((23, -1, "r"), (2, 0, "o"), (-2, 0, "o")),
    "W and b": ((5, -1, "o"), (24, -1, "r"), (2, 1, "o"), (-1, 1, "o")),
    "top": ((6, -1, "r"), (5, 0, "o"), (24, 0, "r"), (4, 2, "o"), (-3, 2, "o")),
    "triple": ((5, -1, "o"), (21, -1, "o"), (-5, -1, "o")),
    "undecayed": ((25, -1, "i"), (5, -1, "o"), (-5, -1, "o")),
    "lone": ((6, -1, "r"), (5, 0, "o")),
    "lone below two": ((6, -1, "r"), (24, 0, "r"), (-3, 1, "o")),
    "lone decayed": ((23, -1, "r"), (5, 0, "o"), (25, -1, "i")),
    "half": ((23, -1, "r"), (11, 0, "o"), (-11, 0, "o"), (5, -1, "o")),
}
COLORS = {
    1: (((501, 0),), ((0, 0),)),
    2: (((501, 0), (0, 501)), ((501, 0), (0, 502)), ((0, 0), (0, 501)), ((0, 0), (0, 0)), ((501, 502), (502, 501))),
    3: (
        ((501, 0), (502, 0), (0, 502)), ((501, 0), (0, 501), (502, 0)), ((501, 0), (0, 502), (502, 501)), ((501, 0), (502, 0), (503, 0)),
        ((0, 0), (501, 0), (0, 501)), ((0, 0), (0, 0), (501, 0)), ((501, 0), (0, 0), (0, 501)),
    ),
}
FEEDS = ("A", "AB", "B", "-")
RADII = (0.3, 0.9, 1.6, 3.0, 50.0)


def build(tree, feeds, colors, background, place, labelling, order, neg):
    spec = TREES[tree]
    b = Builder()
    root = b.vertex()
    vtx = {"A": b.vertex(), "B": b.vertex()}
    b.row(b.vertex(), root, 21, -21, pmu=mom(0.1, 0.1, 1.0), color=(501, 502))
    b.row(b.vertex(), root, 21, -21, pmu=mom(-0.1, 0.1, 1.0), color=(502, 501))
    at, used, k, leaf = {-1: root}, set(), 0, 0
    tags = [("hard", j) for j in range(len(spec))]
    for j, (code, parent, kind) in enumerate(spec):
        dst = b.vertex()
        place_j = PARTONS[(j + place[0]) % 8]
        if kind == "r":
            mid = b.vertex()
            b.row(at[parent], dst, code, -22, pmu=mom(*place_j), tag=("hard", j))
            b.row(dst, mid, code, -62, pmu=mom(*place_j), color=(501, 0))
            b.row(mid, b.vertex(), 22, 51, True, pmu=mom(0.2, 1.0 + j, 2.0))  # radiation of the resonance: latent
            at[j] = mid
            continue
        if kind == "i":
            b.row(at[parent], dst, code, -22, pmu=mom(*place_j), color=(501, 0), tag=("hard", j))
            b.row(dst, b.vertex(), 22, 51, True, pmu=mom(-2.5, 2.5, 6.0))
            b.row(dst, b.vertex(), 22, 51, True, pmu=mom(1.5, -2.5, 6.0))
            continue
        feed = feeds[leaf]
        final = feed == "-"
        b.row(at[parent], dst, code, 23 if final else -23, final, pmu=mom(*place_j), color=colors[leaf], tag=("hard", j))
        leaf += 1
        if final:
            continue
        for v in feed:
            mid = b.vertex()
            b.row(dst, mid, 21, -51, pmu=mom(*PARTONS[(k + j) % 8]), color=(501, 503))
            b.row(mid, vtx[v], 21, -71, pmu=mom(*PARTONS[(k + place[1]) % 8]), color=(503, 501))
            used.add(v)
            k += 1
        b.row(dst, b.vertex(), 22, 51, True, pmu=mom(place_j[0] + 0.4, place_j[1] + 0.2, 4.0))
    for v in background:
        b.row(b.vertex(), vtx[v], 21, -63, pmu=mom(*PARTONS[(k + 1) % 8]))
        used.add(v)
        k += 2
    for n, v in enumerate(sorted(used)):
        for i, pos in enumerate(place):
            eta, phi = POS[(pos + 2 * n) % len(POS)]
            if i == 1:
                d = b.vertex()
                b.row(vtx[v], d, 213, -84, pmu=mom(eta, phi, 3.0))
                for s in (-0.4, 0.9):
                    b.row(d, b.vertex(), 211, 91, True, pmu=mom(eta + s, phi + s, 1.5))
            else:
                b.row(vtx[v], b.vertex(), 211, 80 + 3 * i, True, pmu=mom(eta, phi, 2.0 + i))
    if neg:
        for r in b.rows:
            if not r["final"]:
                r["status"] = -abs(r["status"])
    n = len(b.rows)
    rows = list(range(n))
    rows = {0: rows, 1: rows[::-1], 2: rows[1::2] + rows[::2]}[order]
    return b.finish(rows, labelling), [s[1] for s in spec], tags


def union(masks):
    out = []
    for col in zip(*masks):
        out.append(True if True in col else None if None in col else False)
    return out


def expected(rec, tree, radius):
    """name -> mask over all rows, None where not judged; before and after pruning differ by the flag."""
    part = partition_oracle(rec, tree, -0.1)
    leaves = {}

    def collect(node):
        for k, v in node.items():
            if k == "latent":
                continue
            if isinstance(v, dict):
                collect(v)
            else:
                leaves[k] = v

    collect(part)
    hard_out = [i for i, r in enumerate(rec.rows) if abs(r["status"]) == 23]
    owner = {}
    for k, m in leaves.items():
        mine = [i for i in hard_out if m[i]]
        if mine:
            (owner[k],) = mine
    _, outcasts = singlet_oracle([(k, rec.rows[owner[k]]["color"]) for k in leaves if k in owner])
    pruned = False
    for k in outcasts:
        e0, f0, _ = coords(rec.rows[owner[k]]["pmu"])
        for i, keep in enumerate(leaves[k]):
            if keep is False:
                continue
            e1, f1, _ = coords(rec.rows[i]["pmu"])
            d = math.hypot(e1 - e0, wrap_angle(f1 - f0))
            if abs(d - radius) < 1e-9:
                leaves[k][i] = None
            elif d > radius:
                leaves[k][i] = False
                pruned = pruned or rec.rows[i]["final"]
    out = {}

    def rise(node):
        for k, v in node.items():
            if k == "latent":
                continue
            if isinstance(v, dict):
                slot = out.setdefault(k, None)
                out[k] = union(list(filter(None, rise(v))))
            else:
                out[k] = leaves[k]
        return [out[k] for k in node if k != "latent"]

    rise(part)
    return out, pruned, part != tree


def gen(tier):
    deep = tier == THOROUGH
    count = 0
    for nm, spec in TREES.items():
        n = sum(kind == "o" for _, _, kind in spec)
        for feeds in it.product(FEEDS, repeat=n):
            for colors in COLORS[n]:
                for background in ("", "A", "AB"):
                    for rot in range(6 if deep else 1):
                        count += 1
                        i = count + rot
                        place = (i % 6, (i * 5 + 1) % 6, (2 * i + i // 6 + 3) % 6)
                        yield nm, feeds, colors, background, place, i % 3, (i // 3) % 3, i % 2


@C.family("events", gen)
def events(ctx, nm, feeds, colors, background, place, labelling, order, neg):
    rec, parents, tags = build(nm, feeds, colors, background, place, labelling, order, neg)
    ev = rec.graph()
    keep = frozen(ev)
    tree = tree_of(rec, parents, tags)
    final = [i for i, r in enumerate(rec.rows) if r["final"]]
    hard = rec.hard_rows()
    names = dict(zip(hard, unique_names([rec.rows[i]["pdg"] for i in hard])))
    for radius in RADII:
        want, pruned, moved = expected(rec, tree, radius)
        require(set(want) == set(names.values()), "oracle names {}", want)
        got = gcl.select.clusters(ev, radius) if radius != RADII[1] else gcl.select.clusters(graph=ev, radius=radius)
        tag = f"{nm} feeds {feeds} colours {colors} background {background} radius {radius}"
        require(frozen(ev) == keep, "{}: the event changed", tag)
        require(type(got) is G and set(got) == set(want), "{}: clusters {} instead of {}", tag, list(got), list(want))
        require(got.agg_op.value == G(agg_op="or").agg_op.value, "{}: aggregation {}", tag, got.agg_op)
        for k, w in want.items():
            require(type(got[k]) is M and len(got[k]) == len(final), "{}: mask of {} is {} long", tag, k, len(got[k]))
            g = got[k].data.tolist()
            require(all(w[i] is None or w[i] == b for i, b in zip(final, g)),
                    "{}: cluster of {} is {} instead of {} over final rows {}", tag, k, g, [w[i] for i in final], final)
        ctx.ev((nm, feeds, colors, background, place, radius) if pruned or moved else None)
        ctx.outcome((nm, pruned, moved))


@C.family("radii", lambda t: ((nm, k) for nm in TREES for k in range(12)))
def radii(ctx, nm, k):
    """Growing radii only ever add particles, and limits are reached."""
    n = sum(kind == "o" for _, _, kind in TREES[nm])
    colors = COLORS[n][k % len(COLORS[n])]
    feeds = tuple(FEEDS[(k + j) % 3] for j in range(n))
    rec, parents, tags = build(nm, feeds, colors, "A", (k % 6, (k + 2) % 6, (k + 3) % 6), k % 3, k % 3, 0)
    ev = rec.graph()
    last = None
    for r in (1e-9, 0.1, 0.2, 0.4, 0.7, 1.0, 1.5, 2.0, 2.5, 3.2, 4.0, 6.0, 1e3):
        now = as_plain(gcl.select.clusters(ev, r))
        if last is not None:
            for key in now:
                require(all(b or not a for a, b in zip(last[key], now[key])), "cluster of {} loses particles at radius {}", key, r)
        last = now
        ctx.ev((nm, k, r))
    ctx.outcome(nm)


def gen_crowd(tier):
    deep = tier == THOROUGH
    for nleaf in (4, 7) + ((11,) if deep else ()):
        for nvert in (2, 5):
            for nhad in (3, 9):
                for nested in (False, True):
                    for scheme in range(5):
                        for s in range(4 if deep else 1):
                            yield nleaf, nvert, nhad, nested, scheme, s + scheme


def scheme_colors(n, scheme):
    """Colour assignments: chain, pairs, all open, shared colours, neutral ones mixed in."""
    if scheme == 0:  # one singlet chain
        return [(501 + j if j < n - 1 else 0, 500 + j if j else 0) for j in range(n)]
    if scheme == 1:  # pairs; the odd one out is an outcast
        return [(501 + j, 0) if j % 2 == 0 else (0, 500 + j) for j in range(n)]
    if scheme == 2:
        return [(501 + j, 0) if j % 2 else (0, 601 + j) for j in range(n)]
    if scheme == 3:  # last leaf opens the chain
        return [(501 + j, 500 + j if j else 0) for j in range(n)]
    return [(0, 0) if j % 3 == 2 else (501 + j, 0) if j % 3 == 0 else (0, 500 + j) for j in range(n)]


@C.family("crowds", lambda tier: it.chain(gen_crowd(tier), ((3, n, 2, n % 4 == 0, k, k) for k, n in enumerate((140, 260, 300)))))
def crowds(ctx, nleaf, nvert, nhad, nested, scheme, s):
    rec, parents, tags = crowd(nleaf, nvert, nhad, nested, s, scheme_colors(nleaf, scheme))
    ev = rec.graph()
    tree = tree_of(rec, parents, tags)
    final = [i for i, r in enumerate(rec.rows) if r["final"]]
    for radius in (0.5, 1.7, 4.0):
        want, pruned, moved = expected(rec, tree, radius)
        got = gcl.select.clusters(ev, radius)
        require(set(got) == set(want), "clusters {} instead of {}", list(got), list(want))
        for k, w in want.items():
            g = got[k].data.tolist()
            require(len(g) == len(final) and all(w[i] is None or w[i] == b for i, b in zip(final, g)),
                    "{} leaves {} vertices {} hadrons colours {} radius {}: cluster of {} is {} instead of {}",
                    nleaf, nvert, nhad, scheme, radius, k, g, [w[i] for i in final])
        ctx.ev((nleaf, nvert, nhad, nested, scheme, s, radius) if pruned or moved else None)
        ctx.outcome((nleaf, pruned, moved))


OFFSETS = ((0.0, 0.0), (2e-6, 0.0), (0.0, -7e-6), (3e-5, 4e-5), (0.0, 6e-4), (-2e-3, 1e-3), (0.04, -0.03), (0.5, 0.5), (3.0, -2.0), (-9.0, 1.0), (14.0, 3.0))


def gen_close(tier):
    for at in ((0.0, 0.0), (0.7, -1.3), (-1.1, math.pi), (0.3, -3.1415), (2.0, 2.0)):
        for colors in (((501, 0), (0, 502)), ((501, 0), (0, 0)), ((501, 0), (0, 501))):
            for labelling in range(3 if tier == THOROUGH else 1):
                yield at, colors, labelling


@C.family("scales", gen_close)
def scales(ctx, at, colors, labelling):
    """Radii over eight orders of magnitude, and hadrons at every one of these distances from a parton."""
    b = Builder()
    root = b.vertex()
    b.row(b.vertex(), root, 21, -21, pmu=mom(0.1, 0.1, 1.0), color=(501, 502))
    b.row(b.vertex(), root, 21, -21, pmu=mom(-0.1, 0.1, 1.0), color=(502, 501))
    for j, centre in enumerate((at, (at[0] + 1.0, at[1] + 0.5))):
        dst, vtx = b.vertex(), b.vertex()
        b.row(root, dst, (2, -1)[j], -23, pmu=mom(*centre, 40.0), color=colors[j], tag=("hard", j))
        b.row(dst, vtx, (2, -1)[j], -71, pmu=mom(*centre, 40.0), color=colors[j])
        for de, dp in OFFSETS:
            b.row(vtx, b.vertex(), 211, 83, True, pmu=mom(centre[0] + de, centre[1] + dp, 2.0))
    rec = b.finish(list(range(len(b.rows))), labelling)
    ev = rec.graph()
    final = [i for i, r in enumerate(rec.rows) if r["final"]]
    names = unique_names([2, -1])
    hard = rec.hard_rows()
    _, outcasts = singlet_oracle(list(zip(names, colors)))
    for radius in (1e-7, 1e-6, 5e-6, 1e-5, 2e-4, 1e-3, 0.01, 0.3, 0.9, 2.0, 4.0, 9.02, 9.5, 14.0, 20.0, 1e4):
        got = gcl.select.clusters(ev, radius)
        require(sorted(got) == sorted(names), "clusters {}", list(got))
        for j, name in enumerate(names):
            centre = coords(rec.rows[hard[j]]["pmu"])
            want = []
            for i in final:
                mine = (i - 2) // (2 + len(OFFSETS)) == j
                e, f, _ = coords(rec.rows[i]["pmu"])
                d = math.hypot(e - centre[0], wrap_angle(f - centre[1]))
                if mine and name in outcasts and abs(d - radius) < 1e-8 * (1 + abs(e)) * (1e-3 if d < 0.1 else 1):
                    want.append(None)
                else:
                    want.append(mine and (name not in outcasts or d <= radius))
            g = got[name].data.tolist()
            require(all(w is None or w == x for w, x in zip(want, g)) and len(g) == len(want),
                    "parton at {} colours {} radius {}: cluster of {} is {} instead of {}", at, colors, radius, name, g, want)
        ctx.ev((at, colors, radius) if outcasts else None)
    ctx.outcome(colors)
