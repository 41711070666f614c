"""C20: hadrons of mixed origin are given to their nearest parton only."""
import math

from mc.core import Check
from mc.events import *
from mc.util import *

C = Check(
    "C20",
    "exploration",
    "exhaustive enumeration of parton / hadronisation-vertex incidences and hadron placements against a nearest-parton oracle",
    "Every way two or three hard leaves (flat or nested under a resonance) and background feed one or two hadronisation vertices, "
    "once or twice each, with hadrons (decaying ones too) on a grid of positions including the azimuth seam, for several weightings.",
    "cases: incidence x placement; non-trivial when some hadron changes hands",
    ["placements where two partons are equally near within rounding are not judged for that hadron"],
)
POS = ((0.0, 0.1), (1.0, 3.1), (-1.2, -3.1), (0.4, -1.5), (2.0, 1.6), (-0.3, 2.8))  # (eta, phi)
PARTONS = ((0.2, 0.3, 50.0), (0.9, -3.0, 20.0), (-1.0, 2.9, 5.0), (1.5, 1.2, 90.0), (-0.5, -1.0, 35.0), (0.0, 3.13, 1.5), (-2.0, 0.5, 12.0), (2.5, -2.0, 60.0))
FEEDS = ("A", "AA", "AB", "B", "-")
EXPS = (-0.1, 0.0, -1.0, 1.0)


def mom(eta, phi, pt, m=None):
    m = 0.8 * pt + 0.1 if m is None else m  # heavy enough for rapidity and pseudorapidity to differ
    pz = pt * math.sinh(eta)
    px, py = pt * math.cos(phi), pt * math.sin(phi)
    return (px, py, pz, math.sqrt(px * px + py * py + pz * pz + m * m))


def coords(p):
    pt = math.hypot(p[0], p[1])
    return math.asinh(p[2] / pt), math.atan2(p[1], p[0]), pt


def distance(parton, hadron, exp):
    (e1, f1, pt), (e2, f2, _) = coords(parton), coords(hadron)
    return pt**exp * math.hypot(e1 - e2, wrap_angle(f1 - f2))


def build(nested, feeds, background, place, labelling, order):
    b = Builder()
    root = b.vertex()
    vtx = {"A": b.vertex(), "B": b.vertex()}
    b.row(b.vertex(), root, 21, -21, pmu=mom(0.1, 0.1, 1.0))
    b.row(b.vertex(), root, 21, -21, pmu=mom(-0.1, 0.1, 1.0))
    codes = (5, 2, -1)[: len(feeds)]
    src = [root] * len(feeds)
    parents = [-1] * len(feeds)
    tags = [("hard", j) for j in range(len(feeds))]
    if nested:  # leaves after the first come from a W
        w, mid = b.vertex(), b.vertex()
        b.row(root, w, 24, -22, pmu=mom(0.3, 0.2, 70.0), tag=("hard", len(feeds)))
        b.row(w, mid, 24, -62, pmu=mom(0.3, 0.2, 70.0))
        tags.append(("hard", len(feeds)))
        src[1:] = [mid] * (len(feeds) - 1)
        parents[1:] = [len(feeds)] * (len(feeds) - 1)
        parents.append(-1)
    used, k = set(), 0
    for j, feed in enumerate(feeds):
        dst = b.vertex()
        final = feed == "-"
        b.row(src[j], dst, codes[j], -23 if not final else 23, final, pmu=mom(*PARTONS[j]), tag=("hard", j))
        for v in feed:
            if v == "-":
                continue
            mid = b.vertex()
            b.row(dst, mid, 21, -51, pmu=mom(*PARTONS[(k + j) % 8]))
            b.row(mid, vtx[v], 21, -71, pmu=mom(*PARTONS[k % 8]), tag=("in", v, j, k))
            used.add(v)
            k += 1
        if not final:
            b.row(dst, b.vertex(), 22, 51, True, pmu=mom(0.5 * j, 0.3, 4.0))
    for v in background:
        b.row(b.vertex(), vtx[v], 21, -63, pmu=mom(*PARTONS[(k + 1) % 8]))
        used.add(v)
        k += 2
    pions = []
    for n, v in enumerate(sorted(used)):
        for i, pos in enumerate(place):
            eta, phi = POS[(pos + 2 * n) % len(POS)]
            if i == 1:  # a hadron that decays
                d = b.vertex()
                b.row(vtx[v], d, 213, -84 if v == "A" else -90, pmu=mom(eta, phi, 3.0))
                for s in (-0.4, 0.9):
                    b.row(d, b.vertex(), 211, 91, True, pmu=mom(eta + s, phi + s, 1.5))
            else:
                b.row(vtx[v], b.vertex(), 211, 80 + 3 * i if v == "A" else 83, True, pmu=mom(eta, phi, 2.0 + i))
    n = len(b.rows)
    rows = list(range(n))
    rows = {0: rows, 1: rows[::-1], 2: rows[1::2] + rows[::2]}[order]
    return b.finish(rows, labelling), parents, tags


def partition_oracle(rec, tree, exp, tol=1e-9):
    """Expected masks; None where two partons are equally near."""
    edges = rec.edges
    vtxs = sorted({r["src"] for r in rec.rows if 80 <= abs(r["status"]) <= 90})

    def walk(node):
        if isinstance(node, dict):
            return {k: (v if k == "latent" else walk(v)) for k, v in node.items()}
        out = list(node)
        for v in vtxs:
            incident = [i for i, (_, d) in enumerate(edges) if d == v]
            if not any(out[i] for i in incident):
                continue
            reach = rec.reach(v)
            for h, r in enumerate(rec.rows):
                if not (reach[h] and r["final"]):
                    continue
                ds = [distance(rec.rows[i]["pmu"], r["pmu"], exp) for i in incident]
                best = min(ds)
                near = {bool(node[i]) for i, d in zip(incident, ds) if d <= best + tol * (1 + best)}
                out[h] = near.pop() if len(near) == 1 else None
        return out

    return walk(tree)


def matches(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(matches(got[k], want[k]) for k in want)
    return len(got) == len(want) and all(w is None or bool(w) == g for g, w in zip(got, want))


def gen(tier):
    deep = tier == THOROUGH
    placements = tuple(it.product(range(6), repeat=3)) if deep else tuple((i, (i * 5 + j) % 6, (2 * i + 3 * j + 1) % 6) for i in range(6) for j in range(2))
    for nl in (1, 2, 3):
        for feeds in it.product(FEEDS, repeat=nl):
            for background in ("", "A", "B", "AB"):
                for nested in ((False, True) if nl > 1 else (False,)):
                    for m, place in enumerate(placements):
                        if not deep and nl == 3 and m % 2 == nested:
                            continue
                        yield nested, feeds, background, place, m % 3, (m // 2) % 3


@C.family("incidences", gen)
def incidences(ctx, nested, feeds, background, place, labelling, order):
    rec, parents, tags = build(nested, feeds, background, place, labelling, order)
    ev = rec.graph()
    got = gcl.select.hadron_vertices(ev.adj, ev.status)
    want = sorted({r["src"] for r in rec.rows if 80 <= abs(r["status"]) <= 90})
    require(isinstance(got, tuple) and sorted(got) == want, "hadronisation vertices {} not {}", got, want)
    hier = gcl.select.hierarchy(ev)
    tree = tree_of(rec, parents, tags)
    require(as_plain(hier) == tree, "hierarchy {}", as_plain(hier))
    before, ev_before = frozen(hier), frozen(ev)
    for exp in (EXPS[0], EXPS[1 + (sum(place) % 3)]):
        part = gcl.select.partition_descendants(ev, hier, exp) if exp != -0.1 else gcl.select.partition_descendants(ev, hier)
        require(frozen(hier) == before, "the input hierarchy changed")
        require(frozen(ev) == ev_before, "the event changed")
        plain = as_plain(part)
        exp_tree = partition_oracle(rec, tree, exp)
        require(isinstance(part, G) and part.agg_op is hier.agg_op, "type {}", part)
        require(matches(plain, exp_tree), "feeds {} background {} nested {} exponent {}: {} not {}", feeds, background, nested, exp, plain, exp_tree)
        leaves = list(as_plain(gcl.select.leaf_masks(part)).values())
        hadron = [any(rec.reach(v)[h] for v in want) and rec.rows[h]["final"] for h in range(len(rec.rows))]
        shared = [h for h in range(len(rec.rows)) if hadron[h] and sum(m[h] for m in leaves) > 1]
        require(not shared, "hadrons {} are in several leaves", shared)
        again = gcl.select.partition_descendants(ev, part, exp)
        require(as_plain(again) == plain, "partitioning again changes the result")
        kw = gcl.select.partition_descendants(graph=ev, hier=hier, pt_exp=exp)
        require(as_plain(kw) == plain, "keyword call differs")
        changed = plain != tree
        ctx.ev((nested, feeds, background, place, exp) if changed else None)
        ctx.outcome(changed)


def gen_near(tier):
    for i, j in it.permutations(range(8), 2):
        for k in range(len(NEAR)):
            if tier == THOROUGH or (i + j + k) % 3 == 0:
                yield i, j, k


NEAR = (1e-3, -1e-3, 1e-5, -1e-5, 1e-6, -1e-6, 2e-7, -2e-7, 2e-8, -2e-8, 3e-9, -3e-9)


@C.family("near ties", gen_near)
def near_ties(ctx, i, j, k):
    """A hadron a shade nearer to one of two partons than to the other."""
    for exp in EXPS:
        b = Builder()
        root, had = b.vertex(), b.vertex()
        for s in (1, -1):
            b.row(b.vertex(), root, 21, -21, pmu=mom(0.1 * s, 0.1, 1.0))
        tags = [("hard", 0), ("hard", 1)]
        for t, code, at in ((0, 5, i), (1, 2, j)):
            dst = b.vertex()
            b.row(root, dst, code, -23, pmu=mom(*PARTONS[at]), tag=tags[t])
            b.row(dst, had, 21, -71, pmu=mom(*PARTONS[at]))
        (e1, f1, p1), (e2, f2, p2) = PARTONS[i], PARTONS[j]
        w1, w2 = p1**exp, p2**exp
        part = w2 / (w1 + w2) + NEAR[k]  # fraction of the way from one to the other
        df = math.remainder(f2 - f1, 2 * math.pi)
        for m in range(3):  # hadrons exactly between do not decide anything
            b.row(had, b.vertex(), 211, 83, True, pmu=mom(e1 + part * (e2 - e1), math.remainder(f1 + part * df, 2 * math.pi), 3.0**m, 0.14 * m))
        rec = b.finish(None, k % 3)
        ev = rec.graph()
        tree = tree_of(rec, [-1, -1], tags)
        want = partition_oracle(rec, tree, exp, 1e-12)
        require(all(None not in v for v in want.values()), "the case is undecided")
        plain = as_plain(gcl.select.partition_descendants(ev, gcl.select.hierarchy(ev), exp))
        require(matches(plain, want), "partons {} and {}, shifted by {}, exponent {}: {} not {}", PARTONS[i], PARTONS[j], NEAR[k], exp, plain, want)
        ctx.ev((i, j, k, exp))


def gen_flat(tier):
    """Outgoing partons only: no resonance, flat hierarchy; and single hadron on every position."""
    for feeds in it.product(("A", "AB", "B"), repeat=2):
        for pos in range(6):
            for exp in EXPS + (-0.5, 2.0):
                yield feeds, pos, exp


@C.family("positions", gen_flat)
def positions(ctx, feeds, pos, exp):
    rec, parents, tags = build(True, feeds, "A", (pos, (pos + 1) % 6, (pos + 4) % 6), 0, 0)
    ev = rec.graph()
    part = gcl.select.partition_descendants(ev, gcl.select.hierarchy(ev), exp)
    want = partition_oracle(rec, tree_of(rec, parents, tags), exp)
    require(matches(as_plain(part), want), "feeds {} exponent {}: {} not {}", feeds, exp, as_plain(part), want)
    ctx.ev((feeds, pos, exp))
    ctx.outcome(exp)


def gen_status(tier):
    for s in range(76, 95):
        for sign in (1, -1):
            yield s * sign,


@C.family("hadronisation codes", gen_status)
def hadronisation_codes(ctx, status):
    b = Builder()
    v = [b.vertex() for _ in range(5)]
    b.row(v[0], v[1], 21, -23)
    b.row(v[1], v[2], 211, status)
    b.row(v[1], v[3], 211, 83)
    b.row(v[2], v[4], 211, status, True)
    for lab in range(3):
        rec = b.finish(None, lab)
        ev = rec.graph()
        want = sorted({r["src"] for r in rec.rows if 80 <= abs(r["status"]) <= 90})
        got = gcl.select.hadron_vertices(ev.adj, ev.status)
        require(sorted(got) == want and len(set(got)) == len(got), "status {}: {} not {}", status, got, want)
    ctx.ev(status)


def scatter(k):
    """Deterministic low-discrepancy points: (eta, phi, pt)."""
    return -2.5 + 5.0 * (k * 0.7548776662466927 % 1.0), -math.pi + 2 * math.pi * (k * 0.5698402909980532 % 1.0), 1.0 + 99.0 * (k * 0.8191725133961645 % 1.0)


def crowd(nleaf, nvert, nhad, nested, s, colors=None):
    """Many hard leaves feeding many hadronisation vertices with many hadrons each."""
    b = Builder()
    root = b.vertex()
    vtx = [b.vertex() for _ in range(nvert)]
    for sign in (1, -1):
        b.row(b.vertex(), root, 21, -21, pmu=mom(0.1 * sign, 0.1, 1.0))
    tags, parents, leaves = [], [], []
    at, k = root, 7 * s
    parent = -1
    for j in range(nleaf):
        if nested and j % 2 == 1:  # a resonance decaying to this leaf and the next
            w, mid = b.vertex(), b.vertex()
            b.row(root, w, (24, -24, 23)[j // 2 % 3], -22, pmu=mom(*scatter(k)), tag=("hard", len(tags)))
            b.row(w, mid, (24, -24, 23)[j // 2 % 3], -62, pmu=mom(*scatter(k)))
            parent, at = len(tags), mid
            tags.append(("hard", len(tags)))
            parents.append(-1)
        elif not nested:
            parent, at = -1, root
        dst = b.vertex()
        k += 1
        b.row(at, dst, (5, -5, 2, -1, 21, 4, -3)[(j + s) % 7], -23, pmu=mom(*scatter(k)), color=colors[j] if colors else (0, 0), tag=("hard", len(tags)))
        leaves.append(dst)
        parents.append(parent if nested and j else -1)
        tags.append(("hard", len(tags)))
    used = set()
    for j, dst in enumerate(leaves):
        feeds = [(j * (1 + s % 3) + i * i) % nvert for i in range(1 + (j + s) % 4)]
        if nvert >= 100:  # every vertex is fed, by one or two leaves
            feeds = [v for v in range(nvert) if j in ((v + s) % nleaf, (v * v + v // 3) % nleaf)]
        for v in feeds:
            mid = b.vertex()
            k += 1
            b.row(dst, mid, 21, -51, pmu=mom(*scatter(k)))
            b.row(mid, vtx[v], 21, -71, pmu=mom(*scatter(k + 3)))
            used.add(v)
    for v in range(nvert):
        if v in used and (v + s) % 2:
            k += 1
            b.row(b.vertex(), vtx[v], 21, -63, pmu=mom(*scatter(k)))
        for h in range(nhad if v in used else 0):
            k += 1
            p = scatter(k)
            if h % 4 == 2:
                d = b.vertex()
                b.row(vtx[v], d, 213, -81 - h % 9, pmu=mom(p[0], p[1], 3.0))
                b.row(d, b.vertex(), 211, 91, True, pmu=mom(p[0] + 0.4, p[1] + 0.3, 1.5))
                b.row(d, b.vertex(), -211, 91, True, pmu=mom(p[0] - 0.4, p[1] - 0.3, 1.5))
            else:
                b.row(vtx[v], b.vertex(), 211, 80 + h % 11, True, pmu=mom(*p))
    n = len(b.rows)
    step = next(t for t in (7, 11, 13, 17) if n % t)
    rows = list(range(n)) if s % 2 else [i * step % n for i in range(n)]
    return b.finish(rows, s % 3), parents, tags


def gen_crowd(tier):
    deep = tier == THOROUGH
    for nleaf in (4, 6, 9) + ((14,) if deep else ()):
        for nvert in (1, 3, 7) + ((12,) if deep else ()):
            for nhad in (3, 12) + ((40,) if deep else ()):
                for nested in (False, True):
                    for s in range(6 if deep else 2):
                        yield nleaf, nvert, nhad, nested, s
    for nvert in (130, 300) + ((600,) if deep else ()):
        yield 4, nvert, 2, nvert % 4 == 0, 1


@C.family("crowds", gen_crowd)
def crowds(ctx, nleaf, nvert, nhad, nested, s):
    rec, parents, tags = crowd(nleaf, nvert, nhad, nested, s)
    ev = rec.graph()
    hier = gcl.select.hierarchy(ev)
    tree = tree_of(rec, parents, tags)
    require(as_plain(hier) == tree, "hierarchy")
    want_v = sorted({r["src"] for r in rec.rows if 80 <= abs(r["status"]) <= 90})
    got_v = gcl.select.hadron_vertices(ev.adj, ev.status)
    require(sorted(got_v) == want_v, "hadronisation vertices {} not {}", got_v, want_v)
    for exp in (-0.1, 0.5):
        plain = as_plain(gcl.select.partition_descendants(ev, hier, exp))
        want = partition_oracle(rec, tree, exp)
        require(matches(plain, want), "{} leaves {} vertices {} hadrons, exponent {}: {} not {}", nleaf, nvert, nhad, exp, plain, want)
        ctx.ev((nleaf, nvert, nhad, nested, s, exp) if plain != tree else None)
        ctx.outcome((nleaf, plain != tree))
