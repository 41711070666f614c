"""C22: centroids, combined masses and cone pruning match their definitions."""
import math

from mc.core import Check
from mc.util import *

C = Check(
    "C22",
    "exploration",
    "exhaustive enumeration of small point clouds on a momentum grid, with weights, masks, radii around each distance and centres across the azimuth seam, against scalar definitions",
    "Every ordered cloud of up to 3 momenta from a grid of 10 (all octants, seam neighbours, spacelike and soft ones), every mask, "
    "both rapidity modes, structured and plain weights, every mask list of length up to 2, radii just below and above each distance.",
    "cases: cloud (x masks x radii x centres inside); non-trivial when the cloud is not empty",
    ["radii equal to a distance within rounding are not judged", "coordinates of sums without transverse momentum are excluded",
     "particles along the beam are excluded from the weighted centroid"],
)
GRID = (
    (3.0, 1.0, 2.0, 5.0), (-2.0, 0.5, -1.0, 2.5), (-2.0, -0.5, 4.0, 6.0), (0.5, -3.0, -2.0, 4.0), (1e-3, 2e-3, 1e-3, 2.5e-3),
    (-40.0, 1.0, 100.0, 110.0), (1.0, 2.0, 2.0, 3.0), (2.0, 2.0, 1.0, 1.0), (-3.0, -1.0, -2.0, 5.0), (0.0, 0.0, 7.0, 7.5),
)


def pt(p):
    return math.hypot(p[0], p[1])


def eta(p):
    return math.asinh(p[2] / pt(p))


def rap(p):
    return 0.5 * math.log((p[3] + abs(p[2])) / (p[3] - abs(p[2]))) * (1 if p[2] >= 0 else -1)


def phi(p):
    return math.atan2(p[1], p[0])


def total(ps):
    return tuple(math.fsum(p[i] for p in ps) for i in range(4))


def mass(ps):
    s = total(ps)
    m2 = s[3] ** 2 - s[0] ** 2 - s[1] ** 2 - s[2] ** 2
    return math.sqrt(m2) if m2 > 0 else 0.0, (s[3] ** 2 + s[0] ** 2 + s[1] ** 2 + s[2] ** 2)


def near_mass(got, ps):
    want, scale = mass(ps)
    return abs(got * got - want * want) <= 1e-12 * scale + 1e-30


def arr(ps):
    return gcl.MomentumArray(np.array(ps, dtype=float).reshape(len(ps), 4))


def gen(tier):
    for n in (1, 2, 3):
        yield from ((c,) for c in it.product(range(len(GRID)), repeat=n))
    if tier == THOROUGH:
        yield from ((c,) for c in it.product(range(len(GRID)), repeat=4))


@C.family("combinations", gen)
def combinations(ctx, idx):
    ps = [GRID[i] for i in idx]
    pmu = arr(ps)
    before = frozen(pmu)
    s = total(ps)
    if pt(s) > 1e-9 * sum(map(abs, s)):
        for pseudo in (True, False):
            if not pseudo and s[3] - abs(s[2]) < 1e-6:
                continue
            got = gcl.calculate.resultant_coords(pmu, pseudo)
            want = (eta(s) if pseudo else rap(s), phi(s))
            require(isinstance(got, tuple) and close(got, want, 1e-9, 1e-9), "combined coordinates of {} (pseudo {}): {} not {}", ps, pseudo, got, want)
        require(close(gcl.calculate.resultant_coords(pmu), (eta(s), phi(s)), 1e-9, 1e-9), "default coordinates")
    for arg in (pmu, np.array(pmu.data)):
        require(near_mass(gcl.calculate.combined_mass(arg), ps), "combined mass of {}", ps)
    ws = [[0.5 + i, 2.0 - 0.25 * i, 1.0 + 0.125 * i * i, 3.0 + i] for i in range(len(ps))]
    fine = [[0.1 + i / 3, 0.2 + i / 7, 0.3 - i / 9, 1.1 + i / 11] for i in range(len(ps))]
    for vals in (fine, ws):
        wps = [tuple(w * c for w, c in zip(row, p)) for row, p in zip(vals, ps)]
        warr = np.array(vals).reshape(len(ps), 4)
        got = gcl.calculate.combined_mass(pmu, warr)
        require(near_mass(got, wps), "weighted mass of {} with {} is {}", ps, vals, got)
    sw = np.array(list(map(tuple, ws)), dtype=[(f, "<f8") for f in "xyze"])
    for w in (warr, sw):
        for got in (gcl.calculate.combined_mass(pmu, w), gcl.calculate.combined_mass(pmu=pmu, weight=w)):
            require(near_mass(got, wps), "weighted mass of {} is {}", ps, got)
    for r in range(4):
        ws = [[(-1.0) ** (i + (r >> 1)) * (0.5 + i), -1.0 if r % 2 else 2.0, (-0.5) ** (i + r), (-1.0) ** (i * r) * 1.25] for i in range(len(ps))]
        if r == 3:
            ws = [[w[3] - 2.0] * 4 for w in ws]
        wps = [tuple(w * c for w, c in zip(row, p)) for row, p in zip(ws, ps)]
        require(near_mass(gcl.calculate.combined_mass(pmu, np.array(ws)), wps), "mass of {} with weights {}", ps, ws)
    zero = gcl.calculate.combined_mass(pmu, np.zeros((len(ps), 4)))
    require(zero == 0.0, "zero weights give mass {}", zero)
    first = np.zeros((len(ps), 4))
    first[0] = 1.0
    require(near_mass(gcl.calculate.combined_mass(pmu, first), ps[:1]), "weight on the first particle of {}", ps)
    if all(pt(p) > 0 for p in ps):
        tot = math.fsum(map(pt, ps))
        mid = math.fsum(phi(p) * pt(p) for p in ps) / tot
        for pseudo in (True, False):
            if not pseudo and any(p[3] <= abs(p[2]) for p in ps):
                continue
            f = eta if pseudo else rap
            want = math.fsum(f(p) * pt(p) for p in ps) / tot
            got = gcl.calculate.weighted_centroid(pmu, pseudo)
            require(close(got[0], want, 1e-9, 1e-9), "weighted centroid of {} (pseudo {}): {} not {}", ps, pseudo, got, want)
            require(abs(wrap_angle(got[1] - mid)) < 1e-9 and abs(got[1]) <= math.pi + 1e-12, "weighted azimuth of {}: {} not {}", ps, got, mid)
        require(close(gcl.calculate.weighted_centroid(pmu), (math.fsum(eta(p) * pt(p) for p in ps) / tot, wrap_angle(mid)), 1e-9, 1e-9), "default centroid")
    require(frozen(pmu) == before, "inputs changed")
    ctx.ev(idx)
    ctx.outcome((len(ps), mass(ps)[0] > 0))


def gen_agg(tier):
    clouds = [c for n in (1, 2, 3) for c in it.combinations(range(len(GRID)), n)] + [()]
    for c in clouds:
        for k in (1, 2) if len(c) > 2 and tier != THOROUGH else (1, 2, 3):
            for masks in it.product(tuple(bits(len(c))), repeat=k):
                yield c, masks


@C.family("aggregates", gen_agg)
def aggregates(ctx, idx, masks):
    ps = [GRID[i] for i in idx]
    pmu = arr(ps)
    objs = [M(list(m)) for m in masks]
    before = frozen(pmu), frozen(objs)
    want = [total([p for p, b in zip(ps, m) if b]) for m in masks]
    names = [f"k{9 - i}" for i in range(len(masks))]
    for arg in (objs, tuple(objs), iter(objs), G(dict(zip(names, objs))).values()):
        got = gcl.calculate.aggregate_momenta(pmu, arg)
        require(type(got) is gcl.MomentumArray and len(got) == len(masks), "aggregate of {} masks: {}", len(masks), got)
        require(close(cols(got), np.array(want), 1e-12, 1e-12), "aggregate of {} with {} is {}", ps, masks, cols(got))
    # the same mask object more than once, and groups as masks
    again = objs + objs[:1] + objs
    for arg in (again, tuple(again), [G({"p": m, "q": m}, "or") for m in again]):
        got = gcl.calculate.aggregate_momenta(pmu, arg)
        require(len(got) == len(again) and close(cols(got), np.array(want + want[:1] + want), 1e-12, 1e-12), "aggregate of {} with repeated masks {} is {}", ps, masks, cols(got))
    require((frozen(pmu), frozen(objs)) == before, "inputs changed")
    ctx.ev((idx, masks) if idx else None)
    ctx.outcome(sum(map(any, masks)))


CENTRES = ((0.0, 0.0), (0.7, 3.1), (0.7, -3.1), (-1.5, 1.2), (0.2, math.pi), (0.2, -math.pi), (0.0, 5.5), (1.0, -4.0))


def gen_prune(tier):
    pool = [i for i in range(len(GRID)) if pt(GRID[i]) > 0]
    for n in (1, 2, 3):
        for k, c in enumerate(it.combinations(pool, n)):
            masks = [None] + list(bits(n))
            for m in masks:
                for ctr in (None,) + (CENTRES if tier == THOROUGH or n < 3 else CENTRES[k % 2 :: 2]):
                    yield c[::-1] if k % 2 else c, m, ctr


@C.family("pruning", gen_prune)
def pruning(ctx, idx, mask, centre):
    ps = [GRID[i] for i in idx]
    pmu = arr(ps)
    chosen = [p for i, p in enumerate(ps) if mask is None or mask[i]]
    if centre is None:
        s = total(chosen)
        if pt(s) <= 1e-6:
            return
        mid = (eta(s), phi(s))
    else:
        mid = centre
    dist = [math.hypot(eta(p) - mid[0], wrap_angle(phi(p) - mid[1])) for p in ps]
    obj = None if mask is None else M(list(mask))
    before = frozen(pmu), None if obj is None else frozen(obj)
    radii = {0.0, 0.4, 1.0, 3.0, 100.0} | {d * f for d in dist for f in (1 - 1e-6, 1 + 1e-6)}
    calls = []
    for r in sorted(radii):
        if any(abs(d - r) < 1e-9 for d in dist):
            continue
        want = [d < r and (mask is None or mask[i]) for i, d in enumerate(dist)]
        got = gcl.select.centroid_prune(pmu, r, obj, centre)
        require(isinstance(got, M) and got.data.tolist() == want, "prune {} radius {} mask {} centre {}: {} not {}", ps, r, mask, centre, got, want)
        kw = {k: v for k, v in (("mask", obj), ("centre", centre)) if v is not None}
        require(gcl.select.centroid_prune(pmu=pmu, radius=r, **kw).data.tolist() == want, "keyword call")
        ctx.ev((idx, mask, centre, r) if any(want) and not all(want) else None)
        calls.append(got)
    require((frozen(pmu), None if obj is None else frozen(obj)) == before, "inputs changed")
    ctx.outcome(len(calls))


def gen_edge(tier):
    steps = (-2.0, -0.75, -0.5, 0.0, 0.25, 1.0) if tier != THOROUGH else tuple(k / 8 for k in range(-16, 17))
    for n in (1, 2, 3):
        for c in it.product(((5.0, 0.0, 0.0, 6.0), (1.0, 0.0, 0.0, 1.0), (-3.0, 1.0, 2.0, 5.0)), repeat=n):
            if not all(p[2] for p in c):
                for x in steps:
                    yield c, x


@C.family("boundary", gen_edge)
def boundary(ctx, ps, x):
    """A distance exactly equal to the radius is not below it: the particles along x are exactly |x| from (x, 0)."""
    pmu = arr(ps)
    for r in (abs(x), abs(x) + 0.125):
        got = gcl.select.centroid_prune(pmu, r, None, (x, 0.0)).data.tolist()
        for p, g in zip(ps, got):
            if p[2] == 0.0:
                require(g == (r > abs(x)), "prune {} at distance {} with radius {}: {}", p, abs(x), r, got)
        ctx.ev((ps, x, r))
    ctx.outcome(x == 0)


def far_apart(k):
    y, f, pt, m = 6 * (k * 0.7548776662466927 % 1.0) - 3, 2 * math.pi * (k * 0.5698402909980532 % 1.0) - math.pi, 0.2 + 80 * (k * 0.8191725133961645 % 1.0), 0.3 * (k % 4)
    mt = math.hypot(pt, m)
    return (pt * math.cos(f), pt * math.sin(f), mt * math.sinh(y), mt * math.cosh(y))


@C.family("larger clouds", lambda t: ((n, s) for n in (7, 33, 64, 130, 1000) + ((20000,) if t == THOROUGH else ()) for s in range(4)))
def larger(ctx, n, s):
    ps = [far_apart(17 * s + k) for k in range(n)]
    pmu = arr(ps)
    before = frozen(pmu)
    tot = total(ps)
    for pseudo in (True, False):
        require(close(gcl.calculate.resultant_coords(pmu, pseudo), ((eta if pseudo else rap)(tot), phi(tot)), 1e-8, 1e-8), "combined coordinates of {} momenta", n)
        f, w = eta if pseudo else rap, math.fsum(map(pt, ps))
        got = gcl.calculate.weighted_centroid(pmu, pseudo)
        mid = math.fsum(phi(p) * pt(p) for p in ps) / w
        require(close(got, (math.fsum(f(p) * pt(p) for p in ps) / w, wrap_angle(mid)), 1e-9, 1e-9), "weighted centroid of {} momenta: {}", n, got)
    require(near_mass(gcl.calculate.combined_mass(pmu), ps), "combined mass of {} momenta", n)
    ws = [[0.25 + (i + j) % 5 for j in range(4)] for i in range(n)]
    require(near_mass(gcl.calculate.combined_mass(pmu, np.array(ws)), [tuple(a * b for a, b in zip(w, p)) for w, p in zip(ws, ps)]), "weighted mass of {} momenta", n)
    masks = [[(i * (j + 2) + s) % (j + 3) == 0 for i in range(n)] for j in range(1 if n > 5000 else 40)]
    got = gcl.calculate.aggregate_momenta(pmu, [M(m) for m in masks])
    require(close(cols(got), np.array([total([p for p, b in zip(ps, m) if b]) for m in masks]), 1e-10, 1e-10), "aggregates of {} momenta", n)
    for mask in (None, [i % 3 != s % 3 for i in range(n)], [n // 4 <= i < n // 2 for i in range(n)]):
        chosen = [p for i, p in enumerate(ps) if mask is None or mask[i]]
        sm = total(chosen)
        for centre in (None, (0.4, 3.0), (-1.0, -3.1)):
            c = centre or (eta(sm), phi(sm))
            dist = [math.hypot(eta(p) - c[0], wrap_angle(phi(p) - c[1])) for p in ps]
            for r in (0.3, 1.0, 2.2, 5.0):
                got = gcl.select.centroid_prune(pmu, r, None if mask is None else M(mask), centre).data.tolist()
                bad = [i for i, d in enumerate(dist) if abs(d - r) > 1e-8 and got[i] != (d < r and (mask is None or mask[i]))]
                require(len(got) == n and not bad, "prune of {} momenta, radius {} centre {}: rows {} differ", n, r, centre, bad[:5])
                ctx.ev((n, s, r, centre, mask is None))
    require(frozen(pmu) == before, "inputs changed")
    ctx.outcome(n)
