"""C23: jet clustering realises the generalised-kt algorithm."""
import math

from mc.core import Check
from mc.util import *

C = Check(
    "C23",
    "exploration",
    "exhaustive enumeration of small point clouds, exponents, radii and cut combinations against a naive sequential-recombination model",
    "Every ordered cloud of up to 3 (4 thorough) particles over a grid of positions on both sides of the azimuth seam with distinct "
    "transverse momenta and masses, all exponents, radii, and cuts placed just below and above every jet.",
    "cases: cloud x exponent x radius; cuts are enumerated inside; non-trivial when something merges",
    ["clouds whose recombination order or jet order is a tie within 1e-7 are skipped (counted in the notes)",
     "particles along the beam are excluded", "a cut equal to a jet's transverse momentum is only judged where that is exact in floating point"],
)
POS = ((0.0, 0.0), (0.3, 0.25), (-0.2, 3.05), (0.1, -3.0), (1.7, 0.4), (-1.1, 1.5), (2.6, -2.9))
PTS = (10.0, 3.7, 25.3, 0.61, 7.9)
MASSES = (0.0, 1.3, 0.0, 0.2, 2.1)
PVALS = (-1, 0, 1, 0.5, -0.5, 2.0, -1.0, 0.0, 1.0)


def mom(y, phi, pt, m):
    mt = math.hypot(pt, m)
    return (pt * math.cos(phi), pt * math.sin(phi), mt * math.sinh(y), mt * math.cosh(y))


def coords(p):
    return math.hypot(p[0], p[1]), math.asinh(p[2] / math.sqrt(p[3] ** 2 - p[2] ** 2)), math.atan2(p[1], p[0])


def naive(ps, radius, p):
    """Jets as (momentum, members), or None at a tie."""
    live = [(tuple(q), frozenset([i])) for i, q in enumerate(ps)]
    jets = []
    while live:
        cs = [coords(q) for q, _ in live]
        cand = [(c[0] ** (2 * p), i, None) for i, c in enumerate(cs)]
        for i, j in it.combinations(range(len(live)), 2):
            dr2 = (cs[i][1] - cs[j][1]) ** 2 + wrap_angle(cs[i][2] - cs[j][2]) ** 2
            cand.append((min(cs[i][0] ** (2 * p), cs[j][0] ** (2 * p)) * dr2 / radius**2, i, j))
        if p == 0:  # all beam distances are one: only pair distances can tie
            ds = sorted(c[0] for c in cand if c[2] is not None)
            best = min((c for c in cand if c[2] is not None), default=(2.0, 0, None))
            if abs(best[0] - 1.0) < 1e-7 or (len(ds) > 1 and ds[1] - ds[0] < 1e-7 * max(ds[1], 1e-30)):
                return None
            if best[0] > 1.0:
                best = (1.0, 0, None)
        else:
            cand.sort(key=lambda c: c[0])
            best = cand[0]
            if len(cand) > 1 and cand[1][0] - best[0] < 1e-7 * cand[1][0]:
                return None
        _, i, j = best
        if j is None:
            jets.append(live.pop(i))
        else:
            (qa, ma), (qb, mb) = live[i], live[j]
            live = [x for k, x in enumerate(live) if k not in (i, j)]
            live.append((tuple(a + b for a, b in zip(qa, qb)), ma | mb))
    jets.sort(key=lambda x: -math.hypot(x[0][0], x[0][1]))
    pts = [math.hypot(q[0], q[1]) for q, _ in jets]
    if any(a - b < 1e-7 * a for a, b in zip(pts, pts[1:])):
        return None
    return [(q, sorted(m)) for q, m in jets]


def run(pmu, **kw):
    out = gcl.select.fastjet_clusters(pmu, **kw)
    require(isinstance(out, list) and all(isinstance(m, M) and len(m) == len(pmu) for m in out), "output {}", out)
    return [np.flatnonzero(m.data).tolist() for m in out]


def judge(ctx, ps, radius, pval, deep_cuts, key):
    pmu = gcl.MomentumArray(np.array(ps, dtype=float).reshape(-1, 4))
    before = frozen(pmu)
    jets = naive(ps, radius, pval)
    if jets is None:
        ctx.note("skipped ties")
        return
    members = [m for _, m in jets]
    got = run(pmu, radius=radius, p_val=pval)
    require(got == members, "p {} R {} of {}: jets {} not {}", pval, radius, ps, got, members)
    pts = [math.hypot(q[0], q[1]) for q, _ in jets]
    etas = [abs(math.asinh(q[2] / pt)) for (q, _), pt in zip(jets, pts)]
    n = len(jets)
    pt_cuts = [None, 0.0] + sorted({x * f for x in pts for f in (1 - 1e-6, 1 + 1e-6)})
    eta_cuts = [None] + sorted({x * f for x in etas for f in (1 - 1e-6, 1 + 1e-6)}) + [0.0]
    ks = [None, 1, n, n + 3] + ([2] if n > 2 else [])
    if not deep_cuts:
        combos = [(c, None, None) for c in pt_cuts[2:]] + [(None, c, None) for c in eta_cuts[1:]] + [(None, None, k) for k in ks[1:]]
        combos += [(pt_cuts[len(pt_cuts) // 2], eta_cuts[len(eta_cuts) // 2], 1)]
        combos = combos[:: 1 if n < 3 else 2]
    else:
        combos = it.product(pt_cuts, eta_cuts, ks)
    for ptc, etc, k in combos:
        if any(etc is not None and 0 < abs(e - etc) < 1e-9 for e in etas):
            continue
        want = [m for m, pt, e in zip(members, pts, etas) if (ptc is None or pt >= ptc) and (etc is None or e < etc)][:k]
        kw = {nm: v for nm, v in (("pt_cut", ptc), ("eta_cut", etc), ("top_k", k)) if v is not None}
        got = run(pmu, radius=radius, p_val=pval, **kw)
        require(got == want, "p {} R {} cuts {} of {}: jets {} not {}", pval, radius, kw, ps, got, want)
        ctx.ev((key, str(kw)) if want and want != members else None)
    require(frozen(pmu) == before, "the momenta changed")
    ctx.ev(key if n < len(ps) else None)
    ctx.outcome((len(ps), n))


def cloud(pos, rot):
    return [mom(*POS[p], PTS[(i + rot) % 5], MASSES[(i + rot) % 5]) for i, p in enumerate(pos)]


def gen(tier):
    deep = tier == THOROUGH
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for c, pos in enumerate(it.permutations(range(len(POS)), n)):
            if n == 4 and c % 3:
                continue
            for j, pval in enumerate(PVALS):
                radii = (0.4, 1.0, 0.15, 2.5)
                if n > 2 and not deep:
                    if (c + j) % 3:
                        continue
                    radii = (radii[(c + j) % 4],)
                elif n > 1:
                    radii = (radii[(c + j) % 4], radii[(c + j + 1) % 4])
                for r in radii:
                    yield pos, (c + j) % 5, pval, r, False


@C.family("clouds", gen)
def clouds(ctx, pos, rot, pval, radius, deep):
    with quiet_stdout():
        judge(ctx, cloud(pos, rot), radius, pval, deep, (pos, rot, pval, radius))


def gen_cuts(tier):
    for pos in (((0, 4, 2), (5, 6, 0, 4), (1, 0, 2, 3, 4)) if tier != THOROUGH else tuple(it.combinations(range(7), 4)) + ((1, 0, 2, 3, 4),)):
        for pval in (-1, 0, 1, 0.5):
            for rot in range(1 if tier != THOROUGH else 3):
                yield pos, rot, pval, 0.4


@C.family("cut combinations", gen_cuts)
def cut_combinations(ctx, pos, rot, pval, radius):
    with quiet_stdout():
        judge(ctx, cloud(pos, rot), radius, pval, True, (pos, rot, pval, "cuts"))


def gen_many(tier):
    for n in (12, 30, 60):
        for pval in PVALS[:6]:
            for r in (0.3, 0.7, 1.5):
                yield n, pval, r


@C.family("larger clouds", gen_many)
def larger(ctx, n, pval, radius):
    ps = [mom(3 * math.sin(1.7 * i + 0.3), math.pi * math.sin(2.9 * i * i + 1.0), 1.0 + 9.7 * ((i * 37) % n) / n, 0.3 * (i % 3)) for i in range(n)]
    with quiet_stdout():
        judge(ctx, ps, radius, pval, False, ("many", n, pval, radius))


# directions well apart, with transverse momenta that floating point squares exactly
EXACT = [((3.0, 4.0), 5.0), ((-6.0, 8.0), 10.0), ((-5.0, -12.0), 13.0), ((8.0, -15.0), 17.0), ((0.5, 0.0), 0.5), ((0.0, -2.0), 2.0)]


@C.family("exact thresholds", lambda tier: ((s, pval, z) for s in subsets(range(len(EXACT))) if s for pval in PVALS for z in (0.0, 0.75)))
def thresholds(ctx, picks, pval, z):
    """A jet exactly at the transverse momentum threshold is not below it."""
    ps = [(x, y, z * pt, 2.0 * pt) for (x, y), pt in (EXACT[i] for i in picks)]
    pts = [EXACT[i][1] for i in picks]
    order = sorted(range(len(pts)), key=lambda i: -pts[i])
    pmu = gcl.MomentumArray(np.array(ps))
    with quiet_stdout():
        for cut in pts:
            for k in (None, 1, len(pts)):
                want = [[i] for i in order if pts[i] >= cut][:k]
                got = run(pmu, radius=0.25, p_val=pval, pt_cut=cut, top_k=k)
                require(got == want, "p {} cut at {} of jets of {}: {} instead of {}", pval, cut, pts, got, want)
                ctx.ev((picks, pval, z, cut, k))


def gen_bad(tier):
    for kw in (dict(pt_cut=-1.0), dict(pt_cut=-1e-9), dict(eta_cut=-0.5), dict(eta_cut=-1e-9), dict(top_k=0), dict(top_k=-2), dict(top_k=1.5), dict(top_k=2.0),
               dict(top_k=0, pt_cut=1.0), dict(top_k=2, eta_cut=-1.0), dict(radius=-0.4), dict(radius=-1e-9, top_k=1)):
        for n in (1, 2):
            yield kw, n


@C.family("invalid arguments", gen_bad)
def invalid(ctx, kw, n):
    pmu = gcl.MomentumArray(np.array(cloud((0, 2)[:n], 0)))
    args = {"radius": 0.5, "p_val": -1, **kw}
    with quiet_stdout():
        require_raises(ValueError, f"{kw}", gcl.select.fastjet_clusters, pmu, **args)
    ctx.ev((str(kw), n))


@C.family("empty clouds", lambda tier: ((p, kw) for p in PVALS for kw in ({}, dict(pt_cut=1.0), dict(eta_cut=2.0), dict(top_k=2))))
def empty(ctx, pval, kw):
    with quiet_stdout():
        got = gcl.select.fastjet_clusters(gcl.MomentumArray(np.zeros((0, 4))), radius=0.4, p_val=pval, **kw)
    require(list(got) == [], "jets of nothing: {}", got)
    ctx.ev()
