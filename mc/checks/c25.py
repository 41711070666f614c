"""C25: angular distances and clustering coefficients match their definitions."""
import math

from mc.core import Check
from mc.util import *

C = Check(
    "C25",
    "exploration",
    "exhaustive enumeration of momentum pairs and small clouds on a grid (seam, beam and degenerate directions included) against scalar definitions, for both rapidity modes and all thread counts",
    "All pairs of a 24-momentum grid in both rapidity modes and argument orders, all clouds of up to 4 (5 thorough) momenta of an 8-momentum "
    "grid against each other, every neighbourhood graph a radius can cut from them, all exponents and thread counts 1 to 4.",
    "cases: pair or cloud; non-trivial when some distance is neither zero nor infinite",
    ["the azimuth difference of particles without transverse momentum is not prescribed", "radii within rounding of a distance are not judged"],
)


def build():
    out = []
    for i, (phi, y) in enumerate(it.product((0.0, 0.9, 3.1, -3.13, -1.4), (0.0, 1.1, -2.6))):
        pt, m = 0.5 + 3.1 * i, (0.0, 0.7, 12.0)[i % 3]
        mt = math.hypot(pt, m)
        out.append((pt * math.cos(phi), pt * math.sin(phi), mt * math.sinh(y), mt * math.cosh(y)))
    out += [(-1.0, 1e-7, 0.5, 2.0), (-1.0, -1e-7, 0.5, 2.0), (-2.0, 0.0, 1.0, 3.0), (1e-6, 1e-6, 1e-6, 2e-6), (1e5, -2e5, 3e5, 1e6)]
    out += [(0.0, 0.0, 5.0, 5.0), (0.0, 0.0, 2.0, 2.0), (0.0, 0.0, -3.0, 3.0), (0.0, 0.0, 4.0, 6.0)]
    return tuple(out)


GRID = build()
BEAM = {i for i, p in enumerate(GRID) if p[0] == p[1] == 0.0}


def rap(p, pseudo):
    pt, z = math.hypot(p[0], p[1]), p[2]
    if pseudo:
        return math.asinh(z / pt) if pt else math.copysign(math.inf, z)
    d = p[3] - abs(z)
    return math.copysign(0.5 * math.log((p[3] + abs(z)) / d), z) if d > 0 else math.copysign(math.inf, z)


def dist(a, b, pseudo):
    """Distance, or a (low, high) range where azimuth is undefined."""
    ra, rb = rap(a, pseudo), rap(b, pseudo)
    if math.isinf(ra) or math.isinf(rb):
        if ra != rb:
            return math.inf
        dy = 0.0
    else:
        dy = ra - rb
    if not math.hypot(a[0], a[1]) or not math.hypot(b[0], b[1]):
        return (abs(dy), math.hypot(dy, math.pi))
    cross, dot = a[1] * b[0] - a[0] * b[1], a[0] * b[0] + a[1] * b[1]
    return math.hypot(dy, math.atan2(cross, dot))


def agrees(got, want):
    if isinstance(want, tuple):
        return want[0] - 1e-9 <= got <= want[1] + 1e-9
    return got == want or abs(got - want) <= 1e-9 * (1 + want)


def arr(ps):
    return gcl.MomentumArray(np.array(ps, dtype=float).reshape(len(ps), 4))


def check_matrix(got, aps, bps, pseudo, what):
    got = np.asarray(got)
    require(got.shape == (len(aps), len(bps)) and got.dtype == np.float64, "{}: shape {} {}", what, got.shape, got.dtype)
    for i, a in enumerate(aps):
        for j, b in enumerate(bps):
            require(agrees(got[i, j], dist(a, b, pseudo)), "{}: distance of {} and {} (pseudo {}): {} not {}", what, a, b, pseudo, got[i, j], dist(a, b, pseudo))


@C.family("pairs", lambda tier: it.product(range(len(GRID)), repeat=2))
def pairs(ctx, i, j):
    a, b = GRID[i], GRID[j]
    pa, pb = arr([a]), arr([b])
    before = frozen(pa), frozen(pb)
    for pseudo in (True, False):
        check_matrix(pa.delta_R(pb, pseudo), [a], [b], pseudo, "pair")
        check_matrix(pa.delta_R(pb, pseudo=pseudo, threads=2), [a], [b], pseudo, "pair, two threads")
        both = arr([a, b])
        m = both.delta_R(both, pseudo)
        require(agrees(m[0, 1], dist(a, b, pseudo)) and m[0, 1] == m[1, 0], "matrix of a pair {} {} (pseudo {}): {}", a, b, pseudo, m)
        require(m[0, 0] == 0.0 and m[1, 1] == 0.0, "diagonal {}", m)
    check_matrix(pa.delta_R(pb), [a], [b], True, "default")
    if i not in BEAM and j not in BEAM:
        for exp in (-0.1, 0.0, 1.0, -1.0, 0.5, 2.0):
            got = gcl.matrix.parton_hadron_distance(pa, pb, exp)
            want = math.hypot(a[0], a[1]) ** exp * dist(a, b, True)
            require(got.shape == (1, 1) and close(got, [[want]], 1e-9, 1e-9), "weighted distance of {} {} exponent {}: {} not {}", a, b, exp, got, want)
        got = gcl.matrix.parton_hadron_distance(pa, pb)
        require(close(got, [[math.hypot(a[0], a[1]) ** -0.1 * dist(a, b, True)]], 1e-9, 1e-9), "default exponent")
    require((frozen(pa), frozen(pb)) == before, "inputs changed")
    d = dist(a, b, True)
    ctx.ev((i, j) if not isinstance(d, tuple) and 0 < d < math.inf else None)
    ctx.outcome(str(d) if isinstance(d, tuple) or d in (0, math.inf) else "finite")


CLOUD = (0, 2, 4, 7, 10, 12, 15, 18)


def gen(tier):
    sizes = (1, 2, 3, 4) if tier != THOROUGH else (1, 2, 3, 4, 5)
    yield (), ()
    for n in sizes:
        for k, c in enumerate(it.permutations(CLOUD, n) if n < 4 else it.combinations(CLOUD, n)):
            m = (k % 4)
            yield c, CLOUD[k % 8 :][:m] + (CLOUD[:1] if m > 2 else ())


@C.family("clouds", gen)
def clouds(ctx, ai, bi):
    aps, bps = [GRID[i] for i in ai], [GRID[i] for i in bi]
    a, b = arr(aps), arr(bps)
    before = frozen(a), frozen(b)
    t = 1 + sum(ai) % 4
    for pseudo in (True, False):
        full = a.delta_R(a, pseudo, threads=t)
        check_matrix(full, aps, aps, pseudo, "cloud with itself")
        require(same(full, full.T) and not np.any(np.diag(full)), "not symmetric with zero diagonal: {}", full)
        general = a.delta_R(a.copy(), pseudo, threads=5 - t)
        require(close(general, full, 1e-12, 1e-12), "two-array result differs: {} {}", general, full)
        check_matrix(a.delta_R(b, pseudo), aps, bps, pseudo, "two clouds")
        check_matrix(b.delta_R(a, pseudo, t), bps, aps, pseudo, "two clouds reversed")
        for k in range(len(aps)):
            row = a[k : k + 1].delta_R(a, pseudo)
            require(close(row, full[k : k + 1], 1e-12, 1e-12), "row {} alone differs", k)
    require(same(gcl.matrix.delta_R_aff(a), a.delta_R(a)), "affinity matrix")
    for exp in (-0.1, 0.0, 1.5):
        got = gcl.matrix.parton_hadron_distance(a, b, pt_exp=exp)
        want = np.array([[math.hypot(p[0], p[1]) ** exp * dist(p, q, True) for q in bps] for p in aps]).reshape(len(aps), len(bps))
        require(close(got, want, 1e-9, 1e-9), "weighted distances exponent {}: {} not {}", exp, got, want)
    require((frozen(a), frozen(b)) == before, "inputs changed")
    ctx.ev((ai, bi) if len(ai) > 1 else None)
    ctx.outcome((len(ai), len(bi)))


def coefs(ps, radius, pseudo):
    n = len(ps)
    adj = [[i != j and dist(ps[i], ps[j], pseudo) < radius for j in range(n)] for i in range(n)]
    out = []
    for i in range(n):
        nb = [j for j in range(n) if adj[i][j]]
        pairs_ = list(it.combinations(nb, 2))
        out.append(sum(adj[j][k] for j, k in pairs_) / len(pairs_) if pairs_ else 0.0)
    return out


def gen_coef(tier):
    for n in range(0, 7 if tier == THOROUGH else 6):
        for k, c in enumerate(it.combinations(CLOUD, n)):
            yield c[::-1] if k % 2 else c, k % 4


@C.family("clustering coefficients", gen_coef)
def coefficients(ctx, idx, rot):
    idx = idx[rot:] + idx[:rot]
    ps = [GRID[i] for i in idx]
    pmu = arr(ps)
    before = frozen(pmu)
    for pseudo in (True, False):
        ds = sorted({dist(a, b, pseudo) for a, b in it.combinations(ps, 2)})
        radii = [0.0] + [d * (1 + 1e-7) + 1e-9 for d in ds] + [d * (1 - 1e-7) for d in ds[:2]]
        for k, r in enumerate(radii):
            if any(abs(d - r) < 1e-10 for d in ds) or r < 0:
                continue
            want = coefs(ps, r, pseudo)
            got = gcl.calculate.cluster_coeff_distbn(pmu, r, pseudo, 1 + (k + rot) % 4)
            require(got.shape == (len(ps),) and close(got, want, 1e-5, 1e-6), "coefficients of {} radius {} (pseudo {}): {} not {}", idx, r, pseudo, got, want)
            ctx.ev((idx, r, pseudo) if any(want) and len(set(want)) > 1 else None)
            ctx.outcome(tuple(sorted(round(w, 3) for w in want)))
        if pseudo and ds:
            require(close(gcl.calculate.cluster_coeff_distbn(pmu, radii[-1]), coefs(ps, radii[-1], True), 1e-5, 1e-6), "default arguments")
            require(close(gcl.calculate.cluster_coeff_distbn(pmu=pmu, radius=radii[1], threads=2, pseudo=False), coefs(ps, radii[1], False), 1e-5, 1e-6)
                    if not any(abs(dist(a, b, False) - radii[1]) < 1e-9 for a, b in it.combinations(ps, 2)) else True, "keyword arguments")
    require(frozen(pmu) == before, "inputs changed")


def gen_line(tier):
    """Particles equally spaced in rapidity: chains, rings and cliques."""
    for n in (3, 4, 5, 6, 8) + ((16, 40) if tier == THOROUGH else (12,)):
        for shape in ("line", "ring", "cluster"):
            for mult in (1.1, 2.1, 3.1, 0.5):
                yield n, shape, mult


@C.family("lattices", gen_line)
def lattices(ctx, n, shape, mult):
    ps = []
    for i in range(n):
        phi = 2 * math.pi * i / n if shape == "ring" else 0.2
        y = 0.5 * (i - n // 2) if shape == "line" else (0.0 if shape == "ring" else 2.0 * (i // 3 - n // 6) + 0.1 * (i % 3))
        ps.append((math.cos(phi), math.sin(phi), math.sinh(y), math.cosh(y) + 0.5))
    r = mult * (0.5 if shape == "line" else 2 * math.pi / n if shape == "ring" else 0.7)
    pmu = arr(ps)
    for t in (1, 2, 3, 4):
        got = gcl.calculate.cluster_coeff_distbn(pmu, r, True, t)
        require(close(got, coefs(ps, r, True), 1e-5, 1e-6), "{} of {} radius {}: {}", shape, n, r, got)
        check_matrix(pmu.delta_R(pmu, False, t), ps, ps, False, "lattice")
    ctx.ev((n, shape, mult))


@C.family("cliques", lambda t: it.product((60, 128, 129, 182, 183, 257, 363, 400) + ((1000, 2000) if t == THOROUGH else ()), (True, False), range(3)))
def cliques(ctx, n, pseudo, lone):
    """Hundreds of mutual neighbours, apart from a few distant particles and one between two groups."""
    step = min(0.001, 0.5 / n)
    ps = [(math.cos(step * i), math.sin(step * i), 0.0, 1.0 + i % 3) for i in range(n)]
    ps += [(math.cos(2.0 + k), math.sin(2.0 + k), math.sinh(9.0 + 5 * k), math.cosh(9.0 + 5 * k)) for k in range(lone)]
    want = [1.0] * n + [0.0] * lone
    for t in (1, 3):
        got = gcl.calculate.cluster_coeff_distbn(arr(ps), 1.1, pseudo, t)
        require(close(got, want, 1e-5, 1e-6), "coefficients of a clique of {} and {} others: {}", n, lone, np.unique(got))
    # a hub between two cliques
    y = 2.0
    ps = [(1.0, 0.0, math.sinh(s * y), math.cosh(y)) for s in (-1, 1) for _ in range(n // 2)] + [(1.0, 0.0, 0.0, 1.0)]
    m = n // 2
    got = gcl.calculate.cluster_coeff_distbn(arr(ps), 2.5, pseudo, 2)
    want = [1.0] * (2 * m) + [2 * m * (m - 1) / (2 * m * (2 * m - 1))]
    require(close(got, want, 1e-5, 1e-6), "coefficients of a hub of {}: {} not {}", 2 * m, got[-1], want[-1])
    ctx.ev((n, pseudo, lone))


@C.family("thousands", lambda t: ((n, p) for n in (513, 1023, 1027, 2050) + ((4099,) if t == THOROUGH else ()) for p in (True, False)))
def thousands(ctx, n, pseudo):
    i = np.arange(n)
    y, f = 6 * (i * 0.7548776662466927 % 1.0) - 3, 2 * math.pi * (i * 0.5698402909980532 % 1.0) - math.pi
    raw = np.column_stack([np.cos(f), np.sin(f), np.sinh(y), np.cosh(y)])
    a = gcl.MomentumArray(raw)
    k = np.array(sorted({0, 1, 2, n // 3, n // 2, n - 4, n - 3, n - 2, n - 1}))
    for t in (1, 4):
        full = a.delta_R(a, pseudo, t)
        require(full.shape == (n, n) and same(full, full.T) and not np.any(np.diag(full)), "{} momenta: not symmetric with zero diagonal", n)
        for b in (0, n // 2):
            df = f[b : b + 400, None] - f[None, :]
            want = np.hypot(y[b : b + 400, None] - y[None, :], np.arctan2(np.sin(df), np.cos(df)))
            require(np.allclose(full[b : b + 400], want, 1e-8, 1e-7), "{} momenta, {} threads: rows from {}", n, t, b)
        df = f[k, None] - f[None, :]
        want = np.hypot(y[k, None] - y[None, :], np.arctan2(np.sin(df), np.cos(df)))
        require(np.allclose(full[k], want, 1e-8, 1e-7), "{} momenta, {} threads: distances of {}", n, t, k)
        require(np.allclose(a[k].delta_R(a, pseudo, t), want, 1e-8, 1e-7) and np.allclose(a.delta_R(a[k], pseudo, t), want.T, 1e-8, 1e-7),
                "{} momenta with {}, {} threads", n, len(k), t)
    ctx.ev((n, pseudo))


def gen_big(tier):
    for n in (9, 17, 33, 64, 65, 130) + ((300,) if tier == THOROUGH else ()):
        for m in (1, 8, 31, 70):
            for s in range(4 if tier == THOROUGH else 2):
                yield n, m, s


@C.family("larger clouds", gen_big)
def larger(ctx, n, m, s):
    def far_apart(k):
        y, f, pt, ms = 5 * (k * 0.7548776662466927 % 1.0) - 2.5, 2 * math.pi * (k * 0.5698402909980532 % 1.0) - math.pi, 0.1 + 90 * (k * 0.8191725133961645 % 1.0), 0.4 * (k % 5)
        mt = math.hypot(pt, ms)
        return (pt * math.cos(f), pt * math.sin(f), mt * math.sinh(y), mt * math.cosh(y))

    aps, bps = [far_apart(k + 31 * s) for k in range(n)], [far_apart(5 * k + 7 * s) for k in range(m)]
    a, b = arr(aps), arr(bps)
    for pseudo in (True, False):
        ra, rb = np.array([rap(p, pseudo) for p in aps]), np.array([rap(p, pseudo) for p in bps])
        fa, fb = np.array([math.atan2(p[1], p[0]) for p in aps]), np.array([math.atan2(p[1], p[0]) for p in bps])

        def table(r1, f1, r2, f2):
            df = f1[:, None] - f2[None, :]
            return np.hypot(r1[:, None] - r2[None, :], np.arctan2(np.sin(df), np.cos(df)))

        own = table(ra, fa, ra, fa)
        for t in (1, 2, 3, 4):
            full = a.delta_R(a, pseudo, t)
            require(same(full, full.T) and not np.any(np.diag(full)), "{} momenta, {} threads: not symmetric with zero diagonal", n, t)
            require(close(full, own, 1e-8, 1e-8), "{} momenta, {} threads (pseudo {}): distances differ by {}", n, t, pseudo, np.abs(full - own).max())
            require(close(a.delta_R(b, pseudo, t), table(ra, fa, rb, fb), 1e-8, 1e-8), "{} by {} momenta, {} threads (pseudo {})", n, m, t, pseudo)
            require(close(b.delta_R(a, pseudo, t), table(rb, fb, ra, fa), 1e-8, 1e-8), "{} by {} momenta, {} threads (pseudo {})", m, n, t, pseudo)
        for r in (0.2, 0.8, 1.9, 4.0, 20.0):
            if np.any(np.abs(own - r) < 1e-8):
                continue
            adj = (own < r) & ~np.eye(n, dtype=bool)
            k = adj.sum(axis=0)
            tri = np.einsum("ij,jk,ki->i", adj.astype(float), adj.astype(float), adj.astype(float))
            want = np.where(k > 1, tri / np.maximum(k * (k - 1), 1), 0.0)
            got = gcl.calculate.cluster_coeff_distbn(a, r, pseudo, 1 + n % 4)
            require(close(got, want, 1e-5, 1e-6), "coefficients of {} momenta, radius {} (pseudo {}): {} not {}", n, r, pseudo, got[:6], want[:6])
            ctx.ev((n, m, s, pseudo, r))
        if pseudo:
            got = gcl.matrix.parton_hadron_distance(a, b, -0.3)
            want = np.array([math.hypot(p[0], p[1]) ** -0.3 for p in aps])[:, None] * table(ra, fa, rb, fb)
            require(close(got, want, 1e-8, 1e-8), "weighted distances of {} by {} momenta", n, m)
    ctx.outcome(n)
