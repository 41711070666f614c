"""C27: event shapes are attained at the axis they report."""
from mc.core import Check
from mc.util import *

C = Check(
    "C27",
    "exploration",
    "exhaustive enumeration of small events, orientations and seeds of the axis search against enumerated extremal axes",
    "Every multiset of momenta from a direction and magnitude grid with every seed of a range: values against the "
    "defining sums at the returned axis, thrust axes against the enumeration of all sign vectors, rings of neighbouring "
    "axes, exact values of pencils and crosses in every orientation of a grid.",
    "cases: (event, seed); non-trivial when the event has at least two particles with different directions",
    ["the axis search is local, as documented (single random initial guess): global optimality is required only where every "
     "local optimum is global", "spherocity is required to be a local minimum for events without particles on the z axis"],
)
DIRS = [d for d in it.product((-1, 0, 1), repeat=3) if any(d)]
HALF = [d for d in DIRS if d > (0, 0, 0)]
GENERIC = [(0.3, -1.2, 0.7), (1.4, 0.2, -0.5), (-0.6, -0.9, -1.1), (0.15, 0.05, 2.0), (2.2, -0.4, 0.1), (-0.8, 1.3, 0.35)]
calc = gcl.calculate
SEEDS = {"quick": range(6), THOROUGH: range(30)}


def mom(vecs, energies=None):
    P = np.zeros((len(vecs), 4))
    P[:, :3] = np.array(vecs, dtype=float).reshape(-1, 3)
    P[:, 3] = np.linalg.norm(P[:, :3], axis=1) + 1.0 if energies is None else energies
    return gcl.MomentumArray(P)


def thrust_at(q, n):
    return np.abs(q @ n).sum() / np.sqrt((q * q).sum(1)).sum()


def spher_at(q, n):
    return (4.0 / math.pi * np.sqrt((np.cross(q, n) ** 2).sum(1)).sum() / np.sqrt((q * q).sum(1)).sum()) ** 2


def true_thrust(q):
    q = q[(q != 0).any(1)]
    best = max(np.linalg.norm(((1.0,) + s) @ q) for s in it.product((1.0, -1.0), repeat=len(q) - 1))
    return best / np.sqrt((q * q).sum(1)).sum()


def ring(n):
    a = np.eye(3)[np.argmin(np.abs(n))]
    u = np.cross(n, a)
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    for eps in (1e-3, 1e-4):
        for k in range(16):
            t = math.pi * k / 8
            yield math.cos(eps) * n + math.sin(eps) * (math.cos(t) * u + math.sin(t) * v)


def shape(fn, pmu, seed):
    """Value and axis, after checking every way of asking for them."""
    before = frozen(pmu)
    state = np.random.get_state()[1].tobytes()
    val, axis = fn(pmu, return_axis=True, rng_seed=seed)
    axis = np.asarray(axis)
    require(axis.shape == (3,) and abs(np.linalg.norm(axis) - 1.0) < 1e-9, "axis {} is not a unit vector", axis)
    alone = fn(pmu, rng_seed=seed)
    require(isinstance(alone, float), "value without an axis is {}", type(alone))
    val2, axis2 = fn(pmu, True, seed)
    require(same(axis, axis2) and val == val2 == alone, "seed {} gives {} {} and then {} {} {}", seed, val, axis, val2, axis2, alone)
    require(frozen(pmu) == before, "the momenta were modified")
    require(np.random.get_state()[1].tobytes() == state, "numpy's global random state was touched")
    return float(val), axis


def judge(ctx, vecs, seed, generic):
    q = np.array(vecs, dtype=float)
    pmu = mom(vecs)
    top = true_thrust(q)
    val, axis = shape(calc.thrust, pmu, seed)
    require(abs(val - thrust_at(q, axis)) < 1e-9, "thrust {} but {} at its axis {}", val, thrust_at(q, axis), axis)
    require(val <= top + 1e-9, "thrust {} exceeds the maximum {}", val, top)
    dots = q @ axis
    proj = np.linalg.norm(np.sign(dots) @ q) / np.sqrt((q * q).sum(1)).sum()
    require(abs(val - proj) < 1e-6, "thrust {} at {} is not a local maximum: {} after one step", val, axis, proj)
    for m in (m for m in ring(axis) if np.all(np.sign(q @ m) == np.sign(dots))):
        require(thrust_at(q, m) <= val + 1e-6, "thrust {} at {} is not maximal: {} at {}", val, axis, thrust_at(q, m), m)
    sph, sax = shape(calc.spherocity, pmu, seed)
    require(abs(sph - spher_at(q, sax)) < 1e-9, "spherocity {} but {} at its axis {}", sph, spher_at(q, sax), sax)
    if generic:
        for m in ring(sax):
            require(spher_at(q, m) >= sph - 1e-6, "spherocity {} at {} is not minimal: {} at {}", sph, sax, spher_at(q, m), m)
    ctx.ev((vecs, seed) if len(vecs) > 1 else None, 2)
    ctx.outcome(f"thrust {'global' if val > top - 1e-6 else 'local'}")


MAGS = (1.0, 0.25, 3.0)


def generic_events(tier):
    """Events in general position: signed, scaled subsets of the generic directions."""
    pool = [tuple(m * x for x in g) for g in GENERIC for m in ((1.0, 2.5) if tier == "quick" else MAGS)]
    for n in (1, 2, 3) + ((4,) if tier == THOROUGH else ()):
        for vecs in it.combinations(pool, n):
            yield vecs
    for n in (4, 5, 6):
        for idx in it.combinations(range(6), n):
            yield tuple(tuple((-1) ** (i * k) * MAGS[(i + k) % 3] * x for x in GENERIC[i]) for k, i in enumerate(idx))


@C.family("events in general position", lambda t: ((v, s) for v in generic_events(t) for s in SEEDS[t]))
def generic(ctx, vecs, seed):
    judge(ctx, vecs, seed, True)


POLAR = (11, 412, 621, 775, 1819, 2410, 2821, 3233, 3455, 4436, 4883, 5304, 5399, 5613)  # searches that start along the beam


@C.family("searches from the beam", lambda t: ((v, s) for v in list(generic_events("quick"))[:: 1 if t == THOROUGH else 3] + [((1.4, 0.2, -0.5), (0.0375, 0.0125, 0.5))]
                                               for s in POLAR))
def from_beam(ctx, vecs, seed):
    """The angles of an axis along the beam are degenerate."""
    judge(ctx, vecs, seed, True)


def scattered(n, s):
    k = np.arange(n) + 19.0 * s
    v = np.stack([np.cos(2.4 * k) * (1 + k % 5), np.sin(1.1 * k * k) * (2 + k % 3), 4 * np.sin(0.7 * k + s)], axis=-1)
    return v * (0.2 + (k % 7)[:, None])


@C.family("larger events", lambda t: ((n, s, seed) for n in (7, 9, 20, 33, 65, 200) + ((1000,) if t == THOROUGH else ()) for s in range(3) for seed in SEEDS[t]))
def larger(ctx, n, s, seed):
    q = scattered(n, s)
    pmu = mom(q)
    val, axis = shape(calc.thrust, pmu, seed)
    norm = np.sqrt((q * q).sum(1))
    require(abs(val - thrust_at(q, axis)) < 1e-9, "thrust {} of {} particles but {} at its axis", val, n, thrust_at(q, axis))
    if n <= 12:
        require(val <= true_thrust(q) + 1e-9, "thrust {} of {} particles exceeds the maximum {}", val, n, true_thrust(q))
    dots = q @ axis
    proj = np.linalg.norm(np.sign(dots) @ q) / norm.sum()
    require(abs(val - proj) < 1e-6, "thrust {} of {} particles is not a local maximum: {} after one step", val, n, proj)
    sph, sax = shape(calc.spherocity, pmu, seed)
    require(abs(sph - spher_at(q, sax)) < 1e-9, "spherocity {} of {} particles but {} at its axis", sph, n, spher_at(q, sax))
    for m in ring(sax):
        require(spher_at(q, m) >= sph - 1e-6, "spherocity {} of {} particles at {} is not minimal", sph, n, sax)
    got = calc.c_parameter(pmu)
    want = 1.5 * float((np.outer(norm, norm) - (q @ q.T) ** 2 / np.outer(norm, norm)).sum()) / norm.sum() ** 2
    require(abs(got - want) < 1e-9, "C-parameter {} of {} particles instead of {}", got, n, want)
    ctx.ev((n, s, seed), 2)
    ctx.outcome(n)


def grid_events(tier):
    dirs = HALF if tier == "quick" else DIRS
    for n in (1, 2, 3):
        for ds in it.combinations(dirs if n < 3 else HALF, n):
            yield ds
            yield tuple(tuple(MAGS[k] * x for x in d) for k, d in enumerate(ds))
    for ds in it.combinations(HALF, 2):
        yield ds + tuple(tuple(-0.5 * x for x in d) for d in ds)


@C.family("events on a direction grid", lambda t: ((v, s) for v in grid_events(t) for s in SEEDS[t][: len(SEEDS[t]) // 2]))
def grid(ctx, vecs, seed):
    q = np.array(vecs, dtype=float)
    pmu = mom(vecs)
    val, axis = shape(calc.thrust, pmu, seed)
    require(abs(val - thrust_at(q, axis)) < 1e-9, "thrust {} but {} at its axis {}", val, thrust_at(q, axis), axis)
    require(val <= true_thrust(q) + 1e-9, "thrust {} exceeds the maximum {}", val, true_thrust(q))
    sph, sax = shape(calc.spherocity, pmu, seed)
    require(abs(sph - spher_at(q, sax)) < 1e-5, "spherocity {} but {} at its axis {}", sph, spher_at(q, sax), sax)
    ctx.ev((vecs, seed), 2)
    ctx.outcome(len(vecs))


def rotations(tier):
    """Rotation matrices from a grid of Euler angles in general position, and the identity."""
    yield np.eye(3)
    angles = [(a, b, c) for a in (0.4, 1.9, -2.3) for b in (0.7, 1.45, 2.5) for c in (0.3, -1.1)]
    for a, b, c in angles if tier == "quick" else [(a + d, b + d / 3, c - d) for a, b, c in angles for d in (0, 0.17, 0.41)]:
        ca, sa, cb, sb, cc, sc = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
        rz = np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]])
        ry = np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]])
        rc = np.array([[cc, -sc, 0], [sc, cc, 0], [0, 0, 1]])
        yield rz @ ry @ rc


S3 = math.sqrt(3.0) / 2
# particles, thrust, sum of sines / sum of norms at the spherocity axis
EXACT = {
    "pencil": ([(1, 0, 0), (-1, 0, 0)], 1.0, 0.0),
    "uneven pencil": ([(1, 0, 0), (-3, 0, 0), (0.5, 0, 0)], 1.0, 0.0),
    "single": ([(0, 2, 0)], 1.0, 0.0),
    "planar triple": ([(1, 0, 0), (-0.5, S3, 0), (-0.5, -S3, 0)], 2 / 3, S3 * 2 / 3),
    "planar cross": ([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0)], math.sqrt(0.5), 0.5),
    "planar right angle": ([(1, 0, 0), (0, 1, 0)], math.sqrt(0.5), 0.5),
    "spatial cross": ([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)], 1 / math.sqrt(3), 2 / 3),
    "spatial triple": ([(1, 0, 0), (0, 1, 0), (0, 0, 1)], 1 / math.sqrt(3), 2 / 3),
}


@C.family("exact shapes in every orientation", lambda t: (
    (nm, i, s) for nm in EXACT for i in range(1 + 18 * (1 if t == "quick" else 3)) for s in SEEDS[t]))
def exact(ctx, nm, i, seed):
    vecs, want_t, want_s = EXACT[nm]
    rot = list(rotations("quick" if i < 19 else THOROUGH))[i]
    q = np.array(vecs, dtype=float) @ rot.T
    for extra in ([], [(0.0, 0.0, 0.0)]):
        pmu = mom(np.concatenate([q, np.array(extra).reshape(-1, 3)]))
        val, _ = shape(calc.thrust, pmu, seed)
        require(abs(val - want_t) < 1e-6, "thrust of a {} is {} instead of {} (seed {})", nm, val, want_t, seed)
        sph, _ = shape(calc.spherocity, pmu, seed)
        want = (4 / math.pi * want_s) ** 2
        require(abs(sph - want) < 1e-5, "spherocity of a {} is {} instead of {} (seed {})", nm, sph, want, seed)
        ctx.ev((nm, i, seed))
    ctx.outcome(nm)


@C.family("pencils in every direction", lambda t: ((d, k) for d in DIRS + GENERIC for k in range(4)))
def pencils(ctx, d, k):
    coef = ((1.0,), (1.0, -2.0, 0.5), (1e-3, -1e3), (3.0, 3.0, -3.0, 0.0))[k]
    q = np.outer(coef, d)
    for seed in range(25):
        val, axis = shape(calc.thrust, mom(q), seed)
        require(abs(val - 1.0) < 1e-6, "thrust of a pencil along {} is {} (seed {})", d, val, seed)
        require(abs(abs(axis @ np.array(d, dtype=float)) / np.linalg.norm(d) - 1) < 1e-5, "thrust axis {} of a pencil along {}", axis, d)
        sph, axis = shape(calc.spherocity, mom(q), seed)
        require(abs(sph) < 1e-6, "spherocity of a pencil along {} is {} (seed {})", d, sph, seed)
        ctx.ev((d, k, seed), 2)
    ctx.outcome(k)


@C.family("invariances", lambda t: ((v, s) for v in list(generic_events("quick"))[:: 3 if t == "quick" else 1] for s in SEEDS["quick"]))
def invariances(ctx, vecs, seed):
    q = np.array(vecs, dtype=float)
    n = len(q)
    ref = {fn: shape(fn, mom(q), seed) for fn in (calc.thrust, calc.spherocity)}
    refc = calc.c_parameter(mom(q))
    others = {
        "other energies": mom(q, np.arange(n) * 7.0 - 3.0),
        "scaled up": mom(q * 8.0),
        "scaled down": mom(q / 1024.0),
        "scaled far down": mom(q * 2.0**-40),
        "scaled far up": mom(q * 2.0**40),
        "reflected": mom(-q),
        "with particles at rest": mom(np.concatenate([q, np.zeros((2, 3))])),
        "with leading particle at rest": mom(np.concatenate([np.zeros((1, 3)), q])),
        "split in halves": mom(np.repeat(q / 2, 2, axis=0)),
    }
    for nm, other in others.items():
        for fn, (val, axis) in ref.items():
            got, ax = shape(fn, other, seed)
            tol = 1e-9 if nm != "split in halves" else 1e-5
            require(abs(got - val) <= tol, "{} {} becomes {} {}", fn.__name__, val, got, nm)
        gotc = calc.c_parameter(other)
        require(abs(gotc - refc) <= 1e-9, "C-parameter {} becomes {} {}", refc, gotc, nm)
        ctx.ev((vecs, seed, nm) if n > 1 else None)
    if n <= 4:
        for perm in it.permutations(range(n)):
            require(abs(calc.c_parameter(mom(q[list(perm)])) - refc) <= 1e-12 * n, "C-parameter depends on the order")
            for fn, (val, axis) in ref.items():
                got, _ = shape(fn, mom(q[list(perm)]), seed)
                require(abs(got - val) < 1e-5, "{} {} becomes {} in order {}", fn.__name__, val, got, perm)
            ctx.ev()
    for fn, at in ((calc.thrust, thrust_at), (calc.spherocity, spher_at)):
        val, axis = fn(mom(q), return_axis=True)
        require(abs(val - at(q, np.asarray(axis))) < 1e-9, "unseeded {} {} does not match its axis", fn.__name__, val)
    ctx.outcome(n)


def c_events(tier):
    pool = [d for d in HALF] + GENERIC[:3]
    for n in (1, 2, 3) + ((4,) if tier == THOROUGH else ()):
        for vecs in it.combinations_with_replacement(pool, n):
            yield vecs
    for n in (4, 5, 6):
        yield from it.combinations(GENERIC + HALF[:3], n)


@C.family("C-parameter", lambda t: ((v,) for v in c_events(t)))
def c_param(ctx, vecs):
    for k in range(3):
        q = np.array([[(1.0, (-1) ** i, MAGS[i % 3])[k] * x for x in v] for i, v in enumerate(vecs)])
        if k == 2:
            q = np.concatenate([q, np.zeros((1, 3))])
        p = mom(q)
        before = frozen(p)
        got = calc.c_parameter(p)
        require(frozen(p) == before and isinstance(got, float), "C-parameter returned {} or modified its input", type(got))
        r = q[(q != 0).any(1)]
        norm = np.sqrt((r * r).sum(1))
        want = 1.5 * sum(
            norm[i] * norm[j] - (r[i] @ r[j]) ** 2 / (norm[i] * norm[j]) for i in range(len(r)) for j in range(len(r))
        ) / norm.sum() ** 2
        require(abs(got - want) < 1e-9, "C-parameter {} instead of {}", got, want)
        lam = np.linalg.eigvalsh(np.einsum("ia,ib,i->ab", r, r, 1 / norm) / norm.sum())
        eig = 3 * (lam[0] * lam[1] + lam[1] * lam[2] + lam[0] * lam[2])
        require(abs(got - eig) < 1e-9, "C-parameter {} instead of {} from the momentum tensor", got, eig)
        require(-1e-12 <= got <= 1 + 1e-12, "C-parameter {} outside [0, 1]", got)
        ctx.ev((vecs, k) if len(vecs) > 1 else None)
    ctx.outcome(len(vecs))


def gen_scales(tier):
    powers = (-480, -300, -171, -90, -40, -20, 0, 25, 60, 130, 200, 340, 480)
    for n in (2, 3, 5, 8) + ((30,) if tier == THOROUGH else ()):
        for s in range(2):
            for k in powers:
                for mixed in (0, 1, 2):
                    yield n, s, k, mixed


@C.family("scales", gen_scales)
def scales(ctx, n, s, k, mixed):
    """The unit of momentum is immaterial, from the smallest squares to the largest; so are particles softer than rounding."""
    q = scattered(n, s)
    if mixed:
        q[1::2] *= 2.0 ** (-30 if mixed == 1 else -450)
    p = np.ldexp(q, k if mixed < 2 else max(k, 0))
    pmu = mom(p)
    norm = np.sqrt((q * q).sum(1))
    unit = q / norm[:, None]
    for seed in (1, 4):
        val, axis = shape(calc.thrust, pmu, seed)
        at = float(np.abs(q @ axis).sum() / norm.sum())
        require(abs(val - at) < 1e-9, "thrust {} but {} at its axis (scale 2**{})", val, at, k)
        proj = np.linalg.norm(np.sign(q @ axis) @ q) / norm.sum()
        require(abs(val - proj) < 1e-6, "thrust {} at {} is not a local maximum: {} after one step (scale 2**{})", val, axis, proj, k)
        sph, sax = shape(calc.spherocity, pmu, seed)
        at = (4 / math.pi * float(np.linalg.norm(np.cross(q, sax), axis=1).sum() / norm.sum())) ** 2
        require(abs(sph - at) < 1e-9, "spherocity {} but {} at its axis (scale 2**{})", sph, at, k)
    want = 1.5 * float((np.outer(norm, norm) * (1 - (unit @ unit.T) ** 2)).sum()) / norm.sum() ** 2
    got = calc.c_parameter(pmu)
    require(abs(got - want) < 1e-9, "C-parameter {} instead of {} (scale 2**{})", got, want, k)
    ctx.ev((n, s, k, mixed))
    ctx.outcome(mixed)


@C.family("thrust at the limits", lambda t: ((n, s, k) for n in (2, 3, 8) for s in range(2) for k in (-1010, -900, -600, -530, 530, 600, 900, 1010)))
def thrust_limits(ctx, n, s, k):
    """Norms are formed without squaring, so the thrust is right for every normal number."""
    q = scattered(n, s)
    norm = np.sqrt((q * q).sum(1))
    for seed in range(3):
        val, axis = shape(calc.thrust, mom(np.ldexp(q, k)), seed)
        at = float(np.abs(q @ axis).sum() / norm.sum())
        require(abs(val - at) < 1e-9, "thrust {} but {} at its axis (scale 2**{})", val, at, k)
        proj = np.linalg.norm(np.sign(q @ axis) @ q) / norm.sum()
        require(abs(val - proj) < 1e-6, "thrust {} at {} is not a local maximum: {} after one step (scale 2**{})", val, axis, proj, k)
    ctx.ev((n, s, k))
