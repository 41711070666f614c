"""C08: kinematic quantities match their definitions everywhere."""
from mc.core import Check
from mc.util import *
from graphicle import base

C = Check(
    "C08",
    "exploration",
    "exhaustive enumeration of a grid of four-momenta and batch positions against extended-precision definitions",
    "Every combination of component signs, zeros and scales with massless, massive, spacelike and degenerate energies, "
    "alone and next to every kind of companion in every batch position.",
    "cases: (x, y) pairs with all z, energies; non-trivial: every momentum with a defined value for the quantity",
    ["tolerances follow the conditioning of each definition; values within 1e-9 of a documented tolerance are skipped"],
)
L = np.longdouble
EPS = float(np.finfo(float).eps)
NAMES = ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")


def check(ctx, p, vals, where):
    """Judges the tuple of derived values of one momentum."""
    x, y, z, e = (L(v) for v in p)
    pt = np.hypot(x, y)
    mag = np.hypot(pt, z)
    got = dict(zip(NAMES, map(float, vals)))
    where = f"{where}, momentum {p}"

    def near(name, want, tol):
        tol = float(tol) + 1e-300
        require(abs(L(got[name]) - want) <= tol, "{} is {!r} instead of {!r} ({})", name, got[name], float(want), where)
        ctx.ev((name, p))

    near("pt", pt, 8 * EPS * pt)
    if mag > 0:
        if pt == 0:
            require(math.isinf(got["eta"]) and (got["eta"] > 0) == (z > 0), "eta is {} ({})", got["eta"], where)
            ctx.ev(("eta", p))
        else:
            eta = np.arcsinh(z / pt)
            tol = 8 * EPS * (np.cosh(eta) ** 2 + abs(eta))
            if tol < 0.5:
                near("eta", eta, tol)
            else:
                require(abs(got["eta"]) > 14 and (got["eta"] > 0) == (z > 0), "eta is {} ({})", got["eta"], where)
        near("theta", np.arctan2(pt, z), 8 * EPS * max(np.arctan2(pt, z), L(1e-3)))
    if pt <= 1e-12:
        require(math.isnan(got["phi"]), "azimuth is {} along the beam ({})", got["phi"], where)
        ctx.ev(("phi", p))
    elif pt >= 1e-9:
        phi = np.arctan2(y, x)
        near("phi", phi, 8 * EPS * abs(phi))
    m2 = e * e - mag * mag
    near_sq(ctx, got, "mass", m2, e * e + mag * mag, where, p)
    near_sq(ctx, got, "mass_t", e * e - z * z, e * e + z * z, where, p)
    # energy and z are exact inputs: the factorised difference is accurate to rounding
    mt = np.copysign(np.sqrt(abs((e - z) * (e + z))), e - abs(z))
    near("mass_t", mt, 8 * EPS * abs(mt))
    if pt == 0:
        near("mass", mt, 8 * EPS * abs(mt))
    gap = e - abs(z)
    if gap == 0 and abs(z) > 0:
        require(math.isinf(got["rapidity"]) and (got["rapidity"] > 0) == (z > 0), "rapidity is {} ({})", got["rapidity"], where)
        ctx.ev(("rapidity", p))
    elif gap > 1e-9:
        rap = np.copysign(L(0.5) * np.log((e + abs(z)) / gap), z)
        near("rapidity", rap, 8 * EPS * (abs(rap) + 1))


def near_sq(ctx, got, name, want_sq, scale, where, p):
    v = L(got[name])
    require(not math.isnan(got[name]), "{} is NaN ({})", name, where)
    require(abs(v * abs(v) - want_sq) <= 16 * EPS * scale, "{} squared is {!r} instead of {!r} ({})",
            name, float(v * abs(v)), float(want_sq), where)
    ctx.ev((name, p))


def energies(x, y, z):
    mag = math.hypot(math.hypot(x, y), z)
    return sorted({mag, math.hypot(mag, 1.0), math.hypot(mag, 0.01), 0.5 * mag, abs(z), mag * 1e3 + 1.0, 2.0,
                   mag * (1 + 1e-14), mag * (1 - 1e-14), abs(z) * (1 + 1e-13), abs(z) * (1 - 1e-12)})


def grid(tier):
    v = [0.0, 1.0, -1.0, 2.5, -2.5, 1e-5, -1e-5, 3e6, -3e6]
    if tier == THOROUGH:
        v += [0.1, -0.1, 70.0, -70.0, 1e-3, -1e-3, 1e12, -1e12]
    return v


def derived(p):
    return np.stack([np.asarray(getattr(p, a)) for a in NAMES], axis=-1)


@C.family("grid", lambda tier: ((x, y, tier) for x in grid(tier) for y in grid(tier)))
def grid_case(ctx, x, y, tier):
    ps = [(x, y, z, e) for z in grid(tier) for e in energies(x, y, z)]
    batch = gcl.MomentumArray(np.array(ps))
    vals = derived(batch)
    for k, nm in enumerate(("x", "y", "z", "energy")):
        require(same(getattr(batch, nm), np.array(ps)[:, k]), "component {}", nm)
    beam = x == 0.0 and y == 0.0
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        gcl.MomentumArray(np.array(ps)).phi
    stab = [w for w in log if issubclass(w.category, base.NumericalStabilityWarning)]
    require(bool(stab) == beam, "numerical-stability warning for azimuth: {} at ({}, {})", len(stab), x, y)
    for i, p in enumerate(ps):
        check(ctx, p, vals[i], "batch")
        one = derived(gcl.MomentumArray([p]))
        require(one.shape == (1, len(NAMES)), "shape of a single row {}", one.shape)
        check(ctx, p, one[0], "alone")
    ctx.outcome((beam, len(ps)))


@C.family("scales", lambda tier: ((s, d) for s in [-300, -290, -250, -200, -160, -150, -140, -100, -60, -30, *range(-14, -5), *range(-5, 100, 2 if tier != THOROUGH else 1), 120, 140, 150, 155, 160, 200, 250, 290, 300]
                                  for d in it.product((-1, 0, 1), repeat=3)))
def scales(ctx, s, d):
    """Directions at powers of ten: no overflow or cancellation."""
    if d == (0, 0, 0):
        return
    f = 10.0**s
    x, y, z = (f * c for c in (d[0] * 1.5, d[1] * 0.5, d[2] * 2.0))
    ps = [(x, y, z, e) for e in (math.hypot(math.hypot(x, y), z), 5.0 * f, 0.25 * f)]
    vals = derived(gcl.MomentumArray(ps))
    for p, v in zip(ps, vals):
        check(ctx, p, v, "scale")


COMPANIONS = [
    (0.0, 0.0, 0.0, 0.0), (0.0, 0.0, 5.0, 5.0), (0.0, 0.0, -5.0, 6.0), (3.0, -4.0, 0.0, 5.0),
    (1e8, 1e8, -1e8, 2e8), (-2.0, 0.0, 1.0, 1.0), (1e-12, 0.0, 1.0, 1.0), (-1.0, -0.0, 0.5, 3.0),
    (1e3, -2e3, 5e2, 3e3), (-3e5, 1e5, 0.0, 4e5), (0.0, -1e12, 1e11, 2e12), (1e100, 1e99, 0.0, 2e100),
]
PROBES = COMPANIONS + [(0.0, 4.0**-k * 1e-2, 1.0, 1.0) for k in range(12)] + [(-3e-9, 2e-9, -1e-9, 4e-9), (2e-7, -1e-7, 0.0, 1e-6),(0.3, 0.4, -2.0, 2.5), (0.0, -2.0, 7.0, 9.0), (-1.5, 2.5, 0.0, 3.0), (1.0, 0.0, -1e4, 1e4)]


@C.family("batches", lambda tier: ((i, j) for i in range(len(PROBES)) for j in range(len(COMPANIONS))))
def batches(ctx, i, j):
    p, q = PROBES[i], COMPANIONS[j]
    alone = derived(gcl.MomentumArray([p]))[0]
    for size in range(2, 10):
        for pos in range(size):
            rows = [q] * size
            rows[pos] = p
            vals = derived(gcl.MomentumArray(rows))
            require(close(vals[pos], alone, rtol=1e-13, atol=1e-13), "values of {} next to {} are {} instead of {}",
                    p, q, vals[pos], alone)
            ctx.ev((i, j, size, pos))
    for k in range(len(COMPANIONS)):
        vals = derived(gcl.MomentumArray([q, p, COMPANIONS[k]]))
        require(close(vals[1], alone, rtol=1e-13, atol=1e-13), "values of {} between {} and {}", p, q, COMPANIONS[k])
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        gcl.MomentumArray([p, q]).phi
    stab = [w for w in log if issubclass(w.category, base.NumericalStabilityWarning)]
    tiny = [math.hypot(r[0], r[1]) <= 1e-12 for r in (p, q)]
    require(bool(stab) == any(tiny), "numerical-stability warnings {} for {} and {}", len(stab), p, q)
    for a in ("pt", "eta", "rapidity", "theta", "mass", "mass_t"):
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            try:
                getattr(gcl.MomentumArray([p, q]), a)
            except Warning as w:
                if isinstance(w, base.NumericalStabilityWarning):
                    fail(f"{a} warns of instability: {w}")


@C.family("sizes", lambda tier: ((n, k) for n in (10, 16, 17, 33, 64, 65, 100, 128, 129, 500, 1000, 1025) + ((5000, 20000) if tier == THOROUGH else ())
                                 for k in range(3)))
def sizes(ctx, n, k):
    """Long arrays of distinct momenta: every row is judged on its own."""
    i = np.arange(n)
    a, b = 0.37 * i + 0.2 + k, np.sin(1.7 * i + k) * 3.0
    pt, mass = 0.5 + (i % 13) * 1.5, (i % 5) * 0.7
    x, y, z = pt * np.cos(a), pt * np.sin(a), pt * np.sinh(b)
    if k == 1:  # some particles along the beam, some axes exact
        x[i % 7 == 3] = 0.0
        y[i % 14 == 3] = 0.0
        z[i % 11 == 0] = 0.0
    ps = np.stack([x, y, z, np.sqrt(x * x + y * y + z * z + mass * mass)], axis=-1)
    if k == 2:
        ps[:, 3] += i % 2
    p = gcl.MomentumArray(ps)
    for j, nm in enumerate(("x", "y", "z", "energy")):
        require(same(getattr(p, nm), ps[:, j]), "component {}", nm)
    vals = derived(p)
    for r in range(n):
        check(ctx, tuple(ps[r].tolist()), vals[r], f"row {r} of {n}")


@C.family("empty", lambda tier: ((n,) for n in NAMES))
def empty(ctx, name):
    require(len(getattr(gcl.MomentumArray(), name)) == 0, "{} of no momenta", name)
    ctx.ev()
