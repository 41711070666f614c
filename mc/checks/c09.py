"""C09: longitudinal boosts and azimuthal rotations obey their group laws."""
from mc.core import Check
from mc.util import *
from graphicle import base

C = Check(
    "C09",
    "exploration",
    "exhaustive enumeration of momenta, shifts and shift sequences against the boost and rotation formulae and their group laws",
    "Every momentum set of a grid with every scalar and element-wise shift; every sequence of shifts up to the bound, "
    "in every order; pseudorapidity shifts of combined objects and single particles.",
    "cases: (momentum set, sequence of shifts); non-trivial when some shift is non-zero",
    ["tolerances scale with the boost factor; boosts of at most 6 units of rapidity per sequence"],
)
L = np.longdouble
BASE = [
    (1.0, 2.0, 3.0, 9.0), (-3.0, 0.5, -1.0, 4.0), (0.1, -0.2, 0.05, 0.5), (-1.0, -1.0, 2.0, math.sqrt(6.0)),
    (5.0, 0.0, -20.0, 30.0), (0.0, -4.0, 0.0, 4.0), (-2.0, 0.0, 0.0, 7.0), (0.0, 0.0, 3.0, 5.0), (0.0, 0.0, -2.0, 2.0),
]
SHIFTS = (0.0, 0.5, -0.5, 1.25, -2.0, 3.0, 1e-3, -1e-6)
SETS = [tuple([p]) for p in BASE] + [tuple(BASE[i:j]) for i, j in ((0, 2), (0, 4), (2, 7), (0, 9))] + [
    (BASE[1], BASE[0]), (BASE[3], BASE[5], BASE[3]),
]


def boost(raw, s):
    raw = np.asarray(raw, dtype=L)
    s = np.asarray(s, dtype=L)
    out = raw.copy()
    out[:, 3] = np.cosh(s) * raw[:, 3] + np.sinh(s) * raw[:, 2]
    out[:, 2] = np.cosh(s) * raw[:, 2] + np.sinh(s) * raw[:, 3]
    return out


def rotate(raw, a):
    raw = np.asarray(raw, dtype=L)
    a = np.asarray(a, dtype=L)
    out = raw.copy()
    out[:, 0] = np.cos(a) * raw[:, 0] - np.sin(a) * raw[:, 1]
    out[:, 1] = np.sin(a) * raw[:, 0] + np.cos(a) * raw[:, 1]
    return out


def match(p, want, scale, msg, *args):
    got = cols(p)
    require(type(p) is gcl.MomentumArray, "result is {}", type(p))
    require(got.shape == want.shape, "shape {} instead of {}", got.shape, want.shape)
    tol = 1e-12 * scale * (np.abs(np.asarray(want, dtype=float)).max(initial=0.0) + 1e-3)
    require(np.all(np.abs(got - np.asarray(want, dtype=float)) <= tol), msg + ": {} instead of {}", *args, got.tolist(),
            np.asarray(want, dtype=float).tolist())


def forms(val, n, k):
    """The same shift as python and numpy scalars, and per particle."""
    yield "float", float(val), np.full(n, val)
    yield "np.float64", np.float64(val), np.full(n, val)
    if float(val).is_integer():
        yield "int", int(val), np.full(n, val)
    yield "array", np.full(n, val), np.full(n, val)
    vary = np.array([val * (1 - 2 * ((i + k) % 2)) + 0.25 * i for i in range(n)])
    yield "mixed array", vary.copy(), vary


def check_rap(p, q, svals):
    """Laws of a boost stated on the derived quantities."""
    for nm in ("pt", "phi"):
        require(close(getattr(p, nm), getattr(q, nm), rtol=1e-12, atol=1e-12), "{} changed by a boost", nm)
    require(same(p.x, q.x) and same(p.y, q.y), "transverse components changed by a boost")
    e2 = np.maximum(p.energy**2, q.energy**2)
    for nm in ("mass", "mass_t"):
        m1, m2 = getattr(p, nm), getattr(q, nm)
        require(np.all(np.abs(m1 * np.abs(m1) - m2 * np.abs(m2)) <= 1e-11 * e2), "{} changed by a boost: {} to {}", nm, m1, m2)
    finite = (p.energy - np.abs(p.z) > 1e-6) & (q.energy - np.abs(q.z) > 1e-6)
    diff = (q.rapidity - p.rapidity)[finite]
    tol = 1e-12 * (q.energy / np.maximum(p.mass_t, 1e-9))[finite] ** 2 + 1e-11
    require(np.all(np.abs(diff - svals[finite]) <= tol), "rapidity moved by {} instead of {}", diff, svals[finite])


@C.family("single shifts", lambda tier: ((i, s) for i in range(len(SETS)) for s in SHIFTS + ((4.0, -5.5, 0.1, -0.9) if tier == THOROUGH else ())))
def single(ctx, i, s):
    raw = np.array(SETS[i])
    for tag, shift, svals in forms(s, len(raw), i):
        for read_first in (False, True):
            p = gcl.MomentumArray(raw.copy())
            if read_first:
                p.pt, p.phi, p.rapidity, p.eta, p.mass, p.mass_t, p.theta
            before = frozen(p)
            keep = frozen(shift) if isinstance(shift, np.ndarray) else shift
            q = p.shift_rapidity(shift)
            require(frozen(p) == before and q is not p, "the original changed under a boost by {}", shift)
            match(q, boost(raw, svals), np.exp(np.abs(svals).max()), "boost of {} by {} ({})", raw.tolist(), shift, tag)
            check_rap(p, q, svals)
            r = p.shift_phi(shift)
            require(frozen(p) == before and r is not p, "the original changed under a rotation by {}", shift)
            match(r, rotate(raw, svals), 1.0, "rotation of {} by {} ({})", raw.tolist(), shift, tag)
            require(same(r.z, p.z) and same(r.energy, p.energy), "rotation changed z or energy")
            require(close(r.pt, p.pt, rtol=1e-12, atol=1e-14), "rotation changed pt")
            ok = p.pt > 0
            dphi = [wrap_angle(a - b - c) for a, b, c in zip(r.phi[ok], p.phi[ok], svals[ok])]
            require(np.all(np.abs(dphi) < 1e-11), "azimuth moved by the wrong angle: off by {}", dphi)
            for nm in ("eta", "rapidity", "theta", "mass_t"):
                require(close(getattr(r, nm), getattr(p, nm), rtol=1e-9, atol=1e-9), "rotation changed {}", nm)
            if isinstance(shift, np.ndarray):
                require(frozen(shift) == keep, "the shift array was modified")
            q += 1.0
            r += 1.0
            require(frozen(p) == before, "result shares data with the original")
            ctx.ev((i, s, tag) if np.any(svals) else None)
    ctx.outcome(len(raw))


STEPS = (("y", 0.5), ("y", -1.25), ("y", 2.0), ("f", 0.75), ("f", -2.5), ("f", 3.1), ("ya", 1.0), ("fa", 0.5))


def apply(p, step, n):
    kind, v = step
    if kind == "y":
        return p.shift_rapidity(v)
    if kind == "f":
        return p.shift_phi(v)
    per = v * (np.arange(n) - 1.0)
    return p.shift_rapidity(per) if kind == "ya" else p.shift_phi(per)


def gen_seq(tier):
    depth = 4 if tier == THOROUGH else 3
    for i in range(len(SETS)):
        for n in range(2, depth + 1):
            for seq in it.combinations_with_replacement(range(len(STEPS)), n):
                yield i, seq


@C.family("sequences", gen_seq)
def sequences(ctx, i, seq):
    raw = np.array(SETS[i])
    n = len(raw)
    dy, df = np.zeros(n), np.zeros(n)
    for k in seq:
        kind, v = STEPS[k]
        per = v * (np.arange(n) - 1.0) if kind.endswith("a") else np.full(n, v)
        if kind[0] == "y":
            dy += per
        else:
            df += per
    want = rotate(boost(raw, dy), df)
    scale = np.exp(sum(abs(STEPS[k][1]) * max(1, n - 2 if STEPS[k][0].endswith("a") else 1) for k in seq if STEPS[k][0][0] == "y"))
    for order in set(it.permutations(seq)):
        p = gcl.MomentumArray(raw.copy())
        start = frozen(p)
        states = [p]
        for k in order:
            p = apply(p, STEPS[k], n)
            states.append(p)
        match(p, want, scale, "sequence {} on {}", [STEPS[k] for k in order], raw.tolist())
        require(frozen(states[0]) == start, "the first array changed during {}", order)
        for k in reversed(order):
            kind, v = STEPS[k]
            p = apply(p, (kind, -v), n)
        match(p, raw, scale * scale, "undoing {} on {}", [STEPS[k] for k in order], raw.tolist())
        ctx.ev((i, order))
        ctx.step(2 * len(order))


ETA_SETS = [k for k, s in enumerate(SETS) if not (len(s) == 1 and s[0][0] == 0.0 == s[0][1])]


@C.family("pseudorapidity", lambda tier: ((i, s, ps) for i in ETA_SETS for s in SHIFTS for ps in (1, 2, 3)))
def pseudo(ctx, i, s, variant):
    raw = np.array(SETS[i]) * {1: 1.0, 2: 7.5, 3: 0.04}[variant]
    p = gcl.MomentumArray(raw.copy())
    before = frozen(p)
    eta0, phi0 = gcl.calculate.resultant_coords(p)
    for shift in (s, np.float64(s)):
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            q = p.shift_eta(shift)
        stab = [w for w in log if issubclass(w.category, base.NumericalStabilityWarning)
                and "converge" in str(w.message)]
        require(frozen(p) == before and q is not p, "the original changed")
        eta1, phi1 = gcl.calculate.resultant_coords(q)
        require(not stab, "no convergence moving {} by {}", raw.tolist(), s)
        require(abs(eta1 - eta0 - s) < 1e-8, "combined pseudorapidity of {} moved by {} instead of {}", raw.tolist(), eta1 - eta0, s)
        require(abs(wrap_angle(phi1 - phi0)) < 1e-9, "combined azimuth moved")
        # a true boost: one common rapidity shift
        sel = p.energy - np.abs(p.z) > 1e-3
        dy = (q.rapidity - p.rapidity)[sel]
        require(len(dy) == 0 or np.ptp(dy) < 1e-7, "relative rapidities changed: {}", dy)
        if len(dy):
            match(q, boost(raw, np.full(len(raw), dy.mean())), 1e4, "boost by {}", dy.mean())
        require(same(q.x, p.x) and same(q.y, p.y), "transverse components changed")
        ctx.ev((i, s, variant))
    ok = p.pt > 0
    for tag, shift, svals in forms(s, len(raw), i):
        q = p.shift_eta(shift, experimental=True)
        require(frozen(p) == before and q is not p, "the original changed")
        require(close((q.eta - p.eta)[ok], svals[ok], rtol=0, atol=1e-9), "pseudorapidities moved by {} instead of {}",
                q.eta - p.eta, svals)
        require(same(q.x, p.x) and same(q.y, p.y), "transverse components changed")
        require(close(q.z[ok], (p.pt * np.sinh(p.eta + svals))[ok], rtol=1e-9), "longitudinal component")
        require(bool(np.all(np.isnan(q.energy))), "energies are {} instead of NaN", q.energy)
        ctx.ev((i, s, variant, tag))


@C.family("per-particle pseudorapidity", lambda tier: ((i, k) for i in range(len(SETS)) for k in range(4)))
def per_particle(ctx, i, k):
    """One true boost per particle, each by the requested amount."""
    raw = np.array(SETS[i])
    p = gcl.MomentumArray(raw.copy())
    before = frozen(p)
    shift = (0.25, -0.5, 1.0, 0.0)[k] * (np.arange(len(raw)) + (1.0, -1.0, 0.0, 0.0)[k])
    q = p.shift_eta(shift)
    ok = p.pt > 0
    require(frozen(p) == before, "the original changed")
    require(close((q.eta - p.eta)[ok], shift[ok], rtol=0, atol=1e-8), "pseudorapidities moved by {} instead of {}",
            q.eta - p.eta, shift)
    require(same(q.x, p.x) and same(q.y, p.y), "transverse components changed")
    e2 = np.maximum(p.energy**2, q.energy**2)
    require(np.all(np.abs(p.mass**2 - q.mass**2)[ok] <= 1e-10 * e2[ok]), "masses changed from {} to {}", p.mass, q.mass)
    ctx.ev((i, k))


@C.family("iteration limits", lambda tier: ((m, t) for m in (0, 1, 2, 10) for t in (1e-2, 1e-10)))
def limits(ctx, m, tol):
    """Within the tolerance or a warning, never silently elsewhere."""
    for i in ETA_SETS:
        for s in SHIFTS:
            p = gcl.MomentumArray(np.array(SETS[i]))
            eta0, _ = gcl.calculate.resultant_coords(p)
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter("always")
                q = p.shift_eta(s, max_corrections=m, abs_tol=tol)
            warned = any("converge" in str(w.message) for w in log)
            off = abs(gcl.calculate.resultant_coords(q)[0] - eta0 - s)
            require(warned or off <= tol * 1.01, "off by {} without a warning", off)
            ctx.ev((i, s, m, tol))


@C.family("empty", lambda tier: ((k,) for k in ("shift_rapidity", "shift_phi")))
def empty(ctx, k):
    require(len(getattr(gcl.MomentumArray(), k)(0.5)) == 0, "{} of nothing", k)
    ctx.ev()


@C.family("long arrays", lambda tier: ((n, s) for n in (10, 33, 64, 100, 129, 1000) for s in SHIFTS + (0.1, 5.0, -7.0)))
def long_arrays(ctx, n, s):
    """Boosts and rotations of many particles, scalar and one shift each."""
    i = np.arange(n)
    pt, y, m, a = 0.5 + (i * 7) % 19, np.sin(1.3 * i) * 2.5, (i % 4) * 0.6, 0.7 * i
    mt = np.hypot(pt, m)
    raw = np.stack([pt * np.cos(a), pt * np.sin(a), mt * np.sinh(y), mt * np.cosh(y)], axis=-1)
    per = s * np.cos(i)
    for shift, svals in ((s, np.full(n, s)), (per.copy(), per)):
        p = gcl.MomentumArray(raw.copy())
        before = frozen(p)
        q, r = p.shift_rapidity(shift), p.shift_phi(shift)
        big = float(np.exp(np.abs(svals).max()))
        match(q, boost(raw, svals), big, "boost of {} particles", n)
        match(r, rotate(raw, svals), 1.0, "rotation of {} particles", n)
        check_rap(p, q, svals)
        require(close(q.rapidity, y + svals, rtol=0, atol=1e-9 * big), "rapidities after a boost by {}", s)
        dphi = [wrap_angle(v) for v in r.phi - p.phi - svals]
        require(np.all(np.abs(dphi) < 1e-11), "azimuths after a rotation by {}", s)
        require(frozen(p) == before, "the original changed")
        match(q.shift_rapidity(-np.asarray(shift) if np.ndim(shift) else -shift), raw, big * big, "undoing a boost by {}", s)
        e = p.shift_eta(shift, experimental=True)
        tol = 1e-9 + 1e-14 * np.cosh(np.abs(p.eta) + np.abs(svals)) ** 2
        require(np.all(np.abs(e.eta - p.eta - svals) <= tol), "pseudorapidities after an experimental shift")
        ctx.ev((n, s, np.ndim(shift)))
    if abs(s) <= 3:
        p = gcl.MomentumArray(raw.copy())
        q = p.shift_eta(s)
        eta0, eta1 = (gcl.calculate.resultant_coords(v)[0] for v in (p, q))
        require(abs(eta1 - eta0 - s) < 1e-8, "combined pseudorapidity moved by {} instead of {}", eta1 - eta0, s)
        q = p.shift_eta(per)
        require(close(q.eta - p.eta, per, rtol=0, atol=1e-7), "pseudorapidities after one shift per particle")
