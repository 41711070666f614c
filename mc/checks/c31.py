"""C31: random momenta respect bounds, mass options and seeds."""
from mc.core import Check
from mc.util import *

C = Check(
    "C31",
    "exploration",
    "exhaustive enumeration of a range of sampler configurations (size, energy bound, massless probability, seed) with every sampled momentum judged",
    "All combinations of sizes from zero up, energy bounds over nine orders of magnitude, massless probabilities including "
    "both ends, and a range of seeds; every momentum of every sample is judged, and pooled samples cover the sphere.",
    "cases: configuration; non-trivial when the sample is not empty",
    ["pooled samples are compared with uniform distributions at more than six standard deviations"],
)
make = gcl.MomentumArray.from_spherical_uniform
SIZES = (0, 1, 2, 3, 7, 64)
BOUNDS = (1e-3, 0.7, 1.0, 100.0, 1e6)
PROBS = (None, 0.0, 0.25, 0.5, 0.999, 1.0, 0, 1)


def judge(p, size, bound):
    require(type(p) is gcl.MomentumArray and len(p) == size, "{} momenta instead of {}", len(p), size)
    raw = cols(p)
    require(raw.shape == (size, 4) and np.all(np.isfinite(raw)), "sample {}", raw.tolist())
    e = raw[:, 3]
    require(np.all(e >= 0) and np.all(e <= bound), "energies {} outside [0, {}]", e, bound)
    m2 = e**2 - (raw[:, :3] ** 2).sum(axis=1)
    require(np.all(m2 >= -1e-12 * e**2), "spacelike momenta: {}", raw[m2 < -1e-12 * e**2].tolist())
    return raw, m2


@C.family("configurations", lambda t: ((n, b, s) for n in SIZES for b in BOUNDS for s in range(16 if t == "quick" else 400)))
def configs(ctx, size, bound, seed):
    state = np.random.get_state()[1].tobytes()
    for prob in PROBS:
        p = make(size, bound, seed=seed) if prob is None else make(size, bound, prob, seed)
        raw, m2 = judge(p, size, bound)
        light = m2 <= 1e-12 * raw[:, 3] ** 2
        if prob in (1.0, 1):
            require(np.all(light), "massive momenta at probability one: {}", raw[~light].tolist())
        if prob in (None, 0.0, 0):
            none = m2 <= 1e-15 * raw[:, 3] ** 2
            require(not np.any(none), "massless momenta at probability zero: {}", raw[none].tolist())
        again = make(size=size, max_energy=bound, massless=0.0 if prob is None else prob, seed=seed)
        require(frozen(again) == frozen(p), "seed {} gives different momenta", seed)
        other = make(size, bound, 0.0 if prob is None else prob, seed + 1)
        if size:
            require(not same(cols(other), raw), "seeds {} and {} give the same momenta", seed, seed + 1)
            require(len(np.unique(raw, axis=0)) == size, "repeated momenta")
        for col in p.x, p.energy:
            require(len(col) == size, "column of length {}", len(col))
        ctx.ev((size, bound, seed, prob) if size else None)
    free = make(size, bound)
    judge(free, size, bound)
    if size:
        require(not same(cols(make(size, bound)), cols(free)), "unseeded samples repeat")
    require(np.random.get_state()[1].tobytes() == state, "numpy's global random state was touched")
    ctx.outcome(size)


@C.family("invalid probabilities", lambda t: ((p,) for p in (-1e-9, -1.0, 1.0 + 1e-9, 2.0, math.inf, -math.inf)))
def invalid(ctx, prob):
    for size in SIZES:
        require_raises(ValueError, f"probability {prob}", make, size, 10.0, prob, 3)
        require_raises(ValueError, f"probability {prob}", make, size, 10.0, massless=prob)
        ctx.ev((prob, size))
    ctx.outcome("rejected")


@C.family("pooled samples", lambda t: ((n, p, b) for n in (1, 8, 500) for p in (0.0, 0.3, 0.9, 1.0) for b in (0.01, 50.0)))
def pooled(ctx, size, prob, bound):
    total = 4000
    rows = []
    for seed in range(1000, 1000 + total // size):
        raw, _ = judge(make(size, bound, prob, seed), size, bound)
        rows.append(raw)
    raw = np.concatenate(rows)
    n = len(raw)
    m2 = raw[:, 3] ** 2 - (raw[:, :3] ** 2).sum(axis=1)
    frac = np.mean(m2 <= 1e-12 * raw[:, 3] ** 2)
    require(abs(frac - prob) <= 7 * math.sqrt(prob * (1 - prob) / n) + 1e-9, "fraction {} of massless momenta at probability {}", frac, prob)
    q = raw[:, :3] / np.sqrt((raw[:, :3] ** 2).sum(axis=1))[:, None]
    octs = np.bincount(((q > 0) * (1, 2, 4)).sum(axis=1), minlength=8) / n
    require(np.all(np.abs(octs - 0.125) <= 7 * math.sqrt(0.125 * 0.875 / n)), "octants are populated as {}", octs)
    require(np.all(np.abs((q * q).mean(axis=0) - 1 / 3) <= 7 * 0.3 / math.sqrt(n)), "directions are not uniform: {}", (q * q).mean(axis=0))
    for lo in range(4):
        part = np.mean((raw[:, 3] >= lo * bound / 4) & (raw[:, 3] < (lo + 1) * bound / 4))
        require(abs(part - 0.25) <= 7 * math.sqrt(0.1875 / n), "quarter {} of the energies holds {}", lo, part)
    ctx.ev((size, prob, bound), n)
    ctx.outcome(size)


@C.family("larger samples", lambda t: ((n, s) for n in (8, 33, 65, 100, 129, 257, 1000, 4097) + ((100000,) if t == THOROUGH else ()) for s in range(6 if t == "quick" else 60)))
def larger(ctx, size, seed):
    for prob, bound in ((0.0, 10.0), (1.0, 0.01), (0.5, 2000.0), (1, 3.0)):
        raw, m2 = judge(make(size, bound, prob, seed), size, bound)
        light = m2 <= 1e-12 * raw[:, 3] ** 2
        if prob == 1:
            require(np.all(light), "massive momenta at probability one")
        if prob == 0:
            require(not np.any(m2 <= 1e-15 * raw[:, 3] ** 2), "massless momenta at probability zero")
        require(len(np.unique(raw, axis=0)) == size, "repeated momenta")
        require(same(cols(make(size, bound, prob, seed)), raw), "seed {} gives different momenta", seed)
        octs = np.bincount(((raw[:, :3] > 0) * (1, 2, 4)).sum(axis=1), minlength=8)
        require(size < 300 or np.all(octs > 0), "empty octants: {}", octs)
        for a in (raw[:, 0], raw[:, 1], raw[:, 2], raw[:, 3]):
            h = a[: size // 2]
            require(size < 20 or len(np.unique(np.concatenate([h, a[-(size // 2):]]))) >= 2 * (size // 2) - (size % 2), "repeating values")
        ctx.ev((size, seed, prob))
    ctx.outcome(size)
