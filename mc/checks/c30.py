"""C30: splitting and rotating momenta conserve what they must."""
from mc.core import Check
from mc.util import *

C = Check(
    "C30",
    "exploration",
    "exhaustive enumeration of axes, angles, fractions and small momentum sets on a grid against Rodrigues' formula in extended precision",
    "Every axis and angle pair of a grid with every second angle for the composition law, every ordering of every small "
    "momentum set with every fraction, angle and axis form, and every sequence of splits up to the bound.",
    "cases: axis/angle or momentum set; non-trivial when the angle is not a multiple of a full turn or the set is not empty",
    ["the axis of collinear momenta and ties in transverse momentum are not prescribed beyond conservation"],
)
T = gcl.transform
SA = T.SphericalAngle
THETAS = (0.0, 0.3, 1.1, math.pi / 2, 2.2, 3.0, math.pi)
PHIS = (0.0, 0.7, math.pi / 2, -1.3, 2.9, -math.pi / 2, math.pi)
ANGLES = (0.0, 0.1, -0.4, math.pi / 2, 1.9, -2.6, math.pi, -math.pi, 4.0, 2 * math.pi, 1e-7)


def unit(theta, phi):
    return np.array([math.sin(theta) * math.cos(phi), math.sin(theta) * math.sin(phi), math.cos(theta)])


def rodrigues(v, n, a):
    v, n = np.asarray(v, dtype=float), np.asarray(n, dtype=float)
    return v * math.cos(a) + np.cross(n, v) * math.sin(a) + n * (n @ v) * (1 - math.cos(a))


def axes(tier):
    for th in THETAS:
        for ph in PHIS:
            yield th, ph
    if tier == THOROUGH:
        for i in range(12):
            for j in range(24):
                yield (i + 0.5) * math.pi / 12, -math.pi + (j + 0.25) * math.pi / 12


@C.family("rotation matrices", lambda t: ((th, ph, a) for th, ph in axes(t) for a in ANGLES))
def rotations(ctx, th, ph, a):
    n = unit(th, ph)
    rot = T.rotation_matrix(a, SA(theta=th, phi=ph))
    require(type(rot) is np.ndarray and rot.shape == (3, 3) and rot.dtype == np.float64, "matrix is {}", rot)
    tag = f"rotation by {a} about {n.tolist()}"
    require(close(rot @ rot.T, np.eye(3), atol=1e-12), "{} is not orthogonal", tag)
    require(abs(np.linalg.det(rot) - 1) < 1e-12, "{} has determinant {}", tag, np.linalg.det(rot))
    require(close(rot @ n, n, atol=1e-12), "{} moves its axis", tag)
    for v in np.eye(3):
        require(close(rot @ v, rodrigues(v, n, a), atol=1e-12), "{} takes {} to {} instead of {}", tag, v, rot @ v, rodrigues(v, n, a))
    require(close(T.rotation_matrix(-a, SA(th, ph)), rot.T, atol=1e-12), "{} is not undone by the opposite angle", tag)
    require(close(T.rotation_matrix(-a, SA(math.pi - th, ph + math.pi)), rot, atol=1e-12), "{} about the opposite axis", tag)
    require(close(T.rotation_matrix(a + 2 * math.pi, SA(th, ph)), rot, atol=1e-12), "{} and a full turn", tag)
    for b in ANGLES:
        require(close(T.rotation_matrix(b, SA(th, ph)) @ rot, T.rotation_matrix(a + b, SA(th, ph)), atol=1e-12), "{} and {} do not add up", tag, b)
        ctx.ev((th, ph, a, b) if a else None)
    ctx.outcome(a)


TINY = (1e-2, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 3e-9, 1e-10, 1e-12, 1e-15, 1e-100, 5e-324)


@C.family("tiny rotations", lambda t: ((th, ph, a, s) for th, ph in axes("quick") for a in TINY for s in (1, -1)))
def tiny(ctx, th, ph, a, s):
    """However small the angle, its first-order part is there (and near a half turn and a full turn)."""
    n = unit(th, ph)
    a *= s
    rot = T.rotation_matrix(a, SA(th, ph))
    turn = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    require(np.all(np.abs((rot - rot.T) / 2 - math.sin(a) * turn) <= 1e-15 * abs(a) + (1e-16 if abs(a) > 1e-16 else 0.0) + 5e-324), "rotation by {} about {}: the antisymmetric part is {} instead of {}", a, n, (rot - rot.T) / 2, math.sin(a) * turn)
    sym = math.cos(a) * np.eye(3) + (1 - math.cos(a)) * np.outer(n, n)
    require(close((rot + rot.T) / 2, sym, atol=4e-16), "rotation by {} about {}: the symmetric part is {}", a, n, (rot + rot.T) / 2)
    for base in (math.pi, -2.0, 2 * math.pi):
        one, two = T.rotation_matrix(base + a, SA(th, ph)), T.rotation_matrix(base, SA(th, ph))
        d = (base + a) - base
        for v in np.eye(3):
            require(np.all(np.abs((one - two) @ v - (rodrigues(v, n, base + a) - rodrigues(v, n, base))) <= 2e-15), "rotation by {} and a little more ({})", base, d)
    ctx.ev((th, ph, a))
    ctx.outcome(abs(a))


# distinct transverse momenta, in general position, both signs everywhere
POOL = [(1.0, 2.0, 3.0, 9.0), (-3.0, 0.5, -1.0, 4.0), (0.1, -0.2, 0.05, 0.5), (-1.0, -1.0, 2.0, 4.0), (0.0, 5.0, 0.0, 5.0),
        (2.0, -0.01, -4.0, 6.0), (0.0, 0.0, 3.0, 3.5), (40.0, -30.0, 100.0, 120.0)]


def sets(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        yield from it.permutations(range(len(POOL)), n)
    for k in range(len(POOL)):
        yield tuple(range(k, len(POOL))) + tuple(range(k))
        yield tuple(reversed(range(k, len(POOL)))) + tuple(range(k))


def build(idx, how=0):
    raw = np.array([POOL[i] for i in idx])
    if how == 1:
        return raw, gcl.MomentumArray(np.repeat(raw, 2, axis=0))[::2]
    if how == 2:
        return raw, gcl.MomentumArray(raw[::-1].copy())[::-1]
    if how == 3:
        return raw, gcl.MomentumArray(raw + 0.0)[np.ones(len(raw), dtype=bool)]
    return raw, gcl.MomentumArray(raw.copy())


def pts(raw):
    return [math.hypot(r[0], r[1]) for r in raw]


@C.family("soft-hard axis", lambda t: ((i,) for i in sets(t)))
def soft_hard(ctx, idx):
    for how in range(4):
        raw, p = build(idx, how)
        keep = frozen(p)
        got = T.soft_hard_axis(p)
        require(frozen(p) == keep, "the momenta were modified")
        require(isinstance(got, SA), "axis is {}", type(got))
        pt = pts(raw)
        cross = np.cross(raw[pt.index(min(pt)), :3], raw[pt.index(max(pt)), :3])
        if len(idx) > 1:
            want = cross / np.linalg.norm(cross)
            require(close(unit(*got), want, atol=1e-12), "axis {} instead of {}", unit(*got), want)
            require(0 <= got.theta <= math.pi and -math.pi <= got.phi <= math.pi, "angles {} out of range", got)
        ctx.ev(idx)
    ctx.outcome(len(idx))


ZS = (0.5, 0.25, 0.1, 1e-3)
SPLITS = (0.0, 0.3, -1.2, math.pi, 2.5, 4.0, -5.5, 8.0)
AXES = (None, "tuple", "named", "list")
BAD = (0.0, -0.1, 0.500001, 1.0, 2.0, math.inf, -math.inf)


def check_children(ctx, first, second, parent, z, angle, axis, tag):
    parent = np.asarray(parent)
    scale = np.abs(parent).max()
    require(np.all(np.abs(first + second - parent) <= 1e-12 * scale), "{}: children {} {} do not sum to {}", tag, first, second, parent)
    require(abs(first[3] - z * parent[3]) <= 1e-12 * scale, "{}: first child has energy {} instead of {}", tag, first[3], z * parent[3])
    want = z * rodrigues(parent[:3], axis, angle)
    require(np.all(np.abs(first[:3] - want) <= 1e-11 * scale), "{}: first child is {} instead of {}", tag, first[:3], want)


@C.family("hardest splits", lambda t: ((i, z) for i in sets(t) for z in ZS))
def hardest(ctx, idx, z):
    for k, angle in enumerate(SPLITS):
        for kind in AXES:
            raw, p = build(idx, (k + len(idx)) % 4)
            keep = frozen(p)
            pt = pts(raw)
            h = pt.index(max(pt))
            arg = SA(0.8, -2.1)
            n = unit(*arg)
            tag = f"split_hardest({raw.tolist()}, {z}, {angle}, {kind})"
            if kind is None:
                if len(idx) < 2:
                    require_raises(ValueError, tag, T.split_hardest, p, z, angle)
                    require_raises(ValueError, tag, T.split_hardest, p, z, angle, None)
                    continue
                out = T.split_hardest(p, z, angle)
                cross = np.cross(raw[pt.index(min(pt)), :3], raw[h, :3])
                n = cross / np.linalg.norm(cross)
            else:
                out = T.split_hardest(p, z, angle, {"tuple": tuple(arg), "named": arg, "list": list(arg)}[kind])
            require(type(out) is gcl.MomentumArray and len(out) == len(idx) + 1, "{} has length {}", tag, len(out))
            got = cols(out)
            require(same(got[:-2], np.delete(raw, h, axis=0)), "{} has others {}", tag, got[:-2].tolist())
            check_children(ctx, got[-2], got[-1], raw[h], z, angle, n, tag)
            require(frozen(p) == keep, "{} modified its input", tag)
            out += 1.0
            require(frozen(p) == keep, "{} shares data with its input", tag)
            ctx.ev((idx, z, angle))
    raw, p = build(idx)
    for bad in BAD:
        require_raises(ValueError, f"fraction {bad}", T.split_hardest, p, bad, 0.3, SA(0.1, 0.2))
        if len(idx) > 1:
            require_raises(ValueError, f"fraction {bad}", T.split_hardest, p, bad, 0.3)
    ctx.outcome(len(idx))


@C.family("single splits", lambda t: ((i, th, ph) for i in range(len(POOL)) for th, ph in axes("quick")))
def single(ctx, i, th, ph):
    for z in ZS:
        for angle in SPLITS:
            raw, p = build((i,))
            keep = frozen(p)
            arg = SA(th, ph) if angle else (th, ph)
            out = T.split_momentum(p, z, angle, arg)
            require(type(out) is gcl.MomentumArray and len(out) == 2, "split into {}", len(out))
            got = cols(out)
            check_children(ctx, got[0], got[1], raw[0], z, angle, unit(th, ph), f"split_momentum({raw}, {z}, {angle}, {th, ph})")
            require(frozen(p) == keep, "split_momentum modified its input")
            ctx.ev((i, z, angle, th, ph))
    require_raises(ValueError, "two momenta in one split", T.split_momentum, build((i, (i + 1) % len(POOL)))[1], 0.2, 0.1, SA(th, ph))
    ctx.outcome(i)


STEPS = ((0.5, 0.4, None), (0.1, -1.0, (0.5, 1.0)), (0.3, 2.0, None), (0.25, 0.05, (2.0, -2.0)))


@C.family("sequences of splits", lambda t: ((i, s) for i in list(it.permutations(range(5), 2)) + [(7, 0, 3), (3, 7, 0, 1)]
                                             for s in it.product(range(len(STEPS)), repeat=3 if t == "quick" else 5)))
def sequences(ctx, idx, steps):
    raw, p = build(idx)
    total = raw.sum(axis=0)
    for k in steps:
        z, angle, axis = STEPS[k]
        before = cols(p)
        h = int(np.argmax(np.hypot(before[:, 0], before[:, 1])))
        p = T.split_hardest(p, z, angle, axis)
        got = cols(p)
        require(same(got[:-2], np.delete(before, h, axis=0)), "others changed by split {} of {}", k, before.tolist())
        require(np.all(np.abs(got[-2:].sum(axis=0) - before[h]) <= 1e-12 * np.abs(before[h]).max()), "split {} of {} is not conserved", k, before[h])
        ctx.ev((idx, steps))
    require(np.all(np.abs(cols(p).sum(axis=0) - total) <= 1e-11 * np.abs(total).max()), "total momentum {} became {}", total, cols(p).sum(axis=0))
    require(len(p) == len(idx) + len(steps), "{} particles after {} splits", len(p), len(steps))
    ctx.outcome(len(idx))


@C.family("larger sets", lambda t: ((n, s, gap) for n in (4, 9, 33, 64, 65, 130, 1000) for s in range(12 if t == "quick" else 100)
                                      for gap in (None, 1e-5, 1e-9, 1e-13)))
def larger(ctx, n, s, gap):
    """With a gap, another momentum comes that close (relatively) to the hardest, and to the softest."""
    k = np.arange(n) + 13 * s
    raw = np.stack([np.cos(k * 1.7) * (1 + k % 7 + 0.01 * k), np.sin(k * 1.7) * (1 + k % 7 + 0.01 * k), 30 * np.sin(k * 0.9), np.zeros(n)], axis=-1)
    hard, soft = (s * 37) % n, (s * 53 + 1 + n // 2) % n
    soft = soft if soft != hard else (hard + 1) % n
    raw[hard, :2] *= 50 / np.hypot(*raw[hard, :2])
    raw[hard, :2] *= 1e3
    raw[soft, :2] *= 1e-3 / np.hypot(*raw[soft, :2])
    if gap is not None:
        rest = [i for i in range(n) if i not in (hard, soft)]
        for i, of, f in ((rest[s % 2], hard, 1 - gap), (rest[-1 - s % 2 if n > 4 else s % 2 - 1], soft, 1 + gap)):
            raw[i, :2] *= np.hypot(*raw[of, :2]) * f / np.hypot(*raw[i, :2])
    raw[:, 3] = np.sqrt((raw[:, :3] ** 2).sum(axis=1) + (k % 3) ** 2)
    p = gcl.MomentumArray(raw.copy())
    keep = frozen(p)
    cross = np.cross(raw[soft, :3], raw[hard, :3])
    normal = cross / np.linalg.norm(cross)
    require(close(unit(*T.soft_hard_axis(p)), normal, atol=1e-11), "axis of {} momenta", n)
    for z, angle, axis in ((0.3, 0.7, None), (0.5, -2.0, SA(1.1, -2.9)), (1e-6, 3.0, None)):
        out = T.split_hardest(p, z, angle, axis)
        got = cols(out)
        require(same(got[:-2], np.delete(raw, hard, axis=0)), "{} momenta: the others changed", n)
        check_children(ctx, got[-2], got[-1], raw[hard], z, angle, normal if axis is None else unit(*axis), f"split of row {hard} of {n}")
        ctx.ev((n, s, z, gap))
    require(frozen(p) == keep, "the momenta were modified")
    ctx.outcome(n)
