"""C42: answers respect the symmetries of collider kinematics."""
import math

from mc.core import Check
from mc.checks.c32 import jets
from mc.checks.c41 import Near, base, event
from mc.events import *
from mc.util import *

C = Check(
    "C42",
    "exploration",
    "exhaustive enumeration of symmetry transformations (rotations about the beam, reflections, powers-of-two scalings, boosts along the beam, rotations in space, halvings) "
    "and pairs of them on a family of events, every answer compared with the transformed answer of the original",
    "Every event of a family under every transformation of a finite set from each group, and under compositions of two; "
    "all kinematic quantities, distances, graphs, event shapes, jets, prunings, partitions, clusters and tags.",
    "cases: (event, transformation or pair); evaluations: answers compared; non-trivial all but the identity",
    ["momenta are generic and far from the absolute tolerances of azimuth and rapidity", "compared within rounding; selections exactly",
     "event-shape axes are found from a guess fixed in space, so thrust and spherocity are compared under scaling and halving only"],
)
SE, CA, TR, MX = gcl.select, gcl.calculate, gcl.transform, gcl.matrix
EVENTS = ("top", "top final", "twins", "singlet", "crowd")


def rot(angle):
    c, s = math.cos(angle), math.sin(angle)
    if angle % (math.pi / 2) == 0.0:
        c, s = round(c), round(s)
    return np.array([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]])


TURNS = [("turn", k * math.pi / 12) for k in range(1, 24)] + [("turn", a) for a in (1e-9, -1e-9, 3.14159, 0.5)]
FLIPS = [("flip", ax) for ax in ("x", "y", "z", "xz", "xyz")]
SCALES = [("scale", k) for k in (-18, -12, -6, -3, -1, 1, 2, 5, 10, 20, 30, 40)]
BOOSTS = [("boost", y) for y in (-2.0, -1.5, -0.4, -1e-6, 0.2, 1.0, 1.4, 2.0)]
SPACE = [("space", p) for p in ("yzx", "zxy", "yxz", "xzy", "zyx", "tilt", "tumble")]
HALVE = [("halve", 1)]
SINGLE = TURNS + FLIPS + SCALES + BOOSTS + SPACE + HALVE


def apply(pmu, t):
    kind, arg = t
    p = np.array(pmu, dtype=float)
    if kind == "turn":
        p[:, :3] = p[:, :3] @ rot(arg).T
    elif kind == "flip":
        for ax in arg:
            p[:, "xyz".index(ax)] *= -1.0
    elif kind == "scale":
        p *= 2.0**arg
    elif kind == "boost":
        c, s = math.cosh(arg), math.sinh(arg)
        p[:, 3], p[:, 2] = c * p[:, 3] + s * p[:, 2], c * p[:, 2] + s * p[:, 3]
    elif kind == "space":
        if arg in ("tilt", "tumble"):
            a = rot(0.9)[np.ix_([2, 0, 1], [2, 0, 1])]
            m = a if arg == "tilt" else a @ rot(2.1) @ a
            p[:, :3] = p[:, :3] @ m.T
        else:
            p[:, :3] = p[:, ["xyz".index(c) for c in arg]]
    return p


BEAM = ("turn", "flip", "scale")  # symmetries of pseudorapidity and azimuth, up to sign and offset


def answers(rec, pmu, kinds, unit):
    """name -> answer; only those meaningful under transformations of these kinds."""
    g = rec.graph()
    g.particles.pmu = gcl.MomentumArray(pmu)
    p, pf = g.pmu, g.pmu[g.final]
    n = len(p)
    beam = all(k in BEAM for k in kinds)
    long = all(k in BEAM + ("boost",) for k in kinds)
    fixed = all(k in ("scale", "halve") for k in kinds)
    a = {"combined mass": Near(CA.combined_mass(pf) / unit)}
    if "boost" not in kinds:
        a["c parameter"] = Near(CA.c_parameter(p))
        a["energy"] = Near(np.sum(p.energy) / unit)
    if fixed:
        for seed in (0, 3):
            a[f"thrust {seed}"] = Near(np.round(CA.thrust(p, rng_seed=seed), 7))
            a[f"spherocity {seed}"] = Near(np.round(CA.spherocity(pf, rng_seed=seed), 7))
    if "halve" in kinds:
        a["centroid"] = Near(np.array(CA.weighted_centroid(p)))
        a["resultant"] = Near(np.array(CA.resultant_coords(p)))
        return a
    a["mass"] = Near(p.mass / unit)
    pairs = [(g.pmu[m].mass.item() if np.sum(m) == 1 else CA.combined_mass(g.pmu[m])) / unit for m in (np.arange(n) % 3 == k for k in range(3))]
    a["masses of groups"] = Near(pairs)
    if long:
        a["pt"], a["mass_t"] = Near(p.pt / unit), Near(p.mass_t / unit)
        a["delta R in rapidity"] = Near(p.delta_R(p.copy(), pseudo=False))
        a["delta R in rapidity to self"] = Near(p.delta_R(p, pseudo=False, threads=2))
        a["clustering in rapidity"] = CA.cluster_coeff_distbn(p, 1.17, pseudo=False).tolist()
        for pv, r in ((-1, 0.7), (0, 0.5), (1, 0.9), (0.5, 0.6)):
            a[f"jets {pv}"] = [m.data.tolist() for m in jets(pf, r, pv)]
        a["jets above"] = [m.data.tolist() for m in jets(pf, 0.5, -1, pt_cut=5.0 * unit, top_k=4)]
    if beam:
        d = p.delta_R(p)
        a["theta"] = Near(np.abs(np.sin(p.theta)))
        a["delta R"], a["delta R to others"] = Near(d), Near(p.delta_R(pf))
        a["clustering"] = CA.cluster_coeff_distbn(p, 1.17).tolist()
        a["nearest"] = MX.knn_adj(d, 3).tolist()
        a["within"] = MX.cut_adj(d, 0.83).tolist()
        a["jets central"] = [m.data.tolist() for m in jets(pf, 0.5, -1, eta_cut=1.3)]
        for r in (0.6, 1.3):
            a[f"prune {r}"] = SE.centroid_prune(p, r).data.tolist()
            a[f"prune part {r}"] = SE.centroid_prune(p, r, mask=g.status.in_range(20, 84)).data.tolist()
        hard = g.pmu[g.hard_mask["outgoing"]]
        a["closest"] = SE.arg_closest(hard, p).tolist() if isinstance(SE.arg_closest(hard, p), np.ndarray) else list(SE.arg_closest(hard, p))
        hier = SE.hierarchy(g)
        for exp in (-0.1, 0.0, 1.5):
            a[f"partition {exp}"] = as_plain(SE.partition_descendants(g, hier, exp))
        for exp in (-0.1, 0.0):
            a[f"hadron distance {exp}"] = Near(MX.parton_hadron_distance(hard, pf, exp) * unit**-exp)
        for r in (0.6, 1.5):
            a[f"clusters {r}"] = as_plain(SE.clusters(g, r))
        found = jets(pf, 0.7, -1)
        if len(found) >= len(hard):
            a["tags"] = as_plain(SE.monte_carlo_tag(g.particles, found))
        z = SE.centroid_prune(p, 1.0, centre=(float(p.eta[0]), float(p.phi[0])))
        a["prune around a particle"] = z.data.tolist()
    return a


def covariant(before, after, t):
    """Quantities that change with the transformation, from those before it."""
    kind, arg = t
    b, a = gcl.MomentumArray(before), gcl.MomentumArray(after)
    sign = -1.0 if kind == "flip" and "z" in arg else 1.0
    out = []
    if kind in BEAM:
        out.append(("eta", a.eta, sign * b.eta))
        out.append(("rapidity", a.rapidity, sign * b.rapidity))
        out.append(("theta", a.theta, b.theta if sign > 0 else math.pi - b.theta))
        phi = b.phi
        if kind == "turn":
            phi = phi + arg
        elif kind == "flip":
            phi = np.where("x" in arg, math.pi - phi, phi)
            phi = np.where("y" in arg, -phi, phi)
        out.append(("phi", np.cos(a.phi - phi), np.ones(len(a))))
        out.append(("azimuth", np.abs(np.sin(0.5 * (a.phi - phi))), np.zeros(len(a))))
        cb, ca = CA.weighted_centroid(b), CA.weighted_centroid(a)
        out.append(("centroid eta", np.array(ca[0]), sign * np.array(cb[0])))
        if kind == "scale" or arg in ("y", "z"):  # the weighted mean of azimuths is not covariant across the seam
            shift = -cb[1] if arg == "y" else cb[1]
            out.append(("centroid phi", np.array(np.sin(0.5 * (ca[1] - shift))), np.array(0.0)))
        ra, rb = CA.resultant_coords(a), CA.resultant_coords(b)
        out.append(("resultant eta", np.array(ra[0]), sign * np.array(rb[0])))
    if kind == "boost":
        out.append(("rapidity", a.rapidity, b.rapidity + arg))
        out.append(("phi", a.phi, b.phi))
        out.append(("boosted", cols(b.shift_rapidity(arg)), cols(a)))
        out.append(("boosted each", cols(b.shift_rapidity(np.full(len(b), arg))), cols(a)))
    if kind == "turn":
        out.append(("turned", cols(b.shift_phi(arg)), cols(a)))
    if kind == "scale":
        u = 2.0**arg
        for nm in ("pt", "energy", "mass", "mass_t", "x", "z"):
            out.append((nm, getattr(a, nm), u * getattr(b, nm)))
        s, sb = TR.split_hardest(a, 0.2, 0.4), TR.split_hardest(b, 0.2, 0.4)
        out.append(("split", cols(s), u * cols(sb)))
        for e in (0.3, -1.0):
            out.append(("shift", cols(a.shift_eta(e)), u * cols(b.shift_eta(e))))
    if kind == "space" and arg not in ("tilt", "tumble"):
        s, sb = TR.split_hardest(b, 0.2, 0.4, (0.3, 0.4)), TR.split_hardest(a, 0.2, 0.4, (0.3, 0.4))
        out.append(("number after splitting", np.array(len(s)), np.array(len(sb))))
    return out


ORIGIN = {}


def gen(tier):
    deep = tier == THOROUGH
    for name in EVENTS + (("large",) if deep else ()):
        for t in SINGLE:
            yield name, (t,)
        pairs = [(s, t) for s in SINGLE for t in SINGLE if s[0] != t[0] and "halve" not in (s[0], t[0])]
        for i, (s, t) in enumerate(pairs):
            if deep or name != "crowd" and i % 4 == len(name) % 4:
                yield name, (s, t)


@C.family("symmetries", gen)
def symmetries(ctx, name, ts):
    rec = event(name)
    start = pmu = np.array(rec.col("pmu"), dtype=float)
    kinds = tuple(sorted({t[0] for t in ts}))
    if (name, kinds) not in ORIGIN:
        ORIGIN[name, kinds] = answers(rec, start, kinds, 1.0)
    want = ORIGIN[name, kinds]
    unit = 1.0
    for t in ts:
        new = apply(pmu, t)
        for nm, a, b in covariant(pmu, new, t):
            scale = float(np.max(np.abs(b), initial=0.0)) if nm not in ("phi", "azimuth", "centroid phi") else 1.0
            require(np.shape(a) == np.shape(b) and close(a, b, rtol=1e-7, atol=1e-7 * max(scale, 1e-300)), "{} of {} is {} instead of {} after {}", nm, name, a, b, t)
            ctx.ev((name, ts, nm))
        pmu = new
        if t[0] == "scale":
            unit *= 2.0 ** t[1]
    if ts[0][0] == "halve":
        halves = np.repeat(0.5 * start, 2, axis=0)
        rec2 = Record([r for r in rec.rows for _ in (0, 1)], None)
        got = answers(rec2, halves, kinds, unit)
    else:
        got = answers(rec, pmu, kinds, unit)
    require(set(got) == set(want), "answers {} instead of {}", sorted(got), sorted(want))
    for key in want:
        ok = loosely(got[key], want[key], 1e-4 if key == "mass" else 1e-6) if isinstance(want[key], Near) else got[key] == want[key]
        require(ok, "{} of {} becomes {} instead of {} after {}", key, name, got[key], want[key], ts)
        ctx.ev((name, ts, key))
    ctx.outcome((name, kinds))


def loosely(x, y, tol):  # masses of light particles lose digits to cancellation
    return x.x.shape == y.x.shape and close(x.x, y.x, rtol=tol, atol=tol * float(np.max(np.abs(y.x), initial=1e-3)))
