"""C24: closest-object assignment is one-to-one and globally optimal."""
import math

from mc.core import Check
from mc.events import unique_names
from mc.util import *

C = Check(
    "C24",
    "exploration",
    "exhaustive enumeration of small focus / candidate momentum sets against brute-force enumeration of all assignments, and of all tagging argument combinations against a filter model",
    "Every focus set of up to 3 and candidate set of up to 4 momenta from a grid (repeats and seam neighbours included), so built "
    "that greedy, row-wise and dR-only choices differ from the optimum; every stage, list and sign flag of the tagging function.",
    "cases: momentum sets, or tagging arguments; non-trivial when greedy assignment is not optimal",
    ["where several assignments are optimal within 1e-9, any of them is accepted", "momenta along the beam (infinite rapidity) are excluded"],
)
GRID = (  # (rapidity, azimuth, pt, mass)
    (0.0, 0.0, 50.0, 1.0), (0.4, 0.3, 20.0, 0.0), (-0.3, 3.1, 45.0, 5.0), (0.1, -3.1, 22.0, 0.0), (1.5, 1.0, 5.0, 0.2), (-2.0, -1.2, 80.0, 10.0),
    (0.2, 0.1, 21.0, 3.0), (2.4, 0.2, 48.0, 0.0),
)


def mom(i):
    y, phi, pt, m = GRID[i]
    mt = math.hypot(pt, m)
    return (pt * math.cos(phi), pt * math.sin(phi), mt * math.sinh(y), mt * math.cosh(y))


def coords(p):
    pt = math.hypot(p[0], p[1])
    return math.asinh(p[2] / math.sqrt((p[3] - p[2]) * (p[3] + p[2]))), math.atan2(p[1], p[0]), pt


def var(xs):
    mu = math.fsum(xs) / len(xs)
    return math.fsum((x - mu) ** 2 for x in xs) / len(xs)


def costs(focus, cand):
    cc = [coords(c) for c in cand]
    vpt = var([c[2] for c in cc])
    out = []
    for f in focus:
        y, phi, pt = coords(f)
        dr = [math.hypot(y - c[0], wrap_angle(phi - c[1])) for c in cc]
        vdr = var(dr)
        g = lambda d, v: 1.0 - math.exp(-0.5 * d * d / v) if v > 1e-18 else None
        out.append([(g(d, vdr), g(pt - c[2], vpt)) for d, c in zip(dr, cc)])
    return [[sum(t for t in cell if t is not None) for cell in row] for row in out]


def best(cost):
    nf, nc = len(cost), len(cost[0]) if cost else 0
    return min((math.fsum(cost[i][j] for i, j in enumerate(p)) for p in it.permutations(range(nc), nf)), default=0.0)


def greedy(cost):
    taken, tot = set(), 0.0
    for row in cost:
        j = min((j for j in range(len(row)) if j not in taken), key=lambda j: row[j])
        taken.add(j)
        tot += row[j]
    return tot


def arr(ps):
    return gcl.MomentumArray(np.array(ps, dtype=float).reshape(len(ps), 4))


def check_assign(got, cost, what):
    nf, nc = len(cost), len(cost[0])
    require(isinstance(got, list) and len(got) == nf and all(type(j) is int and 0 <= j < nc for j in got), "{}: assignment {}", what, got)
    require(len(set(got)) == nf, "{}: assignment {} is not one-to-one", what, got)
    tot = math.fsum(cost[i][j] for i, j in enumerate(got))
    opt = best(cost)
    require(tot <= opt + 1e-9, "{}: assignment {} costs {} but the optimum is {}", what, got, tot, opt)
    return tot


def gen(tier):
    deep = tier == THOROUGH
    for nf in (1, 2, 3) + ((4,) if deep else ()):
        for nc in range(nf, 5 if not deep else 6):
            for k, (f, c) in enumerate(it.product(it.permutations(range(8), nf), it.combinations(range(8), nc))):
                if nf == 3 and nc >= 3 and (k % (7 if nc == 3 else 11) if not deep else 0):
                    continue
                if nf == 4 and k % 5:
                    continue
                yield f, (c[k % nc :] + c[: k % nc])
    for nf, nc in ((2, 2), (2, 3), (3, 3)):  # coinciding momenta
        for f in it.combinations_with_replacement((0, 1, 3), nf):
            for c in it.combinations_with_replacement((0, 2, 6), nc):
                yield f, c


@C.family("assignments", gen)
def assignments(ctx, f, c):
    fp, cp = [mom(i) for i in f], [mom(i) for i in c]
    focus, cand = arr(fp), arr(cp)
    _ = cand.rapidity, focus.pt  # answers handed out before must survive
    before = frozen(focus), frozen(cand), frozen(cand.rapidity), frozen(cand.pt)
    cost = costs(fp, cp)
    for call in (lambda: gcl.select.arg_closest(focus, cand), lambda: gcl.select.arg_closest(focus=focus, candidate=cand, num_threads=1 + (sum(c) % 2))):
        tot = check_assign(call(), cost, f"focus {f} candidates {c}")
        require((frozen(focus), frozen(cand), frozen(cand.rapidity), frozen(cand.pt)) == before, "inputs changed")
    nontrivial = greedy(cost) > tot + 1e-6
    ctx.ev((f, c) if nontrivial else None)
    ctx.outcome(nontrivial)


def gen_far(tier):
    for scale in (1e-3, 1.0, 1e3, 1e6):
        for shift in (0.0, 3.0, -5.0):
            for f in it.permutations(range(8), 3):
                if sum(f) % 3 == 0 or tier == THOROUGH:
                    yield scale, shift, f


@C.family("scales", gen_far)
def scales(ctx, scale, shift, f):
    """The assignment ignores an overall scale and a common boost."""
    c = [i for i in range(8) if i not in f[:1]]
    base = costs([mom(i) for i in f], [mom(i) for i in c])
    move = lambda ps: gcl.MomentumArray(np.array(ps) * scale).shift_rapidity(shift) if shift else gcl.MomentumArray(np.array(ps) * scale)
    got = gcl.select.arg_closest(move([mom(i) for i in f]), move([mom(i) for i in c]))
    nf = len(f)
    require(len(set(got)) == nf, "assignment {}", got)
    opt = best(base)
    require(math.fsum(base[i][j] for i, j in enumerate(got)) <= opt + 1e-6, "scale {} boost {}: {} is not optimal", scale, shift, got)
    ctx.ev((scale, shift, f))


HARD = ((6, -22, 5), (24, -22, 2), (5, 23, 0), (-5, 23, 6), (2, -23, 3), (11, 23, 4), (5, 23, 1))  # code, status, momentum
LISTS = (None, (), (5,), (-5,), (24, 6), (5, -5), (11, 2), (13,), (6,), (-2, 5), (5, -5, 2, 11), (5, 2, 11, 6, 24))
JETS = ((0,), (1,), (2, 3), (4,), (5,), (6,), (7,))


def tag_event(order, filtered):
    rows = [(21, -21, mom(1), False)]
    for h in order:
        code, status, m = HARD[h]
        rows.append((code, status, mom(m), False))
        if h % 2:
            rows.append((21, 51, mom(7), False))
    for i in range(8):
        rows.append((211, 84, mom(i), True))
        if i == 3:
            rows.append((22, -91, mom(0), False))
    n = len(rows)
    return rows, gcl.ParticleSet.from_numpy(
        pdg=np.array([r[0] for r in rows]), status=np.array([r[1] for r in rows]), pmu=np.array([r[2] for r in rows]), final=np.array([r[3] for r in rows])
    )


def gen_tag(tier):
    orders = ((0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (2, 6, 3), (0, 1), (3,), (1, 2, 6, 5))
    for order in orders:
        for inter, out in it.product((False, True), repeat=2):
            for bl, wl in it.product(LISTS, LISTS):
                if bl is not None and wl is not None and (bl, wl) not in (((), ()), ((5,), (5,)), ((), (5,)), ((5,), ())):
                    continue
                for sign in (False, True):
                    for style in range(3 if tier == THOROUGH else 2):
                        yield order, inter, out, bl, wl, sign, style


@C.family("tagging", gen_tag)
def tagging(ctx, order, inter, out, bl, wl, sign, style):
    rows, ps = tag_event(order, style)
    kw = dict(intermediate=inter, outgoing=out, sign_sensitive=sign)
    kw.update({k: (list(v) if style else tuple(v)) for k, v in (("blacklist", bl), ("whitelist", wl)) if v is not None})
    sub = [i for i in range(8) if style != 1 or i != 5]  # momenta after detector cuts
    jets = [tuple(i for i in j if i in sub) for j in JETS]
    jets = [j for j in jets if j]
    if style == 2:
        jets = jets[::-1]
    masks = [M([i in j for i in sub]) for j in jets]
    if style == 1:
        kw["clustered_pmu"] = arr([mom(i) for i in sub])
    before = frozen(ps), frozen(masks)
    call = lambda **more: gcl.select.monte_carlo_tag(ps, masks, **{**kw, **more})
    stages = ((22,) if inter else ()) + ((23,) if out else ())
    hard = [(c, p) for c, s, p, _ in rows if abs(s) in stages]
    fold = (lambda c: c) if sign else abs
    if bl is not None:
        hard_f = [h for h in hard if fold(h[0]) not in {fold(c) for c in bl}]
    elif wl is not None:
        hard_f = [h for h in hard if fold(h[0]) in {fold(c) for c in wl}]
    else:
        hard_f = hard
    if not stages or (bl is not None and wl is not None):
        require_raises(ValueError, f"stages {stages} lists {bl} {wl}", call)
        ctx.ev((order, inter, out, bl, wl))
        ctx.outcome("contradictory")
    elif not hard_f:
        if bl is None and wl is None:
            return  # no hard partons at all: not specified
        require_raises(IndexError, "no parton matches", call)
        ctx.ev((order, inter, out, bl, wl))
        ctx.outcome("no match")
    else:
        got = call()
        names = unique_names([c for c, _ in hard_f])
        require(isinstance(got, G) and got.agg_op.value == "or" and list(got) == names, "{}: names {} not {}", kw, got, names)
        vals = [m.data.tolist() for m in got.values()]
        want = [m.data.tolist() for m in masks]
        require(all(v in want for v in vals), "tags are not clusters")
        sums = [tuple(math.fsum(mom(i)[k] for i in j) for k in range(4)) for j in jets]
        cost = costs([p for _, p in hard_f], sums)
        check_assign([want.index(v) for v in vals], cost, f"tagging {kw}")
        for k in range(len(hard_f), len(masks)):  # as few clusters as there are partons
            few = gcl.select.monte_carlo_tag(ps, masks[:k], **kw)
            few = [m.data.tolist() for m in few.values()]
            require(len(few) == len(names) and all(v in want[:k] for v in few), "{} clusters: tags are not clusters", k)
            check_assign([want.index(v) for v in few], costs([p for _, p in hard_f], sums[:k]), f"tagging with {k} clusters {kw}")
        if style == 0:
            same_ = call(clustered_pmu=ps.pmu[ps.final])
            require([m.data.tolist() for m in same_.values()] == vals, "explicit final momenta differ")
        if len(hard_f) > 1:
            require_raises(ValueError, "fewer clusters than partons", gcl.select.monte_carlo_tag, ps, masks[: len(hard_f) - 1], **kw)
        require_raises(ValueError, "mask length", gcl.select.monte_carlo_tag, ps, [M([True] * (len(sub) + 1))] * len(masks), **kw)
        require_raises(ValueError, "mask length", gcl.select.monte_carlo_tag, ps, masks, **{**kw, "clustered_pmu": arr([mom(0)] * (len(sub) - 1))})
        ctx.ev((order, inter, out, bl, wl, sign, style))
        ctx.outcome(len(hard_f))
    require_raises(ValueError, "no clusters", gcl.select.monte_carlo_tag, ps, [], **kw)
    require((frozen(ps), frozen(masks)) == before, "inputs changed")


def far_apart(k):
    y, f, pt, m = 5 * (k * 0.7548776662466927 % 1.0) - 2.5, 2 * math.pi * (k * 0.5698402909980532 % 1.0) - math.pi, 2 + 90 * (k * 0.8191725133961645 % 1.0), 0.4 * (k % 5)
    mt = math.hypot(pt, m)
    return (pt * math.cos(f), pt * math.sin(f), mt * math.sinh(y), mt * math.cosh(y))


def optimum(cost):
    """Minimal total cost over all assignments, by enumerating sets of served focus objects."""
    table = {0: 0.0}
    nf = len(cost)
    for j in range(len(cost[0])):
        new = dict(table)
        for done, c in table.items():
            for i in range(nf):
                if not done >> i & 1:
                    k = done | 1 << i
                    new[k] = min(new.get(k, math.inf), c + cost[i][j])
        table = new
    return table[2**nf - 1]


def gen_big(tier):
    shapes = ((1, 1), (1, 40), (2, 30), (3, 12), (4, 7), (5, 5), (6, 9), (7, 7), (8, 20), (3, 70)) + (((10, 40), (9, 9), (5, 300)) if tier == THOROUGH else ())
    for nf, nc in shapes:
        for s in range(40 if tier == THOROUGH else 8):
            for spread in (1.0, 0.05):
                yield nf, nc, s, spread


@C.family("larger sets", gen_big)
def larger(ctx, nf, nc, s, spread):
    cp = [far_apart(11 * s + k) for k in range(nc)]
    # focus objects crowd around few candidates, so that they compete
    fp = [tuple(a * (1 + spread * 0.1 * math.sin(7.0 * i + s + j)) for j, a in enumerate(cp[(i * i) % max(1, nc // 3)][:3])) for i in range(nf)]
    fp = [p + (math.sqrt(sum(x * x for x in p) + 1.0),) for p in fp]
    focus, cand = arr(fp), arr(cp)
    before = frozen(focus), frozen(cand)
    cost = costs(fp, cp)
    got = gcl.select.arg_closest(focus, cand)
    require(isinstance(got, list) and len(set(got)) == nf == len(got) and all(type(j) is int and 0 <= j < nc for j in got), "assignment {}", got)
    tot, opt = math.fsum(cost[i][j] for i, j in enumerate(got)), optimum(cost)
    require(tot <= opt + 1e-9, "{} focus objects, {} candidates: {} costs {} but the optimum is {}", nf, nc, got, tot, opt)
    require((frozen(focus), frozen(cand)) == before, "inputs changed")
    ctx.ev((nf, nc, s, spread) if greedy(cost) > tot + 1e-6 else None)
    ctx.outcome((nf, greedy(cost) > tot + 1e-6))
