"""C28: Jaccard distance is the weighted symmetric-difference ratio."""
from fractions import Fraction

from mc.core import Check
from mc.util import *

C = Check(
    "C28",
    "exploration",
    "exhaustive enumeration of mask pairs and triples with weight vectors against exact set arithmetic",
    "Every pair of masks up to the length bound with every weight vector over {0, 1/2, 1, 3}, in every mask "
    "representation; every pair with weights of either sign for the definition alone; every triple for the triangle inequality.",
    "cases: (length, first mask, weights); non-trivial when the union is not empty",
    ["finite float64 weights, masks of equal length"],
)
J = gcl.calculate.jaccard_distance
W = (0.0, 0.5, 1.0, 3.0)


def want(u, v, w):
    un = sum((Fraction(x) for a, b, x in zip(u, v, w) if a or b), Fraction(0))
    sd = sum((Fraction(x) for a, b, x in zip(u, v, w) if a != b), Fraction(0))
    return float(sd / un) if un else 0.0


def forms(u):
    """The same mask as every accepted type."""
    arr = np.array(u, dtype=bool)
    n = len(u)
    yield "ndarray", arr
    yield "strided ndarray", np.repeat(arr, 2)[::2]
    yield "MaskArray", M(arr.copy())
    if n:
        yield "reversed MaskArray", M(arr[::-1].copy())[::-1]
    lo = arr.copy()
    lo[: n // 2] = False
    yield "or group", G({"a": lo, "b": arr & ~lo}, agg_op="or")
    yield "and group", G({"a": arr, "b": np.ones(n, dtype=bool)}, agg_op="and")
    yield "nested group", G({"a": G({"x": arr}, agg_op="or"), "b": np.zeros(n, dtype=bool)}, agg_op="or")


def weights(n, tier):
    if n <= (3 if tier == "quick" else 4):
        yield from it.product(W, repeat=n)
    else:
        for k in range(8):
            yield tuple(W[(i * (k + 1) + i * i * k) % 4] for i in range(n))
        yield tuple(1e-3 * 10**i for i in range(n))


@C.family("pairs", lambda t: ((u, w) for n in range(6 if t == "quick" else 8) for u in bits(n) for w in (None,) + tuple(weights(n, t))))
def pairs(ctx, u, w):
    n = len(u)
    arr = None if w is None else np.array(w, dtype=np.float64)
    keep = None if w is None else frozen(arr)
    eff = (1.0,) * n if w is None else w
    fu = list(forms(u))
    for v in bits(n):
        ref = want(u, v, eff)
        fv = list(forms(v))
        combos = it.product(fu, fv) if n <= 2 and w is None else [
            (fu[i], fv[(i * 2 + sum(v)) % len(fv)]) for i in range(len(fu))]
        for (na, a), (nb, b) in combos:
            ka, kb = frozen(a), frozen(b)
            got = J(a, b) if w is None else J(a, b, arr)
            require(isinstance(got, float), "result is {}", type(got))
            require(abs(got - ref) < 1e-12, "distance of {} {} and {} {} is {} instead of {} (weights {})", na, u, nb, v, got, ref, w)
            back = J(b, a, weights=arr)
            require(abs(back - got) < 1e-15, "distance is not symmetric: {} and {}", got, back)
            require(0.0 <= got <= 1.0 + 1e-15, "distance {} outside [0, 1]", got)
            require(frozen(a) == ka and frozen(b) == kb and (w is None or frozen(arr) == keep), "inputs were modified")
            ctx.ev((u, v, w) if any(u) or any(v) else None)
        if w is not None and n:
            strided = np.repeat(arr, 3)[::3]
            require(abs(J(np.array(u), np.array(v), strided) - ref) < 1e-12, "strided weights give another distance")
        if u == v:
            require(J(np.array(u, dtype=bool), np.array(v, dtype=bool), arr) == 0.0, "equal masks differ")
        if w is None:
            ones = J(np.array(u, dtype=bool), np.array(v, dtype=bool), np.ones(n))
            require(abs(ones - ref) < 1e-12, "unit weights give {} instead of {}", ones, ref)
    ctx.outcome(n)


@C.family("triples", lambda t: ((u, w) for n in range(1, 5 if t == "quick" else 6) for u in bits(n)
                                for w in [None] + list(weights(n, "quick"))[:: 5 if n == 3 else 1][: 16]))
def triples(ctx, u, w):
    n = len(u)
    arr = None if w is None else np.array(w, dtype=np.float64)
    masks = [np.array(v, dtype=bool) for v in bits(n)]
    a = np.array(u, dtype=bool)
    d = [[J(x, y, arr) for y in masks] for x in masks]
    da = [J(a, y, arr) for y in masks]
    for i in range(len(masks)):
        for k in range(len(masks)):
            require(da[k] <= da[i] + d[i][k] + 1e-12, "triangle inequality fails: {} {} {} weights {}", u, masks[i], masks[k], w)
            ctx.ev((u, i, k, w))
    ctx.outcome(n)


@C.family("long masks", lambda t: ((n, k) for n in (7, 8, 9, 16, 31, 33, 64, 65, 128, 300, 1000) + ((5000, 100000) if t != "quick" else ())
                                   for k in range(8)))
def long_masks(ctx, n, k):
    i = np.arange(n)
    u = {0: i % 2 == 0, 1: i % 3 == 0, 2: i < n // 2, 3: i == n - 1, 4: i == 0, 5: np.ones(n, bool), 6: np.zeros(n, bool), 7: (i * i) % 7 < 3}[k]
    w = ((i * 13) % 32) / 8.0
    for v in (i % 2 == 1, i % 3 == 0, i >= n // 2, i == n - 1, i != n // 2, np.zeros(n, bool), u.copy(), (i * 5) % 11 < 4):
        for ww in (None, w, np.where(i % 4, 0.0, 2.0**-20), np.where(i == n - 1, 2.0**40, 0.5)):
            ref = want(u.tolist(), v.tolist(), [1.0] * n if ww is None else ww.tolist())
            for a, b in ((u, v), (M(u), v), (G({"a": u, "b": np.zeros(n, bool)}, "or"), M(v))):
                got = J(a, b) if ww is None else J(a, b, ww)
                require(abs(got - ref) < 1e-11, "distance of masks of length {} is {} instead of {}", n, got, ref)
                require(J(b, a, ww) == got or abs(J(b, a, ww) - got) < 1e-14, "distance is not symmetric")
                ctx.ev((n, k) if u.any() or v.any() else None)
    ctx.outcome(n)


@C.family("signed weights", lambda t: ((u, k) for n in range(1, 5 if t == "quick" else 7) for u in bits(n) for k in range(12)))
def signed(ctx, u, k):
    """The definition holds for weights of either sign (the other laws do not)."""
    n = len(u)
    w = np.array([((k + 1) * (3 * i + 2) % 11 - 5) * 0.5 for i in range(n)])
    keep = frozen(w)
    fu = list(forms(u))
    for v in bits(n):
        ref = want(u, v, w.tolist())
        fv = list(forms(v))
        for i in range(len(fu)):
            (na, a), (nb, b) = fu[i], fv[(i * 2 + sum(v)) % len(fv)]
            got = J(a, b, w)
            require(abs(got - ref) < 1e-12 * max(1.0, abs(ref)), "distance of {} {} and {} {} is {} instead of {} (weights {})", na, u, nb, v, got, ref, w)
            require(abs(J(b, a, w) - got) < 1e-12 * max(1.0, abs(ref)), "distance is not symmetric for weights {}", w)
            ctx.ev((u, v, k) if any(u) or any(v) else None)
    require(frozen(w) == keep, "the weights were modified")
