"""C01: mask expressions follow Boolean algebra."""
import operator as op

from mc.core import Check
from mc.util import *

C = Check(
    "C01",
    "exploration",
    "exhaustive enumeration of operand values, kinds and expression trees against list-of-bool evaluation",
    "All mask pairs up to the length bound in all operand kinds, all expression trees up to the depth bound over the "
    "full truth table of three operands, all keys for get and set. Complete within the bounds; lengths beyond are "
    "probed at a few sizes.",
    "cases: (length, left value, left kind, right kind) with all right values; a case is non-trivial when operands differ",
    ["element-wise operations do not depend on lengths beyond those enumerated"],
)

KINDS = ("mask", "and-group", "or-group", "nested", "numpy")


def make(kind, value):
    """An operand of the given kind whose value is the boolean sequence."""
    value = np.array(value, dtype=bool)
    n = len(value)
    alt = np.arange(n) % 2 == 0
    if kind == "mask":
        return M(value.copy())
    if kind == "numpy":
        return value.copy()
    if kind == "and-group":
        return G({"x": value | alt, "y": value | ~alt}, "and")
    if kind == "or-group":
        return G({"x": value & alt, "y": value & ~alt, "z": value & alt}, "or")
    inner = G({"p": value | alt, "q": value | ~alt}, "and")
    return G({"in": inner, "out": M(value & alt)}, "or")


BINARY = {
    "&": (op.and_, lambda a, b: a and b),
    "|": (op.or_, lambda a, b: a or b),
    "==": (op.eq, lambda a, b: a == b),
    "!=": (op.ne, lambda a, b: a != b),
}


def is_mask(x):
    return isinstance(x, gcl.base.MaskBase)


def gen_pairs(tier):
    top = 5 if tier == THOROUGH else 4
    for n in range(0, top + 1):
        for a in bits(n):
            for lk in KINDS:
                for rk in KINDS:
                    if lk == rk == "numpy":
                        continue
                    yield n, a, lk, rk


@C.family("pairs", gen_pairs)
def pairs(ctx, n, a, lk, rk):
    for b in bits(n):
        x, y = make(lk, a), make(rk, b)
        fx, fy = frozen(x), frozen(y)
        for sym, (fn, ref) in BINARY.items():
            got = fn(x, y)
            want = [ref(p, q) for p, q in zip(a, b)]
            ctx.ev((n, a, b, lk, rk, sym) if a != b else None)
            require(np.asarray(got).dtype == np.bool_, "{} {} {} is not boolean", lk, sym, rk)
            require(np.asarray(got).tolist() == want, "{}{} {} {}{} gave {}", lk, a, sym, rk, b, np.asarray(got).tolist())
            if is_mask(x):
                require(isinstance(got, M), "{} {} {} is not a mask but {}", lk, sym, rk, type(got))
        if is_mask(x):
            inv = ~x
            require(isinstance(inv, M) and inv.data.tolist() == [not p for p in a], "~{}{} gave {}", lk, a, inv)
            # a result is a mask of its own: overwriting it leaves the operands alone
            for got in (inv, *(fn(x, y) for fn, _ in BINARY.values())):
                got[...] = ~np.asarray(got)
                require(frozen(x) == fx and frozen(y) == fy, "writing into a result changed an operand ({}{}, {}{})", lk, a, rk, b)
        require(frozen(x) == fx and frozen(y) == fy, "operand changed by an operator")
        ctx.outcome(("any", any(a), any(b)))
    ctx.sample((n, a, lk, rk))


@C.family("an operand with itself", lambda t: ((n, a, k) for n in range(1, 7 if t == THOROUGH else 5) for a in bits(n) for k in KINDS[:4]))
def alone(ctx, n, a, kind):
    """The operands may be one object, or share a buffer; the result is still a mask of its own."""
    def views(x):
        yield x
        yield M(np.asarray(x.data))
        if isinstance(x, M):
            yield x[:]
            yield x.copy()
            yield x.data

    for sym, (fn, ref) in BINARY.items():
        for i in range(5):
            for turn in (False, True):
                x = make(kind, a)
                ys = list(views(x))
                if i >= len(ys):
                    continue
                y = ys[i]
                if turn and not is_mask(y):
                    continue
                before, by = frozen(x), frozen(y)
                got = fn(y, x) if turn else fn(x, y)
                want = [ref(p, p) for p in a]
                require(isinstance(got, M) and got.data.tolist() == want, "{} {} {} with itself gave {}", kind, a, sym, got)
                got[...] = ~np.asarray(got)
                require(frozen(x) == before and frozen(y) == by, "writing into {} {} itself changed the operand {}", kind, sym, a)
                got = fn(x, y)
                got.data[:] = [not v for v in want]
                require(frozen(x) == before and frozen(y) == by, "writing into the data of {} {} itself changed the operand {}", kind, sym, a)
                z = make(kind, a)
                keep = fn(z, z)
                if isinstance(z, M):
                    z[...] = ~z.data
                    require(keep.data.tolist() == want, "writing into a mask changed the earlier result of {} with itself", sym)
                ctx.ev((n, a, kind, sym, i, turn))
    inv = ~~make(kind, a)
    require(inv.data.tolist() == list(a), "double negation of {}", a)
    ctx.outcome((kind, sum(a)))


def gen_inplace(tier):
    for n in range(1, 4):
        for a in bits(n):
            for b in bits(n):
                for rk in ("mask", "numpy"):
                    yield n, a, b, rk


@C.family("numpy functions and in-place operators", gen_inplace)
def inplace(ctx, n, a, b, rk):
    refs = {
        "&=": (op.iand, lambda p, q: p and q),
        "|=": (op.ior, lambda p, q: p or q),
        "^=": (op.ixor, lambda p, q: p != q),
    }
    for sym, (fn, ref) in refs.items():
        x, y = M(list(a)), make(rk, b)
        keep = x.copy()
        got = fn(x, y)
        want = [ref(p, q) for p, q in zip(a, b)]
        ctx.ev((a, b, rk, sym))
        require(got.data.tolist() == want, "{} {} {} gave {}", a, sym, b, got)
        require(keep.data.tolist() == list(a), "a copy changed under {}", sym)
        require(np.asarray(y).tolist() == list(b), "right operand changed under {}", sym)
    x, y = M(list(a)), make(rk, b)
    for name, ref in (
        ("logical_and", lambda p, q: p and q),
        ("logical_or", lambda p, q: p or q),
        ("logical_xor", lambda p, q: p != q),
        ("bitwise_and", lambda p, q: p and q),
        ("bitwise_or", lambda p, q: p or q),
        ("bitwise_xor", lambda p, q: p != q),
    ):
        got = getattr(np, name)(x, y)
        ctx.ev((a, b, rk, name))
        require(isinstance(got, M) and got.data.tolist() == [ref(p, q) for p, q in zip(a, b)], "np.{}", name)
    require((x ^ y).data.tolist() == [p != q for p, q in zip(a, b)], "xor")
    require(bool(np.any(x)) == any(a) and bool(np.all(x)) == all(a) and int(np.sum(x)) == sum(a), "any / all / sum of {}", a)
    require(len(x) == n and bool(x) is True, "length or truth")
    require(list(x) == list(a) and all(type(v) is bool for v in x), "iteration of {}", a)


# --- expression trees over the whole truth table -----------------------------
TABLE = list(bits(3))
LEAVES = {
    "A": ("mask", [r[0] for r in TABLE]),
    "B": ("or-group", [r[1] for r in TABLE]),
    "C": ("numpy", [r[2] for r in TABLE]),
    "D": ("and-group", [r[1] != r[2] for r in TABLE]),
}


def level(exprs):
    """All expressions one operator deeper."""
    for e in exprs:
        yield ("~", e)
    for sym in BINARY:
        for e in exprs:
            for f in exprs:
                yield (sym, e, f)


LEVEL0 = [("leaf", k) for k in LEAVES]
LEVEL1 = LEVEL0 + list(level(LEVEL0))


def gen_expr(tier):
    yield from ((e,) for e in LEVEL1)
    for sym in BINARY:
        for e in LEVEL1:
            yield ((sym, e),)
    if tier == THOROUGH:
        small = [e for e in LEVEL1 if e[0] in ("leaf", "~", "&", "|")]
        for s1 in ("&", "|", "=="):
            for e in small:
                for f in small:
                    yield ((s1, ("~", (s1, e, f))),)


def refval(e):
    if e[0] == "leaf":
        return list(LEAVES[e[1]][1])
    if e[0] == "~":
        return [not p for p in refval(e[1])]
    return [BINARY[e[0]][1](p, q) for p, q in zip(refval(e[1]), refval(e[2]))]


def value(e):
    if e[0] == "leaf":
        return make(*LEAVES[e[1]])
    if e[0] == "~":
        return ~value(e[1])
    return BINARY[e[0]][0](value(e[1]), value(e[2]))


@C.family("expression trees", gen_expr)
def expr(ctx, e):
    todo = [e] if (e[0] in ("leaf", "~") or len(e) == 3) else [(e[0], e[1], f) for f in LEVEL1]
    for t in todo:
        got, want = np.asarray(value(t)).tolist(), refval(t)
        ctx.ev(t)
        ctx.outcome(sum(want))
        require(got == want, "expression {} gave {}, expected {}", t, got, want)


# --- selection and assignment -------------------------------------------------
def keys(n):
    yield from (("int", i) for i in range(-n, n))
    ends = [None] + list(range(-n - 1, n + 2))
    for s in ends:
        for e in ends:
            for st in (None, 1, 2, -1):
                yield ("slice", s, e, st)
    for b in bits(n):
        yield from (("bool", b), ("mask", b), ("group", b))
    for r in range(0, 3):
        for idx in it.product(range(-n, n), repeat=r):
            yield ("list", idx)


def real_key(k):
    if k[0] == "int":
        return k[1]
    if k[0] == "slice":
        return slice(*k[1:])
    if k[0] == "bool":
        return np.array(k[1], dtype=bool)
    if k[0] == "mask":
        return M(list(k[1]))
    if k[0] == "group":
        return make("or-group", k[1])
    return np.array(k[1], dtype=int)


def positions(k, n):
    if k[0] == "int":
        return [k[1] % n]
    if k[0] == "slice":
        return list(range(n))[slice(*k[1:])]
    if k[0] in ("bool", "mask", "group"):
        return [i for i, b in enumerate(k[1]) if b]
    return [i % n for i in k[1]]


def gen_keys(tier):
    for n in range(1, 4 + (tier == THOROUGH)):
        for a in bits(n):
            yield n, a


@C.family("selection and assignment", gen_keys)
def select_assign(ctx, n, a):
    for k in keys(n):
        pos = positions(k, n)
        x = M(list(a))
        got = x[real_key(k)]
        ctx.ev((a, k))
        require(isinstance(got, M) and got.data.tolist() == [a[i] for i in pos], "{}[{}] gave {}", a, k, got)
        require(x.data.tolist() == list(a), "indexing changed the mask")
        for v in (True, False):
            y = x.copy()
            y[real_key(k)] = v
            want = [v if i in pos else a[i] for i in range(n)]
            require(y.data.tolist() == want, "{}[{}] = {} gave {}", a, k, v, y.data.tolist())
            require(x.data.tolist() == list(a), "assigning to a copy changed the original")
        if len(set(pos)) == len(pos) and k[0] != "int":
            y = x.copy()
            new = [not a[i] for i in pos]
            y[real_key(k)] = np.array(new, dtype=bool)
            require(
                y.data.tolist() == [(not a[i]) if i in pos else a[i] for i in range(n)], "{}[{}] = {}", a, k, new
            )
        ctx.outcome(len(pos))


def gen_errors(tier):
    for n in range(0, 4):
        for m in range(0, 4):
            yield n, m


@C.family("rejections", gen_errors)
def errors(ctx, n, m):
    for lk in KINDS[:4]:
        x = make(lk, [True] * n)
        for rk in KINDS:
            y = make(rk, [False] * m)
            if n != m:
                ctx.ev((lk, rk, n, m))
                require_raises(ValueError, f"{lk}[{n}] == {rk}[{m}]", op.eq, x, y)
                require_raises(ValueError, f"{lk}[{n}] != {rk}[{m}]", op.ne, x, y)
        for bad in ([True] * n, tuple([True] * n), 1, "a", None):
            for o in (op.and_, op.or_, op.eq, op.ne):
                ctx.ev((lk, n, repr(bad), o.__name__))
                require_raises((ValueError, TypeError), f"{lk} {o.__name__} {bad!r}", o, x, bad)


def gen_scale(tier):
    yield from ((n,) for n in (5, 8, 16, 61, 64, 100, 1000, 4097))


@C.family("long masks", gen_scale)
def scale(ctx, n):
    a = [(i * 7) % 3 == 0 for i in range(n)]
    b = [(i * 5) % 4 < 2 for i in range(n)]
    for lk in KINDS:
        for rk in KINDS:
            if lk == rk == "numpy":
                continue
            for sym, (fn, ref) in BINARY.items():
                ctx.ev((n, lk, rk, sym))
                require(
                    np.asarray(fn(make(lk, a), make(rk, b))).tolist() == [ref(p, q) for p, q in zip(a, b)],
                    "{} {} {} at length {}", lk, sym, rk, n,
                )
