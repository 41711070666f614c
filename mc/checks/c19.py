"""C19: the hard-process tree nests every parton under its parent."""
from mc.core import Check
from mc.events import *
from mc.util import *

C = Check(
    "C19",
    "exploration",
    "exhaustive enumeration of small hard-process forests, row orders, code assignments and shower shapes against a tree oracle built from the generating description",
    "All labelled forests of up to 4 hard partons (5 thorough), every shape of forest of up to 8 (10 thorough), every relative order of the hard rows, code assignments with and without "
    "duplicates and signs, shower shapes, statuses, vertex labellings and recoil copies; all target sets, signs and strictness.",
    "cases: described event; non-trivial when there is more than one hard parton",
    ["partons sharing a final vertex are excluded (their descendants are not defined by the vertex search)",
     "order of siblings is not prescribed"],
)
CODES = {
    "distinct": (6, 24, 5, -2, 1), "dups": (21, 21, 5, 21, 5), "signs": (6, -6, 24, -24, 5), "mixed": (23, 11, -11, 11, 23), "all equal": (21,) * 5,
}
SHOWERS = ("none", "one", "split", "deep", "radiate")


def statuses(parents, style):
    inner = {p for p in parents if p >= 0}
    if style == "plain":
        return [-22 if i in inner else -23 for i in range(len(parents))]
    if style == "positive":
        return [22 if i in inner else 23 for i in range(len(parents))]
    if style == "diffractive":
        return [-22 if i in inner else (-24 if i % 2 else 23) for i in range(len(parents))]
    return [-22] * len(parents)  # all intermediate


def norm(plain):
    return {k: norm(v) for k, v in plain.items()} if isinstance(plain, dict) else list(map(bool, plain))


def judge(ctx, rec, parents, tags, key):
    ev = rec.graph()
    before = frozen(ev)
    hard = rec.hard_rows()
    names = unique_names([rec.rows[i]["pdg"] for i in hard])
    flat = {nm: rec.desc(i) for nm, i in zip(names, hard)}
    got = gcl.select.hard_descendants(ev)
    require(isinstance(got, G) and got.agg_op.value == "or", "group type {}", got)
    require(list(got) == names, "names {} not {}", list(got), names)
    require(as_plain(got) == flat, "descendants {} not {} (edges {})", as_plain(got), flat, rec.edges)
    want = tree_of(rec, parents, tags)
    desc = gcl.select.hard_descendants(ev)
    keep = frozen(desc)
    for what, hier in (("hierarchy", gcl.select.hierarchy(ev)), ("hierarchy with descendants", gcl.select.hierarchy(ev, desc)), ("hierarchy by keyword", gcl.select.hierarchy(ev, desc=desc))):
        require(isinstance(hier, G) and hier.agg_op.value == "or", "{}: {}", what, type(hier))
        plain = as_plain(hier)
        if any(abs(rec.rows[i]["status"]) == 22 for i in hard):
            require(norm(plain) == want, "{} of {} is {} not {}", what, parents, plain, want)
        else:
            require(norm(plain) == flat, "{} of {} is {} not {}", what, parents, plain, flat)
        require(hier.data.tolist() == np.any(list(flat.values()), axis=0).tolist(), "{}: aggregate", what)
        leaves = gcl.select.leaf_masks(hier)
        inner = {p for p in parents if p >= 0}
        leaf_rows = {rec.index(t) for i, t in enumerate(tags) if i not in inner}
        exp = {nm: flat[nm] for nm, i in zip(names, hard) if i in leaf_rows}
        require(as_plain(leaves) == exp, "{}: leaves {} not {}", what, as_plain(leaves), exp)
    # the descendants are looked up by name, whatever order they come in
    for order in (names[::-1], names[1:] + names[:1]):
        plain = as_plain(gcl.select.hierarchy(ev, desc[order]))
        exp = want if any(abs(rec.rows[i]["status"]) == 22 for i in hard) else flat
        require(norm(plain) == norm(exp), "hierarchy from descendants in order {} is {} not {}", order, plain, exp)
    require(frozen(desc) == keep, "the descendants passed in changed")
    require(frozen(ev) == before, "the event changed")
    ctx.ev(key if len(hard) > 1 else None)
    ctx.outcome(str(sorted(parents)))


def gen(tier):
    deep = tier == THOROUGH
    for k in (1, 2, 3, 4) + ((5,) if deep else ()):
        for n, parents in enumerate(forests(k)):
            codes = tuple(CODES) if k < 4 or deep else (("distinct", "dups"), ("signs", "all equal"))[n % 2]
            for c, code in enumerate(codes):
                perms = tuple(it.permutations(range(k)))
                if k == 5:
                    perms = perms[(n % 4) :: 4]
                for m, perm in enumerate(perms):
                    layout = ("after", "before", "mixed")[(m + c + n) % 3]
                    yield k, parents, code, perm, layout, (m + n) % 3, SHOWERS[(m + c) % 5], (m // 2) % 3, ("plain", "positive", "diffractive")[(n + m) % 3]


@C.family("forests", gen)
def forest_events(ctx, k, parents, code, perm, layout, labelling, shower, copies, style):
    showers = [SHOWERS[(SHOWERS.index(shower) + j) % 5] for j in range(k)]
    rec, tags = hard_event(parents, CODES[code][:k], statuses(parents, style), showers, perm, layout, labelling, copies)
    judge(ctx, rec, parents, tags, (parents, code, perm, layout, labelling, shower, copies, style))


def gen_uniform(tier):
    for k in (1, 2, 3):
        for parents in forests(k):
            for shower, copies, layout, labelling in it.product(SHOWERS, (0, 1, 2), ("after", "before", "mixed"), range(3)):
                for style in ("plain", "positive", "diffractive", "intermediate"):
                    yield parents, shower, copies, layout, labelling, style


@C.family("shower shapes", gen_uniform)
def shower_shapes(ctx, parents, shower, copies, layout, labelling, style):
    rec, tags = hard_event(parents, CODES["signs"][: len(parents)], statuses(parents, style), [shower] * len(parents), None, layout, labelling, copies)
    judge(ctx, rec, parents, tags, (parents, shower, copies, layout, labelling, style))


def gen_merge(tier):
    for parents in list(forests(3)) + list(forests(4)):
        for layout in ("after", "before"):
            yield parents, layout


@C.family("merged showers", gen_merge)
def merged(ctx, parents, layout):
    """Leaves end in one hadronisation vertex together with background."""
    b = Builder()
    inner = {p for p in parents if p >= 0}
    v = {-1: b.vertex()}
    had = b.vertex()
    tags = [("hard", j) for j in range(len(parents))]
    for j, p in enumerate(parents):
        v[j] = b.vertex()
        b.row(v[p], v[j], CODES["distinct"][j], -22 if j in inner else -23, tag=tags[j])
    b.row(b.vertex(), had, 21, -63)
    for j in range(len(parents)):
        if j not in inner:
            b.row(v[j], had, 21, -71)
    for _ in range(3):
        b.row(had, b.vertex(), 22, 83, True)
    order = list(range(len(b.rows)))
    rec = b.finish(order if layout == "after" else order[::-1], 0)
    judge(ctx, rec, parents, tags, (parents, layout, "merged"))


def shapes(k):
    """Every rooted forest of k partons up to isomorphism, as parent lists."""
    def trees(n):  # canonical nested tuples
        return [tuple(f) for f in forests_of(n - 1, n - 1, None)]

    def forests_of(n, biggest, cap):
        if n == 0:
            return [()]
        out = []
        for size in range(min(n, biggest), 0, -1):
            for t in trees(size):
                if cap is not None and (size, t) > cap:
                    continue
                for rest in forests_of(n - size, size, (size, t)):
                    out.append((t,) + rest)
        return out

    def flat(forest, parent, out):
        for t in forest:
            out.append(parent)
            flat(t, len(out) - 1, out)
        return out

    return [flat(f, -1, []) for f in forests_of(k, k, None)]


def gen_shapes(tier):
    for k in range(5, 11 if tier == THOROUGH else 9):
        for n, parents in enumerate(shapes(k)):
            orders = ["given", "reversed", "breadth", "odd even"]
            if tier == THOROUGH:
                orders += ["breadth reversed"] + [f"rotate {r}" for r in range(1, k, 2)]
            elif k == 8:
                orders = [orders[n % 4], orders[(n + 1) % 4]]
            for m, order in enumerate(orders):
                yield parents, order, (n + m) % 3, n + m


BIG_CODES = ((6, -6, 24, 5, -24, -5, 2, -1, 1, -2), (21,) * 10, (6, 24, 5, 2, -1, 6, 24, 5, 2, -1), (23, 23, 5, -5, 5, -5, 25, 25, 21, 21))


@C.family("large forests", gen_shapes)
def large_forests(ctx, parents, order, labelling, n):
    """Every shape of forest of up to 8 (10 thorough) hard partons."""
    k = len(parents)
    depth = []
    for p in parents:
        depth.append(0 if p < 0 else depth[p] + 1)
    perm = list(range(k))
    if order.startswith("breadth"):
        perm.sort(key=lambda i: (depth[i], i))
    elif order == "odd even":
        perm = perm[1::2] + perm[::2]
    elif order.startswith("rotate"):
        r = int(order.split()[1])
        perm = perm[r:] + perm[:r]
    if order.endswith("reversed"):
        perm = perm[::-1]
    codes = BIG_CODES[n % 4]
    showers = [SHOWERS[(n + j * (n % 3)) % 5] for j in range(k)]
    rec, tags = hard_event(parents, codes[:k], statuses(parents, ("plain", "positive", "diffractive")[n % 3]), showers,
                           tuple(perm), ("after", "before", "mixed")[n % 3], labelling, n % 2)
    judge(ctx, rec, parents, tags, (tuple(parents), order, n))


def gen_wide(tier):
    for k in (12, 25, 105) + ((130, 260) if tier == THOROUGH else ()):
        for shape in ("flat", "star", "binary", "pairs", "chain"):
            for n in range(4):
                if shape == "chain" and k > 40 or k > 100 and (n + len(shape)) % 2 and tier != THOROUGH:
                    continue
                yield k, shape, n
    deep = tier == THOROUGH
    yield from ((k, "nested star", k % 4) for k in (*range(126, 133), *range(254, 260)) if deep or k in (127, 128, 129, 130, 131, 257, 258))


@C.family("wide processes", gen_wide)
def wide_processes(ctx, k, shape, n):
    """More hard partons than one digit (or two) can number."""
    parents = {
        "flat": [-1] * k, "star": [-1] + [0] * (k - 1), "binary": [-1] + [(i - 1) // 2 for i in range(1, k)],
        "pairs": [-1 if i % 3 == 0 else i - i % 3 for i in range(k)], "chain": list(range(-1, k - 1)),
        "nested star": [-1, 0] + [1] * (k - 2),
    }[shape]
    codes = [BIG_CODES[n][(i * (1 + n)) % 10] for i in range(k)]
    perm = tuple(range(k)) if n % 2 else tuple(range(k))[::-1]
    rec, tags = hard_event(parents, codes, statuses(parents, "plain"), [SHOWERS[(n + j) % 3] for j in range(k)], perm,
                           ("after", "mixed")[n // 2], n % 3, n % 2)
    judge(ctx, rec, parents, tags, (k, shape, n))


TARGETS = ((5,), (-5,), (5, -5), (24, 5), (-24,), (6, -6, 24, -24, 5), (1,), (1, 5), (-6, 11), ())


def gen_target(tier):
    for k in (1, 2, 3, 4):
        for parents in forests(k):
            for code in ("signs", "dups", "distinct"):
                for layout in ("after", "mixed"):
                    yield parents, code, layout


@C.family("targets", gen_target)
def targets(ctx, parents, code, layout):
    k = len(parents)
    perm = tuple(range(k))[::-1] if layout == "mixed" else tuple(range(k))
    rec, tags = hard_event(parents, CODES[code][:k], statuses(parents, "plain"), [SHOWERS[j % 4] for j in range(k)], perm, layout, 0, 1)
    ev = rec.graph()
    before = frozen(ev)
    hard = rec.hard_rows()
    for target in TARGETS:
        for sign, strict in it.product((False, True), repeat=2):
            fold = (lambda c: c) if sign else abs
            wanted = {fold(c) for c in target}
            rows = [i for i in hard if fold(rec.rows[i]["pdg"]) in wanted]
            missing = wanted - {fold(rec.rows[i]["pdg"]) for i in rows}
            for arg in (list(target), set(target)):
                args = ((ev, arg, sign, strict), {}), ((ev,), dict(target=arg, sign_sensitive=sign, strict=strict))
                for a, kw in args:
                    if not rows or (strict and missing):
                        require_raises(ValueError, f"target {target} sign {sign} strict {strict}", gcl.select.hard_descendants, *a, **kw)
                        continue
                    got = gcl.select.hard_descendants(*a, **kw)
                    names = unique_names([rec.rows[i]["pdg"] for i in rows])
                    exp = {nm: rec.desc(i) for nm, i in zip(names, rows)}
                    require(list(got) == names, "target {} sign {} strict {}: names {} not {}", target, sign, strict, list(got), names)
                    require(as_plain(got) == exp, "target {} sign {} strict {}: masks {} not {}", target, sign, strict, as_plain(got), exp)
                    ctx.ev((parents, code, layout, target, sign, strict) if len(rows) < len(hard) else None)
            # defaults
        fold = abs
        rows = [i for i in hard if abs(rec.rows[i]["pdg"]) in set(map(abs, target))]
        if rows and not set(map(abs, target)) - {abs(rec.rows[i]["pdg"]) for i in rows}:
            got = gcl.select.hard_descendants(ev, target)
            require(as_plain(got) == dict(zip(unique_names([rec.rows[i]["pdg"] for i in rows]), map(rec.desc, rows))), "default flags for {}", target)
        else:
            require_raises(ValueError, "default flags", gcl.select.hard_descendants, ev, target)
    require(frozen(ev) == before, "the event changed")
    ctx.outcome(len(hard))
