"""C34: printed forms show the structure of the data."""
import re

from mc.core import Check
from mc.util import *

C = Check(
    "C34",
    "exploration",
    "exhaustive enumeration of small mask trees and of array contents, parsing the printed forms back into their structure",
    "Every mask tree of up to three levels and three keys per level of a family, with every aggregation mode; every data class "
    "over lengths around numpy's wrapping and summarising thresholds; every attribute subset of composites.",
    "cases: tree, or class x length; non-trivial when there is something to print",
    ["white space and drawing characters are not part of the property, nor are trees too deep for the width of the terminal",
     "keys without line breaks, and short enough for the width of the terminal"],
)
KEYS = ("W+", "b~", "nu(e):0", "latent", "J/psi[3S1(8)]", "t", "g:12")


def shapes(depth, width):
    """Trees as nested tuples; () is a group without entries, None a mask."""
    if depth == 0:
        yield None
        return
    yield None
    subs = list(shapes(depth - 1, width))
    if len(subs) > 12:
        subs = subs[:: len(subs) // 12 + 1]
    for n in range(width + 1):
        yield from it.product(subs, repeat=n)


def build(shape, rot, ops, names):
    if shape is None:
        names.append(None)
        return M([True, False])
    op = ops[len(names) % len(ops)]
    names.append(op)
    return G({KEYS[(rot + i) % len(KEYS)]: build(s, rot + 2 * i + 1, ops, names) for i, s in enumerate(shape)}, agg_op=op)


def listing(group, depth=1):
    for k, v in group.items():
        yield depth, k
        if isinstance(v, G):
            yield from listing(v, depth + 1)


def parse_tree(text):
    lines = [ln for ln in text.split("\n") if ln.strip()]
    rows = []
    for ln in lines[1:]:
        m = re.match(r"^((?:[│ ]\s\s\s|    )*)(?:├──|└──)\s(.*)$", ln.replace("\u00a0", " ").rstrip() + " ")
        require(m is not None, "line {!r} of the tree", ln)
        rows.append((len(m.group(1)) // 4 + 1, m.group(2).rstrip()))
    return lines[0], rows


def gen(tier):
    for shape in shapes(3, 3 if tier == THOROUGH else 2):
        if shape is None:
            continue
        for rot in range(len(KEYS)):
            for ops in (("and",), ("or",), ("none",), ("or", "and", "none")):
                yield shape, rot, ops
    for n in (3, 4, 5, 7):
        for sub in ((), (None,), ((None, None), None), (((None,),),)):
            yield tuple(sub if i % 2 else None for i in range(n)), n, ("or",)


@C.family("trees", gen)
def trees(ctx, shape, rot, ops):
    g = build(shape, rot, ops, [])
    before = frozen(g)
    head, rows = parse_tree(str(g))
    require("MaskGroup" in head and g.agg_op.name in head, "head of the tree is {!r} for mode {}", head, g.agg_op)
    want = list(listing(g))
    require(rows == want, "the tree of {} is printed as {}", want, str(g))
    short = repr(g)
    require(re.findall(r'"([^"]*)"', short) == list(g) and short.startswith("MaskGroup(") and f"agg_op={g.agg_op.name}" in short,
            "the short form of {} is {}", list(g), short)
    require(str(g.copy()) == str(g) and frozen(g) == before, "printing changes the group, or a copy prints differently")
    ctx.ev((shape, rot, ops) if shape else None)
    ctx.outcome(len(rows))


@C.family("deep trees", lambda t: ((d, w) for d in (4, 6, 10) for w in (1, 2)))
def deep(ctx, d, w):
    g = M([True])
    for i in range(d):
        g = G({KEYS[(i + j) % 7]: g if j == i % w else M([False]) for j in range(w)}, agg_op=("or", "and")[i % 2])
    _, rows = parse_tree(str(g))
    require(rows == list(listing(g)), "the tree of depth {} is printed as {}", d, str(g))
    ctx.ev((d, w))


ODD = ("x[bold]y", "[/]", "[red]", "[0]", "a:b:c", ":warning:", "\\[b]", "{0}", "%s", "a b", "t~'s", "ν(μ)", "[link=x]y[/link]", "├──", "Ω", "#1", "a\\n")


@C.family("odd keys", lambda t: ((k, s) for k in range(len(ODD)) for s in range(3)))
def odd(ctx, k, s):
    """Keys that mean something to a console, at every level."""
    one, two = ODD[k], ODD[(k + 1 + s) % len(ODD)]
    for g in (G({one: M([True])}), G({two: M([True]), one: G({two: M([False]), "b": G({one: M([True]), two: M([True])})}), "b": M([True])}, agg_op="or")):
        head, rows = parse_tree(str(g))
        require(g.agg_op.name in head, "head {!r}", head)
        require(rows == list(listing(g)), "the tree of {} is printed as {}", list(listing(g)), str(g))
        require(repr(g) == f"MaskGroup(masks=[{', '.join(chr(34) + x + chr(34) for x in g)}], agg_op={g.agg_op.name})" or all(x in repr(g) for x in g), "short form {}", repr(g))
        ctx.ev((k, s, len(rows)))


EMPTYISH = ("", "0", "None", "False", "_", "agg_op", "masks", "none")


@C.family("empty and falsy keys", lambda t: ((ks, op) for r in (1, 2, 3) for ks in it.permutations(EMPTYISH, r) for op in ("and", "or", "none")))
def emptyish(ctx, ks, op):
    """The empty string is a key like any other."""
    g = G({k: M([True]) for k in ks}, agg_op=op)
    require(re.findall(r'"([^"]*)"', repr(g)) == list(ks) and repr(g).endswith(f"agg_op={op.upper()})"), "short form of {} is {}", ks, repr(g))
    outer = G({"in": g, ks[0] + "x": M([False])}, agg_op=op)
    for tree in (g, outer):
        head, rows = parse_tree(str(tree))
        require(op.upper() in head and rows == list(listing(tree)), "the tree of {} is printed as {}", list(listing(tree)), str(tree))
    ctx.ev((ks, op))


@C.family("many keys", lambda t: ((n, s) for n in (8, 9, 10, 11, 15, 16, 17, 32, 33, 50, 64, 65, 100, 101, 129, 257, 300, 1001) for s in range(3)))
def many(ctx, n, s):
    """Groups of any number of masks list them all."""
    g = G({f"key{i * 7 % n}_{i}": M([bool(i % 2)] * (1 if s else 70)) for i in range(n)}, agg_op=("or", "and", "none")[s])
    tree = g if s < 2 else G({"x": M([True]), "in": g, "y": M([False])})
    _, rows = parse_tree(str(tree))
    require(rows == list(listing(tree)), "the tree of {} keys is printed as {} lines", n, len(rows))
    require(re.findall(r'"([^"]*)"', repr(g)) == list(g), "the short form of {} keys is {}", n, repr(g))
    ctx.ev((n, s))


@C.family("long keys", lambda t: ((n, d) for n in (20, 60, 75, 78, 80, 90, 100, 120, 150, 170, 180) for d in (0, 1, 2, 3)))
def long_keys(ctx, n, d):
    """Keys up to the width of the terminal, at every level."""
    g = M([True])
    for i in range(d + 1):
        a, b = "".join(chr(97 + (i + k) % 26) for k in range(n)), " ".join(f"{k % 10}{'xyz'[(k + i) % 3]}" for k in range(n // 3))
        g = G({a: g, b: M([False]), "s" + b[: n - 1]: G({a: M([True])})}, agg_op=("or", "and", "none")[(i + n) % 3])
    _, rows = parse_tree(str(g))
    require(rows == list(listing(g)), "the tree with keys of {} characters is printed as {}", n, str(g))
    require(re.findall(r'"([^"]*)"', repr(g)) == list(g), "the short form with keys of {} characters is {}", n, repr(g))
    ctx.ev((n, d))


def squeeze(text):
    return re.sub(r"\s+", "", text)


def check_array(obj, nm, raw):
    text = repr(obj)
    cls = type(obj).__name__
    require(text.startswith(cls + "(") and text.endswith(")"), "printed form {!r}", text)
    require(squeeze(text) == squeeze(f"{cls}({str(raw)},dtype={obj.data.dtype})"), "{} of {} is printed as {}", cls, raw.tolist()[:6], text)
    require(str(obj) == text, "two printed forms of {}", cls)


@C.family("arrays", lambda t: ((nm, n, v) for nm in ATTRS for n in (0, 1, 2, 3, 7, 30, 60, 61, 250, 251, 999, 1000, 1001, 2500) for v in range(4)))
def arrays(ctx, nm, n, v):
    raw = columns(n, v)[nm]
    if v == 3:
        raw = raw[::-1].copy()
    obj = CLASSES[nm](raw.copy())
    raw = cols(obj)
    if n == 0:
        require(type(obj).__name__ in repr(obj), "empty array prints {!r}", repr(obj))
        return
    check_array(obj, nm, raw)
    check_array(obj[: n // 2 + 1], nm, raw[: n // 2 + 1])
    ctx.ev((nm, n, v))
    ctx.outcome(n)


OPTIONS = (
    {"precision": 3}, {"precision": 17}, {"threshold": 5, "edgeitems": 1}, {"threshold": 10**6}, {"linewidth": 30}, {"suppress": True},
    {"edgeitems": 5}, {"sign": "+"}, {"floatmode": "fixed", "precision": 2}, {"nanstr": "none", "infstr": "big"}, {"formatter": {"int": hex}},
)


@C.family("print options", lambda t: ((o, nm, n) for o in range(len(OPTIONS)) for nm in ATTRS for n in (1, 7, 60, 1200)))
def print_options(ctx, o, nm, n):
    """The user's numpy print options govern the numbers shown, and printing leaves the options alone."""
    raw = columns(n, 1)[nm]
    obj = CLASSES[nm](raw.copy())
    raw = cols(obj)
    with np.printoptions(**OPTIONS[o]):
        keep = np.get_printoptions()
        check_array(obj, nm, raw)
        require(np.get_printoptions() == keep, "printing changes the print options")
        if nm == "pmu":
            check_array(gcl.MomentumArray(np.array([[math.nan, 1 / 3, -math.inf, 1e9]])), nm, np.array([[math.nan, 1 / 3, -math.inf, 1e9]]))
    check_array(obj, nm, raw)
    ctx.ev((o, nm, n))


@C.family("values", lambda t: ((v,) for v in (0.0, -0.0, 1e-300, 1e300, math.nan, math.inf, -math.inf, 1 / 3, -2e-5, 123456789.125)))
def values(ctx, v):
    raw = np.array([[v, 1.0, -2.5, v], [3.0, v, v, 1e5]])
    check_array(gcl.MomentumArray(raw), "pmu", raw)
    ctx.ev(repr(v))


@C.family("composites", lambda t: ((n, s) for n in (1, 3, 80) for s in subsets(ATTRS)))
def composites(ctx, n, s):
    cs = columns(n, 1)
    ev = gcl.Graphicle.from_numpy(**{k: cs[k].copy() for k in s})
    text, at = squeeze(repr(ev.particles)), -1
    for nm in ATTRS[:-1]:
        part = squeeze(repr(getattr(ev, nm)))
        where = text.find(part, at + 1)
        require(where > at, "{} is missing from the printed particle set, or out of order", nm)
        at = where
    whole = squeeze(repr(ev))
    require(text in whole and squeeze(repr(ev.adj)) in whole and whole.startswith("Graphicle("), "the printed event lacks a part")
    ctx.ev((n, s) if s else None)
    ctx.outcome(len(s))
