"""C21: colour singlets are exactly the colour-matched groups."""
from mc.core import Check
from mc.util import *

C = Check(
    "C21",
    "exploration",
    "exhaustive enumeration of colour flows over up to five outgoing partons against a subset-enumeration oracle",
    "Every assignment of colour / anticolour codes from {0, 1, 2} to up to four outgoing partons (three codes, five partons in the "
    "thorough tier, quark and gluon codes in the quick one), with leaf orders differing from row orders, shower rows carrying other "
    "colours, and leaves without an outgoing parton.",
    "cases: colour assignment x leaf order; non-trivial when there is a singlet",
    ["the order of the inverted search is not prescribed", "each leaf holds at most one outgoing parton, as leaves of the hierarchy do"],
)
TAGS = (0, 501, 502, 503)
NAMES = ("b", "W-:1", "g:0", "q", "t~")


def oracle(colors):
    """colors: list of (name, (c, a)) in leaf order."""
    coloured = [(nm, ca) for nm, ca in colors if ca != (0, 0)]
    out = []
    for r in (2, 3):
        for grp in it.combinations(coloured, r):
            if {c for _, (c, _) in grp} == {a for _, (_, a) in grp}:
                out.append(tuple(nm for nm, _ in grp))
    members = {nm for g in out for nm in g}
    return out, sorted(nm for nm, _ in coloured if nm not in members)


def judge(ctx, colors, leaf_order, row_order, extra, neg, key):
    """Row 0.. are incoming and shower rows, the partons lie scattered between them."""
    n = len(colors)
    rows = []  # (status, colour, owner)
    rows.append((-21, (501, 502), None))
    for j in row_order:
        rows.append((-51, (502, 0), j))
        rows.append((-23 if neg else 23, colors[j], j))
        rows.append((62, (0, 501), j))
    rows.append((-22, (501, 501), None))
    size = len(rows) + (1 if extra else 0)
    if extra:
        rows.append((-22 if extra == 1 else 24, (501, 0), "x"))
    status = gcl.StatusArray([r[0] for r in rows])
    color = gcl.ColorArray(np.array([r[1] for r in rows], dtype=np.int32).reshape(size, 2))
    leaves = {}
    order = list(leaf_order)
    if extra:
        order.insert(extra % (n + 1) if n else 0, "x")
    for j in order:
        leaves[NAMES[j] if j != "x" else "H0"] = M([r[2] == j for r in rows])
    leaves = G(leaves, agg_op="or")
    before = frozen(leaves), frozen(status), frozen(color)
    want, outcasts = oracle([(NAMES[j], colors[j]) for j in leaf_order])
    for _ in range(2):
        got = gcl.select.color_singlets(leaves, status, color)
        require(sorted(got) == sorted(want), "colours {} order {}: singlets {} not {}", colors, leaf_order, got, want)
        require(sorted(gcl.select.color_singlets(leaves, status, color, invert=False)) == sorted(want), "invert=False")
        inv = gcl.select.color_singlets(leaves, status, color, True)
        require(sorted(inv) == [(nm,) for nm in outcasts], "colours {} order {}: inverted {} not {}", colors, leaf_order, inv, outcasts)
        require(sorted(gcl.select.color_singlets(leaves=leaves, status=status, color=color, invert=True)) == sorted(inv), "keyword call")
    require((frozen(leaves), frozen(status), frozen(color)) == before, "inputs changed")
    ctx.ev(key if want else None)
    ctx.outcome((len(want), len(outcasts)))


def orders(n):
    o = tuple(range(n))
    return ((o, o), (o[::-1], o), (o[1:] + o[:1], o[::-1]))


def gen(tier):
    deep = tier == THOROUGH
    for n in range(5):
        for c in it.product(it.product(TAGS[:3], repeat=2), repeat=n):
            for leaf, row in orders(n) if n < 4 or deep else orders(n)[hash(c) % 3 : hash(c) % 3 + 1]:
                yield c, leaf, row, 0
    quarks = ((501, 0), (0, 501), (502, 0), (0, 502), (501, 502), (502, 501), (0, 0))
    if deep:
        quarks += ((503, 0), (0, 503), (502, 503), (503, 501))
    for c in it.product(quarks, repeat=5):
        leaf, row = orders(5)[hash(c) % 3]
        yield c, leaf, row, 0


@C.family("colour flows", gen)
def colour_flows(ctx, colors, leaf, row, extra):
    judge(ctx, colors, leaf, row, extra, sum(map(sum, colors)) % 2, (colors, leaf, row))


def gen_extra(tier):
    for n in (1, 2, 3):
        for c in it.product(((501, 0), (0, 501), (501, 502), (502, 0), (0, 0)), repeat=n):
            for leaf, row in orders(n):
                for extra in range(1, n + 2):
                    yield c, leaf, row, extra


@C.family("leaves without outgoing parton", gen_extra)
def no_outgoing(ctx, colors, leaf, row, extra):
    judge(ctx, colors, leaf, row, extra, 0, (colors, leaf, row, extra))


def gen_many(tier):
    """Colour lines of larger final states: chains, loops and loose ends."""
    for n in range(6, 13 if tier == THOROUGH else 10):
        for cut in range(1, n):
            for twist in range(6):
                yield n, cut, twist


@C.family("many partons", gen_many)
def many(ctx, n, cut, twist):
    # partons up to ``cut`` form open strings of length 2 + twist % 3, the others closed loops of 2 or 3
    codes = [101 * (k + 1) for k in range(n + 1)]
    if twist == 4:
        codes = [2**31 - 1 - k for k in range(n + 1)]
    if twist == 5:
        codes = [5, 7] * n
    cols_ = []
    k = 0
    while k < cut:
        size = min(2 + twist % 3, cut - k)
        for j in range(size):
            cols_.append((codes[k + j] if j < size - 1 else 0, codes[k + j - 1] if j else 0))
        k += size
    while k < n:
        size = min(2 + twist % 2, n - k)
        for j in range(size):
            cols_.append((codes[k + j], codes[k + (j - 1) % size]))
        k += size
    names = [f"p{(j * 5) % 7}:{j}" for j in range(n)]
    order = [(j * 5 + twist) % n for j in range(n)] if n % 5 else list(range(n))[::-1]
    colors = [(names[j], cols_[j]) for j in order]
    rows = [(-21, (codes[0], codes[1]), None)] + [(23, cols_[j], j) for j in range(n)] + [(-51, (codes[0], 0), j) for j in range(n)]
    status = gcl.StatusArray([r[0] for r in rows])
    color = gcl.ColorArray(np.array([r[1] for r in rows], dtype="<i4"))
    leaves = G({names[j]: M([r[2] == j for r in rows]) for j in order}, agg_op="or")
    want, outcasts = oracle(colors)
    got = gcl.select.color_singlets(leaves, status, color)
    require(sorted(got) == sorted(want), "colours {}: singlets {} not {}", colors, got, want)
    inv = gcl.select.color_singlets(leaves, status, color, True)
    require(sorted(inv) == [(nm,) for nm in outcasts], "colours {}: inverted {} not {}", colors, inv, outcasts)
    ctx.ev((n, cut, twist) if want else None)
    ctx.outcome((len(want), len(outcasts)))
