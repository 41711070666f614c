"""C03: restructuring nested masks preserves every mask."""
from mc.core import Check
from mc.util import *

C = Check(
    "C03",
    "exploration",
    "exhaustive enumeration of mask trees against recursive reference definitions",
    "All trees up to the bound on nodes and depth, all 'latent' placements below the top level, all and/or/none "
    "aggregations, with leaf values covering the full joint truth table of the leaves.",
    "cases: a tree; non-trivial when it has at least one nested group",
    ["names other than 'latent' are unique in a tree, as the hierarchy guarantees", "nested groups are non-empty"],
)


def shapes(budget, depth, top=False):
    """Groups as tuples of children; a child is 'leaf', 'latent' or a group."""

    def forests(b, latent_ok):
        yield ()
        if b <= 0:
            return
        for first in children(b, latent_ok):
            used = size(first)
            for rest in forests(b - used, latent_ok and first != "latent"):
                yield (first,) + rest

    def children(b, latent_ok):
        yield "leaf"
        if latent_ok:
            yield "latent"
        if depth > 1 and b >= 2:
            for g in shapes(b - 1, depth - 1):
                yield g

    for f in forests(budget, not top):
        if f:
            yield f


def size(x):
    return 1 if isinstance(x, str) else 1 + sum(map(size, x))


def groups(x):
    return 0 if isinstance(x, str) else 1 + sum(map(groups, x))


def leaves(x):
    return 1 if isinstance(x, str) else sum(map(leaves, x))


def label(shape, aggs, values):
    """Concrete model: ('g', agg, ((key, node),...)) with unique names."""
    names = iter(("a", "b", "latent-", "Latent", "", "latent latent", "laten") + tuple("hijklmnop"))
    aggs, values = iter(aggs), iter(values)

    def build(x):
        if isinstance(x, str):
            return ("m", next(values))
        a = next(aggs)
        items = []
        for ch in x:
            key = "latent" if ch == "latent" else next(names)
            items.append((key, build(ch)))
        return ("g", a, tuple(items))

    return build(shape)


def table(k):
    return [tuple(bool((r >> i) & 1) for r in range(2**k)) for i in range(k)]


def realise(nd):
    if nd[0] == "m":
        return M(list(nd[1]))
    g = G(agg_op=nd[1])
    for k, v in nd[2]:
        g[k] = realise(v)
    return g


def agg(nd):
    if nd[0] == "m":
        return nd[1]
    comb = all if nd[1] == "and" else any
    return tuple(comb(c) for c in zip(*(agg(v) for _, v in nd[2])))


def rise(nd):
    out = []
    for k, v in nd[2]:
        if k == "latent":
            continue
        out.append((k, agg(v)))
        if v[0] == "g":
            out += rise(v)
    return out


def innermost(nd):
    out = []
    for k, v in nd[2]:
        if v[0] == "m":
            if k != "latent":
                out.append((k, v[1]))
        else:
            out += innermost(v)
    return out


def drop(nd, key):
    return ("g", nd[1], tuple((k, v if v[0] == "m" else drop(v, key)) for k, v in nd[2] if k != key))


def serial(nd):
    return tuple(nd[1]) if nd[0] == "m" else {k: serial(v) for k, v in nd[2]}


def flat(g):
    require(all(isinstance(v, M) for v in g.values()), "nested mask left after flattening")
    return [(k, tuple(v.data.tolist())) for k, v in g.items()]


def struct(g):
    if isinstance(g, M):
        return ("m", tuple(g.data.tolist()))
    return ("g", g.agg_op.value, tuple((k, struct(v)) for k, v in g.items()))


def ref_equal(x, y, order):
    if x[0] != y[0]:
        return False
    if x[0] == "m":
        return x[1] == y[1]
    kx, ky = [k for k, _ in x[2]], [k for k, _ in y[2]]
    if (kx != ky) if order else (sorted(kx) != sorted(ky)):
        return False
    dy = dict(y[2])
    return all(ref_equal(v, dy[k], order) for k, v in x[2])


def gen_trees(tier):
    budget, depth = (7, 4) if tier == THOROUGH else (6, 3)
    for b in range(1, budget + 1):
        for shape in shapes(b, depth, top=True):
            if size(shape) == b + 1:
                yield (shape,)


def nd_groups(nd):
    return 0 if nd[0] == "m" else 1 + sum(nd_groups(v) for _, v in nd[2])


def judge(ctx, nd, shape, top, aggs):
    ctx.ev((shape, top, aggs) if nd_groups(nd) > 1 else None)
    g = realise(nd)
    before = struct(g)
    require(before == nd, "construction changed the tree: {}", before)
    got = g.flatten()
    require(flat(got) == rise(nd), "flatten rise of {} gave {}", nd, flat(got))
    require(got.agg_op is g.agg_op, "flatten rise changed the aggregation")
    require(flat(g.flatten("rise")) == rise(nd), "flatten('rise')")
    got = g.flatten("agg")
    require(flat(got) == [(key, agg(v)) for key, v in nd[2]], "flatten agg of {} gave {}", nd, flat(got))
    require(got.agg_op.value == "or", "flatten agg aggregation")
    got = g.flatten("leaves")
    require(flat(got) == innermost(nd), "flatten leaves of {} gave {}", nd, flat(got))
    require(got.agg_op is g.agg_op, "flatten leaves changed the aggregation")
    got = gcl.select.leaf_masks(g)
    require(flat(got) == innermost(nd), "leaf masks of {} gave {}", nd, flat(got))
    require(g.serialize() == serial(nd), "serialised {}", g.serialize())
    require(g.equal_to(g.copy()) and g.equal_to(g.copy(), check_order=True), "a copy is not equal")
    require(struct(g) == before, "a query changed the tree {}", nd)
    for key in ("latent", "a", "b", "latent-", "zz"):
        ctx.ev((shape, top, aggs, key) if nd_groups(nd) > 1 else None)
        h = realise(nd)
        got = h.recursive_drop(key)
        require(struct(got) == drop(nd, key), "dropping {} from {} gave {}", key, nd, struct(got))
        require(struct(h) == before and got is not h, "dropping {} changed its input", key)
        same_obj = h.recursive_drop(key, inplace=True)
        require(same_obj is h and struct(h) == drop(nd, key), "dropping {} in place gave {}", key, struct(h))
    h = realise(nd)
    require(struct(h.recursive_drop()) == drop(nd, "latent"), "default drop")


@C.family("restructuring", gen_trees)
def restructuring(ctx, shape):
    k = leaves(shape)
    values = table(k) if k <= 4 else [tuple((i >> j) & 1 == 1 for i in range(2**4)) if j < 4 else tuple((i * (j + 3)) % 5 < 2 for i in range(2**4)) for j in range(k)]
    n_groups = groups(shape)
    for aggs in it.product(("and", "or"), repeat=n_groups - 1):
        for top in ("and", "or", "none"):
            nd = label(shape, (top,) + aggs, values)
            judge(ctx, nd, shape, top, aggs)
    ctx.outcome(("groups", n_groups, "leaves", k))


@C.family("masks of few particles", lambda t: ((shape, n) for b in range(1, 6 if t == THOROUGH else 5) for shape in shapes(b, 3, top=True) if size(shape) == b + 1 for n in (0, 1)))
def few(ctx, shape, n):
    """Masks without particles, with one, all false or all true."""
    k = leaves(shape)
    for fill in ((False, True) if n else (False,)):
        for aggs in it.product(("and", "or"), repeat=groups(shape) - 1):
            for top in ("and", "or", "none"):
                judge(ctx, label(shape, (top,) + aggs, [(fill,) * n] * k), (shape, n, fill), top, aggs)
    ctx.outcome((n, k))


def small_trees():
    """Trees over keys a, b with length-1 leaves, in every key order."""
    leaf = [("m", (True,)), ("m", (False,))]
    level1 = []
    for keys in (("a",), ("b",), ("a", "b"), ("b", "a")):
        for vals in it.product(leaf, repeat=len(keys)):
            level1.append(("g", "and", tuple(zip(keys, vals))))
    out = list(level1)
    pick = level1[:2] + level1[4:8] + level1[8:10]
    for keys in (("a",), ("a", "b"), ("b", "a")):
        for vals in it.product(leaf + pick, repeat=len(keys)):
            if any(v[0] == "g" for v in vals):
                out.append(("g", "or", tuple(zip(keys, vals))))
    deep = [("g", "or", (("a", t),)) for t in out[-4:]] + [("g", "and", (("c", t), ("a", leaf[0]))) for t in out[-6:]]
    return out + deep


def gen_equal(tier):
    yield from ((i,) for i in range(len(small_trees())))


@C.family("equality", gen_equal)
def equality(ctx, i):
    trees = small_trees()
    x = realise(trees[i])
    for j, t in enumerate(trees):
        y = realise(t)
        for order in (False, True):
            want = ref_equal(trees[i], t, order)
            ctx.ev((i, j, order))
            ctx.outcome(want)
            got = x.equal_to(y, check_order=order)
            require(bool(got) == want, "equal_to({}, {}, check_order={}) gave {}", trees[i], t, order, got)
        require(x.equal_to(y) == y.equal_to(x), "equality is not symmetric")


def gen_overlap(tier):
    for k in range(0, 5 if tier == THOROUGH else 4):
        for n in range(1, 4):
            if k * n <= 9:
                yield k, n


@C.family("overlap", gen_overlap)
def overlap(ctx, k, n):
    for vals in it.product(list(bits(n)), repeat=k):
        want = any(x and y for a, b in it.combinations(vals, 2) for x, y in zip(a, b))
        ctx.ev((k, n, vals) if k > 1 else None)
        ctx.outcome(want)
        for agg_op in ("and", "or"):
            g = G({f"m{i}": list(v) for i, v in enumerate(vals)}, agg_op)
            got = gcl.select.any_overlap(g)
            require(bool(got) == want, "overlap of {} gave {}", vals, got)
        if k >= 2:
            nested = G({"g": {"p": list(vals[0]), "q": [True] * n}, "h": list(vals[1])})
            for i, v in enumerate(vals[2:]):
                nested[f"r{i}"] = list(v)
            require(bool(gcl.select.any_overlap(nested)) == want, "nested overlap of {}", vals)


def gen_structured(tier):
    for k in range(1, 4):
        for n in range(0, 4):
            yield k, n


@C.family("structured arrays", gen_structured)
def structured(ctx, k, n):
    for names in it.permutations(("b", "a", "W+", "latent")[: k + 1], k):
        for rows in it.islice(it.product(list(bits(k)), repeat=n), 600):
            arr = np.array([tuple(r) for r in rows], dtype=[(nm, "<?") for nm in names])
            g = G.from_numpy_structured(arr)
            ctx.ev((names, rows) if n else None)
            require(list(g) == list(names), "fields {} became keys {}", names, list(g))
            for i, nm in enumerate(names):
                require(g[nm].data.tolist() == [r[i] for r in rows], "field {} of {}", nm, rows)


def gen_large(tier):
    for n in (1, 2, 65, 300):
        for deep in (1, 2, 5, 9):
            for wide in (1, 3, 20):
                for style in range(4):
                    yield n, deep, wide, style


@C.family("deep and wide trees", gen_large)
def large_trees(ctx, n, deep, wide, style):
    """Chains of groups, several masks per level, names in no particular order."""
    count = iter(range(10**6))

    def mask():
        i = next(count)
        return ("m", tuple((i * 7 + j * (i % 5 + 1)) % 9 < 3 for j in range(n)))

    def name():
        i = next(count)
        return f"{'zaWb~'[i % 5]}{(i * 37) % 101}.{i}"

    def build(level):
        items = [(name(), mask()) for _ in range(wide)]
        if style != 0 and level:
            items.insert((level * 3 + style) % (len(items) + 1), ("latent", mask()))
        if level < deep:
            items.insert(len(items) // 2, (name(), build(level + 1)))
            if style == 2 and level < 2:
                items.append((name(), build(level + 1)))
        if style == 3:
            items = items[::-1]
        return ("g", ("or", "and")[(level + style) % 2] if level or style else "none", tuple(items))

    nd = build(0)
    g = realise(nd)
    before = struct(g)
    ctx.ev((n, deep, wide, style))
    require(before == nd, "construction changed the tree")
    require(flat(g.flatten()) == rise(nd), "flatten of a large tree")
    require(flat(g.flatten("agg")) == [(k, agg(v)) for k, v in nd[2]], "flatten agg of a large tree")
    require(flat(g.flatten("leaves")) == innermost(nd) == flat(gcl.select.leaf_masks(g)), "leaves of a large tree")
    require(g.serialize() == serial(nd), "serialisation of a large tree")
    for key in ("latent", nd[2][0][0]):
        require(struct(g.recursive_drop(key)) == drop(nd, key), "dropping {} from a large tree", key)
    twin = g.copy()
    for order in (False, True):
        require(g.equal_to(twin, check_order=order), "a copy of a large tree differs")
    # one changed value anywhere makes them different
    node_, path = twin, []
    while isinstance(node_, G):
        keys_ = list(node_)
        key = next((k for k in keys_ if isinstance(node_[k], G)), keys_[-1])
        path.append(key)
        node_ = node_[key]
    node_[n - 1] = not node_.data[n - 1]
    require(not g.equal_to(twin) and not twin.equal_to(g), "trees that differ at {} compare equal", path)
    names = [k for k, v in innermost(nd)]
    want = any(sum(c) > 1 for c in zip(*(v for _, v in innermost(nd))))
    require(bool(gcl.select.any_overlap(gcl.select.leaf_masks(g))) == want, "overlap of {} masks", len(names))
    require(struct(g) == before, "a query changed a large tree")
