"""C05: copies are deep, complete and independent."""
from mc.core import Check
from mc.lockstep import explore
from mc.util import *

C = Check(
    "C05",
    "model_checking",
    "lockstep exploration of copy / write / read histories over up to three objects against a value-semantics model",
    "Every attribute subset is copied once and compared bitwise; for each attribute of each class, every history up to "
    "the depth over three slots is replayed on real objects next to immutable value tuples, and all slots are compared.",
    "state: values of each slot and which slots have cached derived quantities; transition: copy, write by one of four "
    "routes, or derived read; every history is replayed from scratch on the implementation",
    ["writes through one attribute at a time; two rows per object"],
)
PMU_DERIVED = ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")


def event(n, names, weighted, variant=0):
    raw = columns(n, variant)
    kw = {k: raw[k].copy() for k in names}
    if "edges" in kw and weighted:
        kw["weights"] = np.arange(n) + 0.5
    return gcl.Graphicle.from_numpy(**kw)


# ---------------------------------------------------------------- completeness
def gen_subsets(tier):
    for n in (1, 2, 4, 70, 1000) if tier != THOROUGH else (0, 1, 2, 3, 4, 5, 61, 300, 1000, 5000):
        for names in subsets(ATTRS):
            if n > 5 and 1 < len(names) < 6:
                continue
            for weighted in (False, True) if "edges" in names else (False,):
                yield n, names, weighted


def other_values(arr):
    if arr.dtype == bool:
        return ~arr
    return arr + 3


def poke(obj):
    """Overwrites every reachable buffer of an object through its views."""
    if isinstance(obj, gcl.Graphicle):
        poke(obj.particles)
        poke(obj.adj)
    elif isinstance(obj, gcl.ParticleSet):
        for nm in ATTRS[:-1]:
            poke(getattr(obj, nm))
    elif isinstance(obj, G):
        for v in obj.values():
            poke(v)
        obj["poked"] = [True]
        obj.agg_op = "none"
    elif isinstance(obj, M):
        obj.data[...] = ~obj.data
    else:
        data = obj.data
        for nm in data.dtype.names or ():
            data[nm] += 7
        if not data.dtype.names:
            data[...] += 7
        if isinstance(obj, gcl.AdjacencyList):
            obj.weights[...] += 7


@C.family("subsets", gen_subsets)
def subset_case(ctx, n, names, weighted):
    ev = event(n, names, weighted)
    singles = [getattr(ev, a) if a != "edges" else ev.adj for a in ATTRS]
    for obj in [ev, ev.particles, *singles]:
        before = frozen(obj)
        twin = obj.copy()
        require(type(twin) is type(obj), "copy of {} is {}", type(obj), type(twin))
        require(twin is not obj, "copy is the same object")
        require(frozen(twin) == before, "copy of {} differs:\n{!r}\n{!r}", type(obj).__name__, obj, twin)
        require(len(twin) == len(obj) and bool(twin) == bool(obj), "length or truth changed")
        third = twin.copy()
        poke(twin)
        require(frozen(obj) == before, "writing into the copy changed the original {}", type(obj).__name__)
        require(frozen(third) == before, "writing into the copy changed a copy of it {}", type(obj).__name__)
        fourth = obj.copy()
        poke(obj)
        require(frozen(third) == before and frozen(fourth) == before, "writing into the original changed a copy")
        ctx.ev((n, names, weighted, type(obj).__name__) if n else None)
        # restore for the enclosing composite
        obj_new = fourth
        if obj is ev:
            ev = obj_new
            singles = None
        ctx.outcome(type(obj).__name__)


def trees(depth):
    leaf = [("m", (True, False)), ("m", (False, False))]
    yield from leaf
    if depth:
        subs = list(trees(depth - 1))[:6]
        for op in ("and", "or", "none"):
            for r in range(3):
                for combo in it.product(subs, repeat=r):
                    yield ("g", op, tuple(zip("ab", combo)))


def build(t):
    if t[0] == "m":
        return M(list(t[1]))
    return G({k: build(v) for k, v in t[2]}, t[1])


@C.family("mask trees", lambda tier: ((t,) for t in trees(2 if tier != THOROUGH else 3) if t[0] == "g"))
def mask_trees(ctx, t):
    obj = build(t)
    before = frozen(obj)
    twin = obj.copy()
    ctx.ev(t)
    require(frozen(twin) == before and type(twin) is G, "copy of {} is {}", before, frozen(twin))
    third = twin.copy()
    poke(twin)
    require(frozen(obj) == before and frozen(third) == before, "copy shares masks with the original: {}", t)


@C.family("borrowed memory", lambda t: ((nm, n) for nm in CLASSES for n in (1, 2, 3, 9, 70)))
def borrowed(ctx, nm, n):
    """Objects which look into memory of somebody else: their copies do not."""
    for v in range(3):
        raw = columns(n, v)[nm] if v < 2 else limits(nm, n, n)
        for how, base, arr in sources(raw):
            for host in ("alone", "set", "event"):
                if nm == "edges" and host == "set":
                    continue
                one = CLASSES[nm](arr)
                if host == "alone":
                    obj = one
                elif nm == "edges":
                    obj = gcl.Graphicle(particles=gcl.ParticleSet(), adj=one)
                else:
                    obj = gcl.ParticleSet(**{nm: one})
                    obj = gcl.Graphicle(particles=obj) if host == "event" else obj
                before = frozen(obj)
                twin = obj.copy()
                third = twin.copy()
                leaf = (lambda o: o if host == "alone" else component(o, nm))
                require(frozen(twin) == before, "copy of {} on a {} array: {!r}", nm, how, twin)
                held = np.asarray(leaf(twin).data)
                require(not np.shares_memory(held, base) and not np.shares_memory(held, np.asarray(leaf(obj).data)), "copy of {} shares the memory of its {} source", nm, how)
                require(held.flags.writeable, "copy of {} on a {} array cannot be written", nm, how)
                base[...] = ~base if base.dtype == bool else 5
                require(frozen(twin) == before and frozen(third) == before, "writing into the {} source changed a copy of {}", how, nm)
                poke(twin)
                require(frozen(third) == before, "writing into a copy of {} changed its copy", nm)
                base[...] = np.resize(0, base.shape)
                ctx.ev((nm, n, v, how, host))
                # restore the source for the next host
                if how == "reversed":
                    base[...] = raw[::-1]
                elif how in ("strided", "read-only strided"):
                    base[...] = np.repeat(raw, 2, axis=0)
                elif how == "head":
                    base[...] = np.concatenate([raw, raw])
                else:
                    base[...] = raw.reshape(base.shape)
    ctx.outcome(nm)


# ------------------------------------------------------------------- histories
KINDS = ["pdg", "pmu", "color", "helicity", "status", "final", "edges", "weights"]


def get(kind, host, obj):
    if host == "event":
        return obj.adj if kind in ("edges", "weights") else getattr(obj, kind)
    if host == "set":
        return getattr(obj, kind)
    return obj


def values(kind, leaf):
    if kind == "weights":
        return tuple(np.asarray(leaf.weights).tolist())
    return tuple(map(tuple, cols(leaf).tolist())) if cols(leaf).ndim == 2 else tuple(cols(leaf).tolist())


def bump(kind, row, k):
    if kind == "final":
        return (not row) if k % 2 else row
    return tuple(v + k for v in row) if isinstance(row, tuple) else row + k


def model_write(kind, vals, route):
    if route == "view":
        return (bump(kind, vals[0], 1),) + vals[1:]
    if route == "setter" and kind == "final":
        return vals[:1] + tuple(not v for v in vals[1:])
    if route == "setter":
        return tuple(bump(kind, v, 3) for v in reversed(vals))
    if route == "inplace":
        return tuple(bump(kind, v, 5) for v in vals)
    if route == "replace":
        return tuple(bump(kind, v, 7) for v in vals)
    raise AssertionError(route)


def real_write(kind, host, obj, route, new):
    leaf = get(kind, host, obj)
    arr = np.array(new)
    if kind == "weights":
        if route == "view":
            leaf.weights[0] = new[0]
        elif route == "setter":
            leaf.weights = arr
        else:
            leaf.weights += 5
        return obj
    if route == "view":
        if kind == "final":
            leaf[0] = new[0]
        elif isinstance(new[0], tuple):
            for nm, v in zip(leaf.data.dtype.names, new[0]):
                leaf.data[nm][0] = v
        else:
            leaf.data[0] = new[0]
    elif route == "setter":
        leaf.data = arr
    elif route == "inplace":
        if kind == "final":
            np.logical_not(leaf, out=leaf)
        elif kind == "edges":
            np.add(leaf, 5, out=leaf)
        else:
            leaf += 5
    elif route == "replace":
        fresh = CLASSES[kind](arr)
        if host == "alone":
            return fresh
        if host == "set":
            setattr(obj, kind, fresh)
        elif kind == "edges":
            obj.adj = fresh
        else:
            setattr(obj.particles, kind, fresh)
    return obj


def start(kind, host):
    ev = event(2, ATTRS, True)
    if host == "event":
        return ev
    if host == "set":
        return ev.particles
    return ev.adj if kind in ("edges", "weights") else getattr(ev, kind)


def routes(kind, host):
    if kind == "weights":
        return ("view", "setter", "inplace")
    if kind == "edges":  # edge lists have no data setter; replacing drops the weights
        return ("view", "inplace") if host == "event" else ("view", "inplace", "replace")
    return ("view", "setter", "inplace", "replace")


def derived(kind, leaf):
    if kind == "pmu":
        return tuple(np.asarray(getattr(leaf, a)).tolist() for a in PMU_DERIVED)
    if kind in ("edges", "weights"):
        return (leaf.nodes.tolist(), leaf.matrix.tolist(), leaf.roots.data.tolist(), leaf.leaves.data.tolist())
    if kind == "status":
        return leaf.hard_mask.serialize()
    return None


def gen_hist(tier):
    depth = 5 if tier == THOROUGH else 4
    for kind in KINDS:
        for host in ("alone", "set", "event"):
            if host == "set" and kind in ("edges", "weights"):
                continue
            for e1 in enabled_for(kind, host, (((), False), None, None)):
                yield kind, host, e1, depth


def enabled_for(kind, host, model):
    out = []
    for i, s in enumerate(model):
        if s is None:
            continue
        for j in range(3):
            if j != i and (model[j] is not None or j == min(k for k in range(3) if model[k] is None)):
                out.append(("copy", i, j))
        for r in routes(kind, host):
            out.append(("write", i, r))
        if kind in ("pmu", "edges", "weights"):
            out.append(("read", i))
    return out


@C.family("histories", gen_hist)
def histories(ctx, kind, host, e1, depth):
    init = values(kind, get(kind, host, start(kind, host)))
    base = frozen(start(kind, host))

    def enabled(model):
        return enabled_for(kind, host, model)

    def model_step(model, ev):
        model = list(model)
        if ev[0] == "copy":
            model[ev[2]] = (model[ev[1]][0], False)
        elif ev[0] == "write":
            vals, stale = model[ev[1]]
            model[ev[1]] = (model_write(kind, vals, ev[2]), stale and kind == "weights" or stale and ev[2] == "view")
        else:
            model[ev[1]] = (model[ev[1]][0], True)
        return tuple(model)

    def real_step(real, ev):
        objs, model = real
        model = list(model)
        if ev[0] == "copy":
            objs[ev[2]] = objs[ev[1]].copy()
            model[ev[2]] = [model[ev[1]][0], False, False]
        elif ev[0] == "write":
            new = model_write(kind, model[ev[1]][0], ev[2])
            objs[ev[1]] = real_write(kind, host, objs[ev[1]], ev[2], new)
            # writes through views and in-place on weights bypass the object
            dirty = model[ev[1]][2] or (ev[2] == "view" and model[ev[1]][1])
            read = model[ev[1]][1]
            if ev[2] in ("setter", "inplace", "replace") and kind != "weights":
                read, dirty = False, False
            model[ev[1]] = [new, read, dirty]
        else:
            derived(kind, get(kind, host, objs[ev[1]]))
            model[ev[1]] = [model[ev[1]][0], True, model[ev[1]][2]]
        return [objs, model]

    def observe(real, model, hist):
        objs, shadow = real
        for i, s in enumerate(model):
            if s is None:
                continue
            leaf = get(kind, host, objs[i])
            got = values(kind, leaf)
            require(same(np.array(got), np.array(s[0])), "object {} holds {} instead of {} after {}", i, got, s[0], hist)
            if host != "alone":
                for nm in ATTRS[: -1 if host == "set" else None]:
                    if nm == kind or (nm == "edges" and kind == "weights"):
                        continue
                    require(
                        same(cols(component(objs[i], nm)), cols(component(start(kind, host), nm))),
                        "attribute {} of object {} changed by {}", nm, i, hist,
                    )
            if kind == "edges" and host != "alone":
                require(leaf.weights.tolist() == [0.5, 1.5], "weights of object {} lost after {}", i, hist)
            if not shadow[i][2]:
                if kind in ("pmu", "edges"):
                    fresh = CLASSES[kind](np.array(s[0]))
                    if kind == "edges":
                        fresh.weights = leaf.weights.copy()
                    want = derived(kind, fresh)
                    have = derived(kind, leaf)
                    for a, b in zip(have, want):
                        require(same(a, b), "derived quantities of object {} are {} instead of {} after {}", i, have, want, hist)
                elif kind == "status":
                    require(derived(kind, leaf) == derived(kind, CLASSES[kind](np.array(s[0]))), "hard mask after {}", hist)

    def real_init():
        return [[start(kind, host), None, None], [[init, False, False], None, None]]

    # the written values must differ from the start, or the histories test nothing
    require(all(model_write(kind, init, r) != init for r in routes(kind, host)), "harness: idle write")
    explore(
        ctx, [e1], enabled, model_step, lambda: ((init, False), None, None), real_init, real_step, observe,
        lambda m: m, depth,
    )
    require(frozen(start(kind, host)) == base, "harness: start state drifted")
    ctx.outcome((kind, host, e1[0]))


@C.family("cached quantities", lambda tier: ((a,) for a in PMU_DERIVED))
def cached(ctx, attr):
    """Derived arrays handed out by a copy are its own."""
    raw = columns(3)["pmu"]
    for first in (False, True):
        p = gcl.MomentumArray(raw.copy())
        want = np.array(getattr(gcl.MomentumArray(raw.copy()), attr))
        if first:
            getattr(p, attr)
        q = p.copy()
        getattr(q, attr)[...] = -99.0
        ctx.ev((attr, first))
        require(same(getattr(p, attr), want), "{} of the original changed through its copy", attr)
        require(same(getattr(p.copy(), attr), want), "{} of a new copy changed", attr)
