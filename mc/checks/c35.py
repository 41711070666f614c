"""C35: pickles and standard-library copies round-trip."""
import copy
import pickle

from mc.core import Check
from mc.checks.c05 import build as build_tree, event, poke, trees
from mc.util import *

C = Check(
    "C35",
    "model_checking",
    "exhaustive enumeration of attribute subsets, mask trees, transports and read / transport / write histories against value semantics",
    "Every attribute subset at several lengths through every pickle protocol and the copy module; for momenta and edge lists "
    "every history of a set of reads, a transport, reads on either side and a write on either side, all derived quantities recomputed.",
    "state: values of the two objects and which derived quantities each has been asked for; transitions: read, transport, write; "
    "every history is replayed on real objects",
    ["copy.copy, whose sharing of buffers is not prescribed, is only required to be equal"],
)
TRANSPORTS = tuple(range(2, pickle.HIGHEST_PROTOCOL + 1)) + ("deep", "shallow", "nested", "twice")
PMU = ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")
ADJ = ("nodes", "roots", "leaves", "matrix", "sparse", "descend")


def send(obj, how):
    if how == "deep":
        return copy.deepcopy(obj)
    if how == "shallow":
        return copy.copy(obj)
    if how == "nested":
        return pickle.loads(pickle.dumps({"a": [obj, (obj,)]}))["a"][1][0]
    if how == "twice":
        return copy.deepcopy(pickle.loads(pickle.dumps(obj)))
    return pickle.loads(pickle.dumps(obj, protocol=how))


def read(obj, what):
    if what == "sparse":
        return obj.to_sparse().toarray()
    if what == "descend":
        return np.array([gcl.select.vertex_descendants(obj, int(v)).data for v in np.unique(cols(obj))])
    got = getattr(obj, what)
    return np.array(got.data if isinstance(got, M) else got)


def names_of(obj):
    return PMU if isinstance(obj, gcl.MomentumArray) else ADJ if isinstance(obj, gcl.AdjacencyList) else ()


def fresh(obj):
    return gcl.AdjacencyList(cols(obj).copy(), obj.weights.copy()) if isinstance(obj, gcl.AdjacencyList) else type(obj)(cols(obj).copy())


def check_derived(obj, what):
    if len(obj):
        new = fresh(obj)
        for nm in names_of(obj):
            require(close(read(obj, nm).astype(float), read(new, nm).astype(float), rtol=1e-12), "{} is stale: {}", nm, what)


def parts(obj):
    if isinstance(obj, gcl.Graphicle):
        yield from parts(obj.particles)
        yield obj.adj
    elif isinstance(obj, gcl.ParticleSet):
        for nm in ATTRS[:-1]:
            yield getattr(obj, nm)
    else:
        yield obj


def gen(tier):
    for n in (0, 1, 4, 65):
        for names in subsets(ATTRS):
            if n == 65 and 1 < len(names) < 6:
                continue
            for weighted in (False, True) if "edges" in names and n else (False,):
                yield n, names, weighted


@C.family("subsets", gen)
def subset_case(ctx, n, names, weighted):
    for how in TRANSPORTS:
        for readfirst in (False, True):
            ev = event(n, names, weighted, 1)
            for obj in (ev, ev.particles, *parts(ev)):
                if readfirst:
                    for part in parts(obj):
                        for nm in names_of(part) if len(part) else ():
                            read(part, nm)
                before = frozen(obj)
                twin = send(obj, how)
                require(type(twin) is type(obj) and frozen(twin) == before, "{} by {} becomes {!r}", type(obj).__name__, how, twin)
                require(frozen(obj) == before and len(twin) == len(obj) and bool(twin) == bool(obj), "transport by {} changed {}", how, type(obj).__name__)
                for part in parts(twin):
                    check_derived(part, (how, readfirst))
                ctx.ev((n, names, weighted, how, type(obj).__name__) if n and names else None)
            if how == "shallow":
                continue
            for obj in (ev, *parts(ev)):
                twin, before = send(obj, how), frozen(obj)
                poke(twin)
                require(frozen(obj) == before, "writing into the {} transported by {} changed the original", type(obj).__name__, how)
                twin = send(obj, how)
                keep = frozen(twin)
                poke(obj)
                require(frozen(twin) == keep, "writing into the original changed the {} transported by {}", type(obj).__name__, how)
    ctx.outcome((n, len(names)))


@C.family("mask trees", lambda tier: ((t,) for t in trees(2 if tier != THOROUGH else 3) if t[0] == "g"))
def mask_trees(ctx, t):
    for how in TRANSPORTS:
        obj = build_tree(t)
        before = frozen(obj)
        twin = send(obj, how)
        require(type(twin) is G and frozen(twin) == before and frozen(obj) == before, "{} by {} is {}", before, how, frozen(twin))
        require(list(twin) == list(obj) and twin.agg_op is obj.agg_op, "keys or mode of {}", twin)
        if how != "shallow":
            poke(twin)
            require(frozen(obj) == before, "writing into the tree transported by {} changed the original", how)
            twin = send(obj, how)
            poke(obj)
            require(frozen(twin) == before, "writing into the original changed the tree transported by {}", how)
        ctx.ev((t, how) if t[2] else None)
    ctx.outcome(len(t[2]))


ORDERED = ("b", "a", "W+", "", "0", "latent", "~z", "B")


@C.family("key orders", lambda tier: ((ks, ops) for r in (2, 3) + ((4,) if tier == THOROUGH else ()) for ks in it.permutations(ORDERED, r)
                                       for ops in (("and", "or"), ("or", "none"), ("none", "and"))))
def key_orders(ctx, ks, ops):
    """Keys in every order, at two levels, with the orders of the levels opposed; after edits of the order too."""
    for how in TRANSPORTS:
        inner = G({k: M([bool(i % 2), True, i == 0]) for i, k in enumerate(ks[::-1])}, ops[1])
        obj = G({k: inner if i == 1 else M([i == 0, False, True]) for i, k in enumerate(ks)}, ops[0])
        for edit in range(2):
            before = frozen(obj)
            twin = send(obj, how)
            require(frozen(twin) == before and frozen(obj) == before, "{} by {} is {}", before, how, frozen(twin))
            require(list(twin) == list(obj) and repr(twin) == repr(obj) and str(twin) == str(obj), "keys {} became {}", list(obj), list(twin))
            require(list(twin[ks[1]]) == list(inner) and twin[ks[1]].agg_op is inner.agg_op, "inner keys {} became {}", list(inner), list(twin[ks[1]]))
            first = obj.pop(ks[0])
            obj[ks[0]] = first
        ctx.ev((ks, ops, how))
    ctx.outcome(len(ks))


@C.family("limits of the stored types", lambda t: ((nm, n, s) for nm in CLASSES for n in (1, 2, 3, 7) for s in range(len(LIMITS[nm]))))
def limit_values(ctx, nm, n, s):
    raw = limits(nm, s, n)
    for how in TRANSPORTS:
        for src, base, arr in sources(raw):
            one = CLASSES[nm](arr)
            hosts = [one, gcl.Graphicle(particles=gcl.ParticleSet(), adj=one) if nm == "edges" else gcl.Graphicle(particles=gcl.ParticleSet(**{nm: one}))]
            for obj in hosts:
                before = frozen(obj)
                twin = send(obj, how)
                require(type(twin) is type(obj) and frozen(twin) == before and frozen(obj) == before, "{} of {} on a {} array by {} becomes {!r}", nm, raw.tolist(), src, how, twin)
                if how == "shallow":
                    continue
                leaf = twin if twin is not hosts[-1] and not isinstance(twin, gcl.Graphicle) else component(twin, nm)
                require(not np.shares_memory(np.asarray(leaf.data), base), "{} transported by {} shares memory with its source ({})", nm, how, src)
        ctx.ev((nm, n, s, how))
    ctx.outcome(nm)


A = np.array([[1.0, 2.0, 3.0, 9.0], [-3.0, 0.5, -1.0, 4.0]])
E = np.array([[1, 2], [1, 3], [3, -4]])
WRITES = {
    "pmu": {
        "iadd": lambda p: p.__iadd__(1.5), "set": lambda p: setattr(p, "data", A[::-1] * 2.0), "out": lambda p: np.multiply(p, -2.0, out=p),
        "at": lambda p: np.add.at(p, [0], 0.5),
    },
    "adj": {"iadd": lambda a: a.__iadd__(1), "out": lambda a: np.negative(a, out=a), "weights": lambda a: setattr(a, "weights", np.array([2.0, 3.0, 5.0]))},
}


def gen_hist(tier):
    for kind in ("pmu", "adj"):
        reads = PMU if kind == "pmu" else ADJ
        some = [()] + [(r,) for r in reads] + [reads] + ([tuple(s) for s in it.combinations(reads, 2)] if tier == THOROUGH else [])
        for how in TRANSPORTS:
            for r1 in some:
                for w1 in (None,) + tuple(WRITES[kind]):
                    yield kind, how, r1, w1


@C.family("histories", gen_hist)
def histories(ctx, kind, how, r1, w1):
    """read, maybe write, transport, read on either side, write on either side, compare everything."""
    reads = PMU if kind == "pmu" else ADJ
    for side in (0, 1):
        for w2 in WRITES[kind]:
            for r2 in ((), reads):
                obj = gcl.MomentumArray(A.copy()) if kind == "pmu" else gcl.AdjacencyList(E.copy(), np.array([0.5, 1.0, 2.0]))
                for r in r1:
                    read(obj, r)
                if w1 is not None:
                    WRITES[kind][w1](obj)
                twin = send(obj, how)
                if how == "shallow" and w2 != "set":
                    check_derived(twin, (kind, how, r1, w1))
                    continue
                pair = [obj, twin]
                for o in pair:
                    for r in r2:
                        read(o, r)
                keep = frozen(pair[1 - side])
                WRITES[kind][w2](pair[side])
                require(frozen(pair[1 - side]) == keep, "a write by {} on side {} shows on the other after transport by {}", w2, side, how)
                for o in pair:
                    check_derived(o, (kind, how, r1, w1, side, w2, r2))
                ctx.step(3)
                ctx.trace()
                ctx.ev((kind, how, r1, w1, side, w2, bool(r2)))
                ctx.state((kind, how, r1, w1, side, w2, bool(r2)))
    ctx.outcome((kind, how))
