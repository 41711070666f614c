"""C02: a mask group behaves as an ordered mapping under any edit history."""
from mc.core import Check
from mc.lockstep import explore
from mc.util import *

C = Check(
    "C02",
    "model_checking",
    "breadth-first search over edit histories of the real mask group in lockstep with an ordered-dict model",
    "All histories up to the depth bound over the listed events from three starting groups, with states merged only "
    "when the complete model state (both objects, keys, order, values, aggregation) coincides.",
    "cases: starting group x first two events; states are model states; every transition replays its history on fresh "
    "real objects and compares all observations with the model",
    ["groups are edited through the public mapping interface only"],
)

N = 2
VALS = {"p": (True, False), "q": (False, True), "t": (True, True)}


# model: object = (agg, ((key, node), ...)); node = ("m", bools) | ("g", agg, items)
def node(val):
    if val == "grp":
        return ("g", "and", (("x", ("m", (True, True))), ("y", ("m", (True, False)))))
    return ("m", VALS[val])


START = {
    "empty": ("g", "and", ()),
    "flat": ("g", "or", (("a", node("p")), ("b", node("q")))),
    "nested": ("g", "and", (("a", node("grp")), ("b", node("t")))),
}


def realise(nd):
    if nd[0] == "m":
        return M(list(nd[1]))
    return G(dict((k, realise(v)) for k, v in nd[2]), nd[1])


def put(items, key, nd):
    if any(k == key for k, _ in items):
        return tuple((k, nd if k == key else v) for k, v in items)
    return items + ((key, nd),)


def get(items, key):
    return dict(items).get(key)


def agg(nd):
    """Aggregate boolean tuple, or None where the code documents an error."""
    if nd[0] == "m":
        return nd[1]
    vals = [agg(v) for _, v in nd[2]]
    if nd[1] == "none" or not vals or any(v is None for v in vals):
        return None
    comb = all if nd[1] == "and" else any
    return tuple(comb(v[i] for v in vals) for i in range(N))


def enabled(model):
    evs = []
    for t, obj in enumerate(model):
        if obj is None:
            continue
        items = obj[2]
        for key in ("a", "b"):
            for val in ("p", "q", "grp"):
                evs.append(("set", t, key, val))
        for key, nd in items:
            evs.append(("del", t, key))
            evs.append(("write", t, key))
            if nd[0] == "m":
                evs.append(("data", t, key))
            if nd[0] == "g":
                evs += [("nset", t, key), ("ndel", t, key), ("nagg", t, key)]
        evs.append(("update", t))
        for a in ("and", "or", "none"):
            if obj[1] != a:
                evs.append(("agg", t, a))
        if items:
            evs.append(("pop", t))
    evs.append(("copy", 0))
    if model[1] is not None:
        evs.append(("copy", 1))
    return evs


def flip(nd):
    if nd[0] == "m":
        return ("m", (not nd[1][0],) + nd[1][1:])
    if not nd[2]:
        return nd
    k, v = nd[2][0]
    return ("g", nd[1], ((k, flip(v)),) + nd[2][1:])


def model_step(model, ev):
    model = list(model)
    if ev[0] == "copy":
        # the copy goes to the other slot
        model[1 - ev[1]] = model[ev[1]]
        return tuple(model)
    t = ev[1]
    _, a, items = model[t]
    if ev[0] == "set":
        items = put(items, ev[2], node(ev[3]))
    elif ev[0] == "del":
        items = tuple(i for i in items if i[0] != ev[2])
    elif ev[0] == "pop":
        items = items[1:]
    elif ev[0] == "write":
        items = put(items, ev[2], flip(get(items, ev[2])))
    elif ev[0] == "data":
        items = put(items, ev[2], ("m", tuple(not v for v in get(items, ev[2])[1])))
    elif ev[0] == "nset":
        g = get(items, ev[2])
        items = put(items, ev[2], ("g", g[1], put(g[2], "x", node("q"))))
    elif ev[0] == "ndel":
        g = get(items, ev[2])
        items = put(items, ev[2], ("g", g[1], g[2][1:]))
    elif ev[0] == "nagg":
        g = get(items, ev[2])
        items = put(items, ev[2], ("g", "or" if g[1] == "and" else "and", g[2]))
    elif ev[0] == "update":
        items = put(put(items, "b", node("t")), "c", node("q"))
    elif ev[0] == "agg":
        a = ev[2]
    model[t] = ("g", a, items)
    return tuple(model)


def real_step(real, ev):
    real = list(real)
    if ev[0] == "copy":
        real[1 - ev[1]] = real[ev[1]].copy()
        return real
    g = real[ev[1]]
    if ev[0] == "set":
        new = realise(node(ev[3]))
        # alternate between mask objects and plain arrays as values
        g[ev[2]] = new if ev[2] == "a" or ev[3] == "grp" else np.array(new.data)
    elif ev[0] == "del":
        del g[ev[2]]
    elif ev[0] == "pop":
        first = next(iter(g))
        want = g[first]
        require(g.pop(first) is want, "pop returned another mask")
    elif ev[0] == "write":
        m = g[ev[2]]
        while isinstance(m, G):
            if not len(m):
                return real
            m = m[next(iter(m))]
        m[0] = not m.data[0]
    elif ev[0] == "data":
        g[ev[2]].data = [not v for v in g[ev[2]].data]
    elif ev[0] == "nset":
        g[ev[2]]["x"] = realise(node("q"))
    elif ev[0] == "ndel":
        if len(g[ev[2]]):
            del g[ev[2]][next(iter(g[ev[2]]))]
    elif ev[0] == "nagg":
        g[ev[2]].agg_op = "or" if g[ev[2]].agg_op.value == "and" else "and"
    elif ev[0] == "update":
        g.update({"b": realise(node("t")), "c": realise(node("q"))})
    elif ev[0] == "agg":
        g.agg_op = ev[2]
    return real


def serial(nd):
    if nd[0] == "m":
        return tuple(nd[1])
    return {k: serial(v) for k, v in nd[2]}


def compare(g, nd, where):
    if nd[0] == "m":
        require(isinstance(g, M) and tuple(g.data.tolist()) == nd[1], "{}: mask {} instead of {}", where, g, nd[1])
        return
    require(isinstance(g, G), "{}: {} instead of a group", where, type(g))
    want_keys = [k for k, _ in nd[2]]
    require(list(g) == want_keys and list(g.keys()) == want_keys, "{}: keys {} instead of {}", where, list(g), want_keys)
    require(len(g) == len(want_keys), "{}: length {}", where, len(g))
    require(g.agg_op.value == nd[1], "{}: aggregation {} instead of {}", where, g.agg_op, nd[1])
    require([k for k, _ in g.items()] == want_keys, "{}: items", where)
    for k, v in nd[2]:
        require(k in g, "{}: {} not in group", where, k)
        compare(g[k], v, f"{where}.{k}")
    require("zz" not in g, "{}: phantom key", where)
    require_raises(KeyError, f"{where}: lookup of a missing key", lambda: g["zz"])
    require_raises(KeyError, f"{where}: deletion of a missing key", g.__delitem__, "zz")
    require_raises(KeyError, f"{where}: popping a missing key", g.pop, "zz")
    require(g.pop("zz", None) is None and g.get("zz") is None, "{}: default of a missing key", where)
    require(g.serialize() == serial(nd), "{}: serialised {}", where, g.serialize())
    want = agg(nd)
    vals = [agg(v) for _, v in nd[2]]
    if nd[1] == "none" and vals:
        require_raises(ValueError, f"{where}: aggregate without an aggregation", lambda: g.data)
        for conv in (np.asarray, np.array, np.flatnonzero, lambda v: ~v, lambda v: np.ones(N)[v]):
            require_raises(ValueError, f"{where}: array of a group without an aggregation", conv, g)
    elif want is not None:
        require(tuple(g.data.tolist()) == want, "{}: aggregate {} instead of {}", where, g.data.tolist(), want)
        require(np.asarray(g).tolist() == list(want), "{}: numpy view of aggregate", where)
        require(bool(g) is True, "{}: truth of a non-empty group", where)
        require((~g).data.tolist() == [not v for v in want], "{}: inversion", where)
    if not vals:
        require(bool(g) is False, "{}: truth of an empty group", where)
    if vals and None not in vals:
        require(tuple(g.bitwise_or().data.tolist()) == tuple(any(c) for c in zip(*vals)), "{}: bitwise_or", where)
        require(tuple(g.bitwise_and().data.tolist()) == tuple(all(c) for c in zip(*vals)), "{}: bitwise_and", where)
    # selections are fresh groups with the same aggregation
    if vals:
        for order in (want_keys, want_keys[::-1], want_keys[:1]):
            sel = g[list(order)]
            require(isinstance(sel, G) and list(sel) == list(order), "{}: selecting {} gave {}", where, order, list(sel))
            require(sel.agg_op.value == nd[1], "{}: aggregation lost on selection", where)
            for k in order:
                require(frozen(sel[k]) == frozen(g[k]), "{}: selecting {} changed {}", where, order, k)
        if None not in vals:
            rev = g[::-1]
            require(list(rev) == want_keys and rev.agg_op.value == nd[1], "{}: slicing lost keys or aggregation", where)
            for k, v in zip(want_keys, vals):
                require(np.asarray(rev[k].data if v else rev[k]).tolist() == list(v)[::-1], "{}: slice of {}", where, k)
            one = g[np.array([False, True])]
            for k, v in zip(want_keys, vals):
                require(np.asarray(one[k]).tolist() == [v[1]], "{}: boolean selection of {}", where, k)


def touch(real):
    """Reads everything there is to read, as a user would between edits."""
    for obj in real:
        if obj is not None:
            read_all(obj)


def read_all(obj):
    if isinstance(obj, M):
        return
    for fn in (lambda: obj.data, obj.bitwise_or, obj.bitwise_and, obj.serialize, lambda: len(obj)):
        try:
            fn()
        except Exception:  # the values are compared elsewhere
            pass
    for v in obj.values():
        read_all(v)


def observe(real, model, history):
    for t, nd in enumerate(model):
        if nd is not None:
            try:
                compare(real[t], nd, f"object {t}")
            except Violation as e:
                fail(f"{e}\nhistory: {history}\nmodel: {model}")


def first_events(start):
    init = (START[start], None)
    for e1 in enabled(init):
        mid = model_step(init, e1)
        for e2 in enabled(mid):
            yield e1, e2


def gen(tier):
    depth = 5 if tier == THOROUGH else 4
    for start in START:
        for e1, e2 in first_events(start):
            yield start, e1, e2, depth


@C.family("edit histories", gen)
def histories(ctx, start, e1, e2, depth):
    explore(
        ctx, [e1, e2], enabled, model_step,
        lambda: (START[start], None), lambda: [realise(START[start]), None],
        real_step, observe, lambda m: m, depth, touch,
    )
    ctx.outcome((start, e1[0], e2[0]))


def gen_bad(tier):
    yield ("key",)
    yield ("convert",)
    yield ("enum",)


@C.family("construction", gen_bad)
def construction(ctx, what):
    if what == "key":
        for bad in (1, None, ("a",), 2.5):
            g = G({"a": [True]})
            ctx.ev((what, repr(bad)))
            require_raises(KeyError, f"key {bad!r}", g.__setitem__, bad, M([True]))
            require(list(g) == ["a"], "a rejected key was stored")
    elif what == "convert":
        for val in ([True, False], (1, 0), np.array([1, 0]), M([True, False])):
            g = G({"a": val, "b": {"c": val, "d": {"e": val}}})
            ctx.ev((what, repr(val)))
            require(isinstance(g["a"], M) and g["a"].data.tolist() == [True, False], "conversion of {}", val)
            require(isinstance(g["b"], G) and isinstance(g["b"]["d"], G), "nested mapping not converted")
            require(g["b"]["d"]["e"].data.tolist() == [True, False], "nested value of {}", val)
            require(g.agg_op.value == "and", "default aggregation")
    else:
        for a in gcl.data.MaskAggOp:
            for how in (a, a.value):
                g = G({"a": [True, False], "b": [True, True]}, how)
                ctx.ev((what, repr(how)))
                require(g.agg_op is a, "aggregation {} became {}", how, g.agg_op)
                require(g.copy().agg_op is a, "aggregation lost in copy")


# ---------------------------------------------------------------- larger groups
KEYPOOL = ["W+", "latent", "", "0", "b~", "\u00fcni", "a b", "data", "agg_op"]


def wide_keys(k):
    return (KEYPOOL + [f"k{(7 * i) % 97:02d}.{i}" for i in range(k)])[:k][::-1]


def wide_values(i, n):
    return [((i * 5 + j * (i % 7 + 1)) % 11) < 4 + i % 3 for j in range(n)]


WIDE_EVENTS = ("del first", "del middle", "del last", "set first", "set middle", "set last", "new low", "new high", "pop middle",
               "popitem", "setdefault old", "setdefault new", "update group", "update pairs", "pick reversed", "pick even",
               "slice", "reverse rows", "index rows", "mask rows", "copy and go on", "copy and edit it", "and", "or", "none",
               "write middle", "write last", "inner edit", "assign inner", "array value")


def wide_event(g, model, what, step):
    """Applies one event to the group and to (keys and values, aggregation)."""
    vals, agg_ = model
    keys = list(vals)
    n = len(next(iter(vals.values()))) if vals else 3
    new = [((j * 3 + step) % 4) < 2 for j in range(n)]
    place = {"first": 0, "middle": len(keys) // 2, "last": len(keys) - 1}
    verb, _, arg = what.partition(" ")
    if not keys and what not in ("new low", "new high", "setdefault new", "update group", "update pairs", "and", "or", "none", "copy and go on"):
        return g, model
    vals = dict(vals)
    if verb == "del":
        del g[keys[place[arg]]]
        del vals[keys[place[arg]]]
    elif verb == "set" and arg in place:
        g[keys[place[arg]]] = M(new)
        vals[keys[place[arg]]] = new
    elif verb == "new":
        key = ("" if arg == "low" else "zz") + f"!{step}"
        g[key] = new
        vals[key] = new
    elif what == "pop middle":
        got = g.pop(keys[place["middle"]])
        require(got.data.tolist() == vals.pop(keys[place["middle"]]), "pop gave another mask")
    elif what == "popitem":
        key, got = g.popitem()
        require(key in vals and got.data.tolist() == vals.pop(key), "popitem gave ({}, {})", key, got)
    elif what == "setdefault old":
        require(g.setdefault(keys[-1], M(new)).data.tolist() == vals[keys[-1]], "setdefault of a present key")
    elif what == "setdefault new":
        g.setdefault(f"sd{step}", M(new))
        vals.setdefault(f"sd{step}", new)
    elif what == "update group":
        g.update(G({keys[0] if keys else "u": new, f"u{step}": new}))
        vals.update({keys[0] if keys else "u": new, f"u{step}": new})
    elif what == "update pairs":
        g.update([(f"v{step}", M(new))])
        vals[f"v{step}"] = new
    elif verb == "pick":
        order = keys[::-1] if arg == "reversed" else keys[::2]
        g, vals = g[order], {k: vals[k] for k in order}
    elif what == "slice":
        g, vals = g[: n // 2 + 1], {k: v[: n // 2 + 1] for k, v in vals.items()}
    elif what == "reverse rows":
        g, vals = g[::-1], {k: v[::-1] for k, v in vals.items()}
    elif what == "index rows":
        idx = np.arange(n)[::-1][: max(n // 2, 1)]
        g, vals = g[idx], {k: [v[i] for i in idx] for k, v in vals.items()}
    elif what == "mask rows":
        keep = [j % 3 != 1 for j in range(n)]
        g, vals = g[M(keep)], {k: [v for v, t in zip(v_, keep) if t] for k, v_ in vals.items()}
    elif what == "copy and go on":
        old, g = g, g.copy()
        old["gone"] = new
        for v in old.values():
            v[...] = True
    elif what == "copy and edit it":
        twin = g.copy()
        for k in keys:
            twin[k][...] = ~twin[k].data
        del twin[keys[0]]
        twin.agg_op = "none"
    elif verb == "write":
        g[keys[place[arg]]][-1] = new[-1]
        vals[keys[place[arg]]] = vals[keys[place[arg]]][:-1] + [new[-1]]
    elif what == "inner edit":  # a member is set to a group, aggregated by or
        g[keys[0]] = G({"p": new, "q": [not v for v in new]}, "or")
        g[keys[0]]["q"] = new
        vals[keys[0]] = new
        g[keys[0]] = M(g[keys[0]].data)
    elif what == "assign inner":
        g[keys[-1]] = g[keys[0]].copy()
        vals[keys[-1]] = vals[keys[0]]
    elif what == "array value":
        buf = np.array(new)
        g[keys[0]] = buf[::-1]
        vals[keys[0]] = new[::-1]
    else:
        g.agg_op = what
        agg_ = what
    return g, (vals, agg_)


def wide_compare(g, model, hist):
    vals, agg_ = model
    require(list(g) == list(vals), "keys {} instead of {} after {}", list(g), list(vals), hist)
    require(g.agg_op.value == agg_, "aggregation {} instead of {} after {}", g.agg_op, agg_, hist)
    require(len(g) == len(vals) and {k: list(v) for k, v in g.serialize().items()} == vals, "masks {} instead of {} after {}", g.serialize(), vals, hist)
    for k, v in vals.items():
        require(k in g and g[k].data.tolist() == v, "mask {} after {}", k, hist)
    if not vals:
        return
    want = {"and": all, "or": any}
    if agg_ == "none":
        require_raises(ValueError, f"aggregate after {hist}", lambda: g.data)
    else:
        require(g.data.tolist() == [want[agg_](c) for c in zip(*vals.values())], "aggregate after {}", hist)
    require(g.bitwise_and().data.tolist() == [all(c) for c in zip(*vals.values())], "bitwise and after {}", hist)
    require(g.bitwise_or().data.tolist() == [any(c) for c in zip(*vals.values())], "bitwise or after {}", hist)


def gen_wide(tier):
    sizes = ((1, 3), (2, 1), (3, 5), (9, 4), (40, 6), (5, 70), (3, 300), (130, 2)) + (((12, 1000), (300, 3)) if tier == THOROUGH else ())
    for k, n in sizes:
        for e1 in WIDE_EVENTS:
            yield k, n, e1, 3 if tier == THOROUGH and k * n < 50 else 2


@C.family("larger groups", gen_wide)
def larger(ctx, k, n, e1, depth):
    """Every sequence of two (three) events on groups of up to 130 masks."""
    def fresh():
        vals = {key: wide_values(i, n) for i, key in enumerate(wide_keys(k))}
        return G({key: list(v) for key, v in vals.items()}, "or"), (vals, "or")

    for rest in it.product(WIDE_EVENTS, repeat=depth - 1):
        g, model = fresh()
        for step, ev in enumerate((e1,) + rest):
            g, model = wide_event(g, model, ev, step)
            ctx.step()
            wide_compare(g, model, (k, n, e1) + rest[:step])
        ctx.trace()
        ctx.state((k, n, tuple(model[0]), model[1], tuple(map(tuple, model[0].values()))))
    ctx.ev((k, n, e1))


def gen_votes(tier):
    for k in (2, 3, 16, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1024) + ((32768, 65535, 65536, 65537) if tier == THOROUGH else (4096,)):
        yield (k,)


@C.family("many masks", gen_votes)
def votes(ctx, k):
    """A column in which none, one, some, all but one or all of k masks are set."""
    counts = sorted({0, 1, 2, k // 2, k - 1, k} | {c for c in (127, 128, 255, 256, 257, 512, 65536) if c <= k})
    table = np.array([[(i * 5 + 3) % k < c if k % 5 else (i * 7 + 3) % k < c for c in counts] for i in range(k)])
    require(table.sum(axis=0).tolist() == counts, "the case is wrong")
    g = G({str(i): row for i, row in enumerate(table)}, "or")
    want_or, want_and = [c > 0 for c in counts], [c == k for c in counts]
    for what in ("fresh", "again", "copied"):
        require(g.data.tolist() == want_or and g.bitwise_or().data.tolist() == want_or, "or of {} masks ({}): {}", k, what, g.data)
        g.agg_op = "and"
        require(g.data.tolist() == want_and and g.bitwise_and().data.tolist() == want_and, "and of {} masks ({}): {}", k, what, g.data)
        require(np.array(g).tolist() == want_and, "array of {} masks", k)
        g.agg_op = "or"
        ctx.ev((k, what))
        if what == "again":
            g = g.copy()
    nest = G({"x": g, "y": M([False] * len(counts))}, "or")
    require(nest.data.tolist() == want_or, "or of {} nested masks", k)
    require(G({"x": g, "y": M([True] * len(counts))}, "and").data.tolist() == want_or, "and of {} nested masks", k)


HOLDERS = ("reference", "key list", "pairs", "values", "other group", "copy")
EDITS = ("mask", "array", "list", "group", "del", "pop", "update", "update kw", "same mask", "setdefault", "clear", "popitem")


@C.family("replaced masks", lambda t: ((n, nested, h, e) for n in (1, 2, 5, 70) for nested in (0, 1, 2) for h in HOLDERS for e in EDITS))
def replaced(ctx, n, nested, holder, edit):
    """A replacement puts another mask under the key; the one that was there stays as it was for whoever still holds it."""
    old, new = [i % 2 == 0 for i in range(n)], [i % 3 == 1 for i in range(n)]
    ones = [True] * n

    def inner(v):
        return M(list(v)) if not nested else G({"x": M(list(v)), "y": M(list(ones))}, "and")

    g = G({"a": inner(old), "b": M(list(ones)), "c": inner(ones)}, "or")
    top = G({"g": g, "z": M(list(ones))}, "and") if nested == 2 else g
    if holder == "reference":
        held = {"a": g["a"], "c": g["c"]}
    elif holder == "key list":
        held = g[["c", "a"]]
    elif holder == "pairs":
        held = dict(g.items())
    elif holder == "values":
        held = dict(zip(("a", "b", "c"), g.values()))
    elif holder == "other group":
        held = G({"a": g["a"], "c": g["c"]}, "or")
    else:
        held = g.copy()
    keep = {k: frozen(held[k]) for k in ("a", "c")}
    value = M(list(new))
    want = {"a": new, "b": ones, "c": ones}
    if edit == "mask":
        g["a"] = value
    elif edit == "array":
        g["a"] = np.array(new)
    elif edit == "list":
        g["a"] = list(new)
    elif edit == "group":
        g["a"] = G({"p": list(new), "q": list(new)}, "or")
    elif edit in ("del", "pop"):
        del want["a"]
        g.pop("a") if edit == "pop" else g.__delitem__("a")
    elif edit == "update":
        g.update({"a": value})
    elif edit == "update kw":
        g.update(a=value)
    elif edit == "same mask":
        g["a"] = g["b"]
        want["a"] = ones
        value = g["b"]
    elif edit == "setdefault":
        g.setdefault("a", value)
        want["a"] = [bool(b) for b in old]
    elif edit == "popitem":
        k, _ = g.popitem()
        del want[k]
    else:
        g.clear()
        want = {}
    what = (n, nested, holder, edit)
    require({k: frozen(held[k]) for k in ("a", "c")} == keep, "{}: the edit changed masks held elsewhere to {}", what, held)
    require(list(g) == list(want) and all(g[k].data.tolist() == v for k, v in want.items()), "{}: the group is now {}", what, g.serialize())
    if want:
        require(g.data.tolist() == [any(c) for c in zip(*want.values())], "{}: aggregate {}", what, g.data)
        if nested == 2:
            require(top.data.tolist() == g.data.tolist(), "{}: outer aggregate", what)
    require(value.data.tolist() == (ones if edit == "same mask" else new), "{}: the given mask was changed", what)
    ctx.ev(what)
    ctx.outcome((holder, edit))
