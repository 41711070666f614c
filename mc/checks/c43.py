"""C43: failures of the routines an operation builds on leave no trace."""
from mc.core import Check
from mc.checks.c32 import _cut, plain, snap
from mc.checks.c36 import KINDS
from mc.checks.c37 import SMALL, prepare, settings
from mc.faults import injector, points
from mc.util import *

C = Check(
    "C43",
    "fault_enumeration",
    "exhaustive injection of a fault into every call and operation that a public operation makes, on the real code, against the model in which a failed operation does nothing",
    "Every query of C32's and C37's worlds and every write of C36's, with the routine called at every point of its run raising "
    "instead (the first two visits and the last one of every place in the code; all visits of the shorter ones), on objects that have been read and ones that have not. "
    "Afterwards all inputs and process-wide settings must be unchanged, and the same and other queries must give the usual answers; an object being "
    "written holds its old values or the new ones, with derived quantities to match.",
    "states: (operation, point of failure, earlier reads); transitions: the failed operation and those that follow; every history is replayed on real objects",
    ["fault points are calls out of the library and array operators; restoring a setting is assumed not to fail",
     "compiled functions fail as a whole"],
)
QUICK = "quick"
USUAL = {}


def usual(kind, q):
    """Objects before, and the usual answer."""
    if (kind, q) not in USUAL:
        make, queries = SMALL[kind]
        try:
            queries[q](make())  # compiled code is loaded on first use
        except Exception:
            pass
        w = make()
        before = snap(w)
        USUAL[kind, q] = before, outcome(lambda: queries[q](w))
    return USUAL[kind, q]


def outcome(job):
    try:
        return "answer", plain(job())
    except Exception as e:
        return "error", type(e).__name__


def schedule(job, bound):
    """Fault points of one run."""
    inj = injector()
    inj.run(job)
    return points(inj.sites, bound) if len(inj.sites) > 400 or bound == 0 else range(len(inj.sites))


AFTER = {
    "event": ("g.pmu.eta", "g.adj.roots", "hierarchy", "combined_mass", "g.status.hard_mask", "delta_R other"),
}


def gen(tier):
    for kind in SMALL:
        for q in SMALL[kind][1]:
            for warm in (False, True):
                yield kind, q, warm, tier


@C.family("queries", gen)
def queries(ctx, kind, q, warm, tier):
    make, qs = SMALL[kind]
    before, want = usual(kind, q)
    others = AFTER.get(kind, tuple(qs))
    wants = {o: usual(kind, o)[1] for o in others}

    def fresh():
        w = make()
        if warm:
            for o in others:
                outcome(lambda: qs[o](w))
            outcome(lambda: qs[q](w))
        return w

    inj, w = injector(), fresh()
    prepare()
    was = settings()
    todo = schedule(lambda: qs[q](w), 2 if tier == QUICK else 20)
    for n, k in enumerate(todo):
        w = fresh()
        prepare()
        kind_, res = inj.run(lambda: qs[q](w), k)
        if inj.fired is None:
            continue
        where = inj.fired
        if kind_ == "answer":
            require((kind_, plain(res)) == want, "{} swallows a failure in {} and gives {}", q, where, _cut(res))
        require(snap(w) == before, "{} changed its inputs on failing in {}", q, where)
        require(settings() == was, "{} leaves other settings on failing in {}: {}", q, where, settings())
        got = outcome(lambda: qs[q](w))
        require(got == want, "{} gives {} instead of {} after failing in {}", q, _cut(got), _cut(want), where)
        # a different follower at each point, the rest of them in turn; each on an untouched world
        for o in (others[n % len(others)],) if kind == "event" else (others[n % len(others)], others[(n * 7 + 3) % len(others)]):
            w = fresh()
            inj.run(lambda: qs[q](w), k)
            got = outcome(lambda: qs[o](w))
            require(got == wants[o], "{} gives {} instead of {} after {} failed in {}", o, _cut(got), _cut(wants[o]), q, where)
            ctx.step(2)
        require(snap(w) == before, "objects changed after {} failed in {}", q, where)
        ctx.state((kind, q, warm, k))
        ctx.ev((kind, q, warm, k))
        ctx.step(2)
        ctx.trace()
    require_process("{} failing half-way", q)
    ctx.outcome((kind, warm))


def readings(reads, obj):
    return plain(list(map(_plain, reads(obj))))


def _plain(x):
    return repr(plain(x))


def rebuilt(kind, obj):
    """A new object of the same values."""
    if isinstance(obj, G):
        return obj.copy()
    if isinstance(obj, gcl.AdjacencyList):
        return gcl.AdjacencyList(cols(obj).copy(), np.array(obj.weights))
    if isinstance(obj, (gcl.Graphicle, gcl.ParticleSet)):
        return obj.copy()
    return type(obj)(cols(obj).copy())


def gen_writes(tier):
    for kind, (_, _, writes, _) in KINDS.items():
        for wr in writes:
            for pre in ("nothing", "reads") + tuple(writes):
                yield kind, wr, pre


@C.family("writes", gen_writes)
def writes(ctx, kind, wr, pre):
    make, reads, ops, _ = KINDS[kind]

    def ready():
        obj = make()
        if pre in ops:
            ops[pre](obj)
        if pre != "nothing":
            reads(obj)
        return obj

    obj = ready()
    old = frozen(obj)
    try:
        ops[wr](obj)
    except Exception:
        return
    new = frozen(obj)
    prepare()
    was = settings()
    inj = injector()
    obj = ready()
    for k in schedule(lambda: ops[wr](obj), 99):
        # ready() runs outside the injector
        obj = ready()
        inj.run(lambda: ops[wr](obj), k)
        if inj.fired is None:
            continue
        where = inj.fired
        now = frozen(obj)
        require(now in (old, new), "{} of {} stops half-way on failing in {}", wr, kind, where)
        require(settings() == was, "{} leaves other settings on failing in {}", wr, where)
        got, want = readings(reads, obj), readings(reads, rebuilt(kind, obj))
        require(got == want, "{} of {} failed in {}, and its derived quantities do not match its values", wr, kind, where)
        if now == old:
            ops[wr](obj)
            require(frozen(obj) == new, "{} of {} gives another result after failing in {}", wr, kind, where)
            require(readings(reads, obj) == readings(reads, rebuilt(kind, obj)), "{} of {} after failing in {}: stale quantities", wr, kind, where)
        ctx.state((kind, wr, pre, k))
        ctx.ev((kind, wr, pre, k))
        ctx.step(2)
        ctx.trace()
    require_process("{} of {} failing half-way", wr, kind)
    ctx.outcome(kind)
