"""C37: queries running in several threads give the answers they give alone."""
import _thread
import sys
import threading
import warnings

import numba

from mc.core import REPO, Check
from mc.checks.c32 import Q, plain, snap
from mc.checks.c32 import world as world_32
from mc.util import *

C = Check(
    "C37",
    "model_checking",
    "stateless exploration of the real code under a controlled scheduler: every interleaving of two threads of queries within a preemption bound, "
    "preempting before any line of the library, against the model in which queries commute",
    "For every pair of queries on a shared momentum array, edge list, or set of arrays and masks: every schedule with one preemption, "
    "and with two where either query keeps or sets something; for every query of C32's world against a few others: every schedule with one. "
    "Every schedule must give both answers, the warnings shown, the shared objects and the process-wide settings of the sequential run.",
    "schedules: (first thread, positions of the preemptions), each replayed on real threads of which exactly one is running; states: positions of the two threads",
    ["switches are placed between lines of the library; calls into compiled code keep the interpreter's lock and are not split",
     "queries only: writers need a lock of the caller's"],
)
QUICK = "quick"
ROOT = os.path.join(REPO, "graphicle") + os.sep


class Lane:
    """A thread that runs only while it holds the baton."""

    def __init__(self):
        self.go, self.back = _thread.allocate_lock(), _thread.allocate_lock()
        self.go.acquire()
        self.back.acquire()
        self.job = None
        self.count = self.limit = 0
        self.done = True
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            self.go.acquire()
            job = self.job
            sys.settrace(self.trace)
            try:
                self.result = ("answer", job())
            except Exception as e:
                self.result = ("error", repr(e)[:200])
            finally:
                sys.settrace(None)
            self.own = numba.get_num_threads(), tuple(np.geterr().items())
            self.done = True
            self.back.release()

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(ROOT) or name.startswith("<attrs generated"):
            frame.f_trace_opcodes = self.fine
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == ("opcode" if self.fine else "line"):
            if self.count == self.limit:
                self.back.release()
                self.go.acquire()
            self.count += 1
        return self.line

    def start(self, job, fine=False):
        self.job, self.count, self.limit, self.done, self.fine = job, 0, -1, False, fine

    def run(self, upto):
        """Runs until just before line (or instruction) number ``upto`` (None: to the end); True when it ended."""
        self.limit = -1 if upto is None else upto
        self.go.release()
        self.back.acquire()
        return self.done


LANES = []


def lanes():
    if not LANES or LANES[0][0] != os.getpid():
        LANES[:] = [(os.getpid(), Lane()), (os.getpid(), Lane())]
    return LANES[0][1], LANES[1][1]


SHOWN = []
SE, CA, TR, MX = gcl.select, gcl.calculate, gcl.transform, gcl.matrix
A = np.array([[0.0, 0.0, 3.0, 9.0], [-3.0, 0.5, -1.0, 4.0], [0.25, -0.5, 8.0, 10.0]])
B = np.array([[1.0, 2.0, 3.0, 9.0], [-1.0, 0.5, 2.0, 3.0]])
E = np.array([[1, 2], [2, 3], [2, -4], [3, -5]])


class Small:
    pass


def w_pmu():
    w = Small()
    w.p, w.o, w.m, w.s = gcl.MomentumArray(A.copy()), gcl.MomentumArray(B.copy()), M([True, False, True]), np.array([0.5, -1.0, 2.0])
    w.w4 = np.ones((3, 4))
    return w


def w_adj():
    w = Small()
    w.a = gcl.AdjacencyList(E.copy())
    w.b = gcl.AdjacencyList(E.copy(), np.array([0.5, 1.0, 2.0, 4.0]))
    return w


def w_rest():
    w = Small()
    w.pdg, w.status = gcl.PdgArray([11, -5, 24]), gcl.StatusArray([-22, 23, 1])
    w.color, w.hel = gcl.ColorArray([[501, 0], [0, 501], [0, 0]]), gcl.HelicityArray([1, -1, 0])
    w.m = M([True, False, True])
    w.g = G({"a": M([1, 0, 1]), "b": G({"c": M([0, 0, 1]), "latent": M([1, 1, 0])}, agg_op="or"), "d": M([1, 1, 1])}, agg_op="or")
    w.k = np.abs(np.subtract.outer(np.arange(4.0), np.arange(4.0)))
    return w


def w_pmu2():
    w = Small()
    w.p, w.o, w.m, w.s = gcl.MomentumArray(A[::-1] * 1.5 + 0.25), gcl.MomentumArray(2.0 * B[::-1]), M([True, True, False]), np.array([1.5, 1.0, -2.0])
    w.w4 = np.full((3, 4), 0.5)
    return w


def w_adj2():
    w = Small()
    w.a = gcl.AdjacencyList(np.array([[3, 2], [2, 1], [1, 5], [3, 6]]))
    w.b = gcl.AdjacencyList(E[::-1] * 2, np.array([4.0, 0.25, 1.0, 3.0]))
    return w


def w_rest2():
    w = Small()
    w.pdg, w.status = gcl.PdgArray([-13, 6, 211]), gcl.StatusArray([83, -21, 24])
    w.color, w.hel = gcl.ColorArray([[0, 7], [8, 0], [7, 8]]), gcl.HelicityArray([0, 1])
    w.m = M([False, True, True, True])
    w.g = G({"x": M([0, 1, 0, 0]), "y": G({"z": M([1, 0, 0, 1]), "latent": M([1, 1, 0, 0])}, agg_op="and"), "a": M([1, 1, 0, 1]), "d": M([0, 0, 0, 1])}, agg_op="or")
    w.k = np.abs(np.subtract.outer(np.arange(5.0), np.arange(5.0))) ** 0.5 * 2.0
    return w


def w_event2():
    """The event of C32 with other momenta, codes, colours and vertex numbers."""
    w = world_32("numpy")
    g, fin = w.g, np.flatnonzero(w.g.final.data)
    p = cols(g.pmu.shift_phi(0.4)) * 1.5
    p[fin] = p[fin[::-1]]
    codes = np.array(g.pdg.data)
    codes[fin] = np.resize((22, -11, 130, 310, 2212), len(fin))
    g.particles.pmu, g.particles.pdg = gcl.MomentumArray(p), gcl.PdgArray(codes)
    g.particles.helicity = gcl.HelicityArray(1 - np.array(g.helicity.data))
    g.adj = gcl.AdjacencyList(cols(g.adj) * 2)
    w.fin = g.pmu[g.final]
    w.other, w.one = w.other.shift_phi(1.0) * 2.0, w.one * 3.0
    w.shift, w.aff, w.weights, w.weights4 = w.shift[::-1] * 0.5, w.aff[::-1, ::-1] * 1.5, w.weights[::-1] + 1.0, w.weights4[::-1] + 1.0
    w.codes, w.m1, w.m2, w.cl = gcl.PdgArray([-13, 2]), ~w.m1, ~w.m2, w.cl[::-1]
    return w


def attr(o, *names):
    return {f"{o}.{n}": lambda w, n=n: getattr(getattr(w, o), n) for n in names}


SMALL = {
    "pmu": (w_pmu, {
        **attr("p", "pt", "eta", "phi", "rapidity", "theta", "mass", "mass_t", "energy"), **attr("o", "eta", "phi", "mass"),
        "mass of all": lambda w: CA.combined_mass(w.p), "spacelike": lambda w: CA.combined_mass(w.p, -w.w4 * (1.0, 9.0, 9.0, 0.0)), "copy": lambda w: w.p.copy(), "rows": lambda w: w.p[w.m],
        "serialize": lambda w: w.p.serialize(), "repr": lambda w: repr(w.p), "distances": lambda w: w.p.delta_R(w.p), "true distances": lambda w: w.o.delta_R(w.o, False, 2),
        "cross": lambda w: w.o.delta_R(w.p, False, 3), "turn": lambda w: w.p.shift_phi(0.5), "boost": lambda w: w.o.shift_rapidity(0.5), "shapes": lambda w: (CA.thrust(w.o, False, 3), CA.c_parameter(w.p)),
        "coefficients": lambda w: CA.cluster_coeff_distbn(w.o, 1.0, True, 2), "closest": lambda w: SE.arg_closest(w.o, w.p, 2), "axis": lambda w: TR.soft_hard_axis(w.o),
        "centroid": lambda w: CA.weighted_centroid(w.o), "resultant": lambda w: CA.resultant_coords(w.o), "sum": lambda w: np.sum(w.p, axis=0), "scaled": lambda w: w.p * 2.0,
        "affinity": lambda w: MX.delta_R_aff(w.o), "sampler": lambda w: gcl.MomentumArray.from_spherical_uniform(3, 9.0, 0.5, 4),
    }),
    "adj": (w_adj, {
        **attr("a", "nodes", "roots", "leaves", "matrix", "edges"), **attr("b", "matrix", "leaves", "weights"),
        "copy": lambda w: w.a.copy(), "rows": lambda w: w.b[1:3], "sparse": lambda w: w.a.to_sparse(), "weighted": lambda w: w.b.to_sparse(w.b.weights),
        "from 2": lambda w: SE.vertex_descendants(w.a, 2), "after 2, 3": lambda w: SE.edge_descendants(w.b, next(iter(w.b[1:2]))), "repr": lambda w: repr(w.b), "serialize": lambda w: w.a.serialize(),
        "compare": lambda w: w.a == w.b, "from matrix": lambda w: gcl.AdjacencyList.from_matrix(np.eye(3), True),
    }),
    "rest": (w_rest, {
        **attr("pdg", "name", "mass", "charge", "mass_bounds", "width"), **attr("status", "hard_mask"), **attr("color", "color", "anticolor"), **attr("g", "data"),
        "pdg.mask": lambda w: w.pdg.mask([5, -24], False), "range": lambda w: w.status.in_range(20, 30), "signed range": lambda w: w.status.in_range(-22, 22, True), "flat": lambda w: w.g.flatten("rise"), "leaves": lambda w: w.g.flatten("leaves"),
        "drop": lambda w: w.g.recursive_drop(), "copy": lambda w: w.g.copy(), "tree": lambda w: str(w.g), "bits": lambda w: (w.g.bitwise_or(), ~w.g), "and": lambda w: w.m & w.g,
        "equal": lambda w: w.g.equal_to(w.g), "overlap": lambda w: SE.any_overlap(w.g[["a", "d"]]), "distance": lambda w: CA.jaccard_distance(w.m, w.g), "rows": lambda w: w.g[w.m],
        "repr": lambda w: (repr(w.pdg), repr(w.color), repr(w.g)), "names": lambda w: gcl.PdgArray.from_name(["u", "W+"]), "serialize": lambda w: (w.g.serialize(), w.color.serialize()),
        "arithmetic": lambda w: (w.hel + 1, -w.status, w.pdg == 24), "neighbours": lambda w: MX.knn_adj(w.k, 2), "cut": lambda w: MX.cut_adj(w.k, 1.5),
    }),
    "event": (lambda: world_32("numpy"), Q),
}
OTHER = {"pmu": w_pmu2, "adj": w_adj2, "rest": w_rest2, "event": w_event2}


def show(message, category, *rest, **kw):
    SHOWN.append((category.__name__, str(message)[:60]))


def prepare():
    warnings.showwarning = show
    warnings.filters[:] = [("always", None, Warning, None, 0)]
    warnings._filters_mutated()
    SHOWN.clear()


def settings():
    return tuple(warnings.filters), warnings.showwarning is show, numba.get_num_threads(), tuple(np.geterr().items())


REFS, BEFORE = {}, {}


def maker(kind, second):
    return OTHER[kind] if second else SMALL[kind][0]


def alone(kind, a, second=False, fine=False):
    """Answer, warnings shown and number of lines (instructions) of a query that runs alone on fresh objects."""
    key = kind, a, second, fine
    if key not in REFS:
        make, queries = maker(kind, second), SMALL[kind][1]
        prepare()
        answer(queries[a], make())  # compiled code is loaded on first use
        prepare()
        w, lane = make(), lanes()[0]
        lane.start(lambda: queries[a](w), fine)
        lane.run(None)
        require(lane.own == (numba.config.NUMBA_NUM_THREADS, tuple(np.geterr().items())), "{} leaves other settings in its thread", a)
        REFS[key] = (lane.result[0], plain(lane.result[1])), frozenset(SHOWN), lane.count
    return REFS[key]


def answer(query, w):
    try:
        return query(w)
    except Exception:
        return None


def play(ctx, kind, qs, plan, twin=False, fine=False):
    """Runs a schedule: ``plan`` lists (thread, line before which it is preempted); twins each have objects of their own."""
    queries = SMALL[kind][1]
    refs = [alone(kind, q, twin and bool(k), fine) for k, q in enumerate(qs)]
    ws = [maker(kind, False)()]
    ws.append(maker(kind, True)() if twin else ws[0])
    for k in range(2):
        if (kind, twin and k) not in BEFORE:
            BEFORE[kind, twin and k] = snap(ws[k])
    prepare()
    was = settings()
    pair = lanes()
    for lane, q, w in zip(pair, qs, ws):
        lane.start(lambda q=q, w=w: queries[q](w), fine)
    for t, upto in plan + ((0, None), (1, None)):
        if not pair[t].done:
            pair[t].run(upto)
            ctx.step()
    for lane, q, ref in zip(pair, qs, refs):
        got = lane.result[0], plain(lane.result[1])
        if got != ref[0]:
            fail(f"schedule {plan} of {qs}: {q} gives {repr(lane.result)[:200]}")
        require(lane.own == (numba.config.NUMBA_NUM_THREADS, tuple(np.geterr().items())), "schedule {} of {}: settings of the thread are left at {}", plan, qs, lane.own)
    for k in range(2) if twin else (0,):
        require(snap(ws[k]) == BEFORE[kind, twin and k], "schedule {} of {} changed the objects", plan, qs)
    now = settings()
    require(now == was, "schedule {} of {} leaves other process-wide settings: {}", plan, qs, now)
    want = refs[0][1] | refs[1][1]
    require(want.issuperset(SHOWN) and want.issubset(SHOWN), "schedule {} of {} shows the warnings {} instead of {}", plan, qs, SHOWN, want)
    ctx.trace()
    ctx.ev((kind, qs, plan, twin, fine))
    ctx.state((kind, qs, plan, twin, fine))


def schedules(na, nb, bound):
    """Every way to preempt at most ``bound`` times, the first thread starting."""
    for i in range(1, na):
        yield ((0, i), (1, None))
        if bound >= 2:
            for j in range(1, nb):
                yield ((0, i), (1, j), (0, None))
                if bound >= 3:
                    for k in range(i + 1, na):
                        yield ((0, i), (1, j), (0, k), (1, None))


AREA = 60 * 60
# queries that keep something, or that set something for their duration
HOT = ("p.eta", "p.phi", "p.mass", "p.rapidity", "p.mass_t", "o.eta", "mass of all", "spacelike", "a.roots", "a.leaves", "a.matrix", "b.leaves", "sparse",
       "status.hard_mask", "pdg.name", "pdg.mass_bounds", "range", "signed range", "distances")


def gen_two(tier):
    for kind in ("pmu", "adj", "rest"):
        for a in SMALL[kind][1]:
            for b in SMALL[kind][1]:
                yield kind, a, b, 2 if tier == THOROUGH or a in HOT and b in HOT else 1


@C.family("pairs", gen_two)
def two(ctx, kind, a, b, bound):
    na, nb = alone(kind, a)[2], alone(kind, b)[2]
    if bound == 2 and na * nb > AREA:
        bound = 1
    elif bound == 2 and na * na * nb <= AREA:
        bound = 3
    for plan in schedules(na, nb, bound):
        play(ctx, kind, (a, b), plan)
    require_process("queries {} and {} in two threads", a, b)
    ctx.outcome((kind, bound))


PROBES = ("g.pmu.eta", "combined_mass", "g.adj.roots", "delta_R other", "g.status.hard_mask")


def gen_event(tier):
    for a in Q:
        for b in PROBES if tier == QUICK else PROBES + ("g.pmu.phi", "g.pmu.mass", "g.pdg.name", "clusters", "fastjet"):
            yield a, b, tier


@C.family("events", gen_event)
def events(ctx, a, b, tier):
    """One preemption at every line; of the longest queries, at fifty lines at equal distances."""
    na = alone("event", a)[2]
    step = 1 if na <= 130 or tier == THOROUGH and na < 2000 else na // 50
    for i in range(1, na, step):
        play(ctx, "event", (a, b), ((0, i), (1, None)))
    require_process("queries {} and {} in two threads", a, b)
    ctx.outcome(step > 1)


def gen_twin(tier):
    for kind in SMALL:
        for a in SMALL[kind][1]:
            yield kind, a, a, tier
            if kind != "event":
                for b in SMALL[kind][1]:
                    if a != b:
                        yield kind, a, b, tier


@C.family("separate objects", gen_twin)
def separate(ctx, kind, a, b, tier):
    """Each thread queries objects of its own; between the instructions for the same query."""
    fine = a == b and kind != "event"
    na, nb = alone(kind, a, False, fine)[2], alone(kind, b, True, fine)[2]
    step = 1 if na <= (130, 1000)[fine] or tier == THOROUGH and na < 2000 else na // (50, 500)[fine]
    for i in range(1, na, step):
        play(ctx, kind, (a, b), ((0, i), (1, None)), True, fine)
    if a == b:
        na, nb = alone(kind, a)[2], alone(kind, b, True)[2]
        if na * nb <= (400, AREA)[tier == THOROUGH]:
            for plan in schedules(na, nb, 2):
                play(ctx, kind, (a, b), plan, True)
    require_process("queries {} and {} in two threads, on separate objects", a, b)
    ctx.outcome((kind, "separate", step > 1))
