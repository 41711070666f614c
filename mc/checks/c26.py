"""C26: parallel kernels are independent of schedule and thread count."""
import math

import numba as nb

from mc import prange
from mc.core import Check
from mc.util import *

C = Check(
    "C26",
    "model_checking",
    "stateless exploration of all interleavings of the parallel-loop iterations of the kernels' own source under a controlled scheduler with a preemption bound, plus all thread counts and all histories of threaded calls",
    "Each kernel is re-compiled from its source with every array element access a scheduling point; all interleavings of 2 and 3 "
    "iterations with at most 2 preemptions (3 preemptions, and 4 iterations, in the thorough tier) are run through the public functions, "
    "and each result is compared with the sequential one and with the compiled code. Thread counts 1 to 4 for sizes 0 to 24 and more; "
    "all histories of up to 3 (4) threaded calls, failing ones included, against a one-variable model of the process-wide thread count.",
    "states: distinct complete schedules or call histories; transitions: scheduled steps or calls; non-trivial when two iterations interleave",
    ["interleavings are explored at the granularity of array element accesses of the Python source; helper kernels called from an iteration are atomic",
     "numba's rule that names assigned inside a parallel loop are private, and in-place updated outer scalars are reductions, is modelled",
     "with several parallel regions in one call, one region at a time deviates from the sequential order"],
)
MAXT = nb.config.NUMBA_NUM_THREADS
MODULES = [m for m in (gcl.calculate, gcl.data, gcl.select, gcl.matrix, gcl.transform) if m is not None]


def mom(y, phi, pt, m=0.3):
    mt = math.hypot(pt, m)
    return (pt * math.cos(phi), pt * math.sin(phi), mt * math.sinh(y), mt * math.cosh(y))


CLOUD = (
    mom(0.0, 0.1, 10.0), mom(0.5, 3.1, 4.0), mom(-0.7, -3.0, 7.0, 2.0), mom(1.2, 1.0, 2.0), mom(0.1, 0.4, 30.0), mom(-1.5, -1.0, 3.5), mom(0.6, 0.2, 12.0),
    (0.0, 0.0, 5.0, 5.0),
)


def arr(idx):
    return gcl.MomentumArray(np.array([CLOUD[i % 8] for i in idx], dtype=float).reshape(-1, 4))


def jets(idx):
    return gcl.MomentumArray(np.array([CLOUD[i % 7] for i in idx], dtype=float).reshape(-1, 4))


CALLS = {
    "dR": lambda n: arr(range(n)).delta_R(arr(range(7, 7 - n, -1)), pseudo=False),
    "dR wide": lambda n: arr(range(n)).delta_R(arr(range(4))),
    "dR tall": lambda n: arr(range(n)).delta_R(arr((3,))),
    "symmetric": lambda n: _self(arr(range(n))),
    "symmetric 2": lambda n: _self(arr((5, 7, 1, 6)[:n]), False),
    "affinity": lambda n: gcl.matrix.delta_R_aff(arr((7, 7, 2, 0)[:n])),
    "weighted": lambda n: gcl.matrix.parton_hadron_distance(jets(range(n)), jets(range(3)), -0.1),
    "coefficients": lambda n: gcl.calculate.cluster_coeff_distbn(arr(range(n)), 3.2),
    "coefficients 2": lambda n: gcl.calculate.cluster_coeff_distbn(arr((0, 4, 6, 1)[:n]), 0.9, False),
    "closest": lambda n: gcl.select.arg_closest(jets(range(n)), jets(range(n + 1))),
    "closest 2": lambda n: gcl.select.arg_closest(jets((6, 4, 0, 2)[:n]), jets((0, 1, 4, 2, 3)[: n + 1])),
    "tag": lambda n: {k: v.data.tolist() for k, v in _tag(n).items()},
}


def _self(pmu, pseudo=True):
    return pmu.delta_R(pmu, pseudo)


def _tag(n):
    codes = (5, -5, 2, 11)[:n]
    parts = gcl.ParticleSet.from_numpy(
        pdg=np.array(codes + (211,) * 5), status=np.array((23,) * n + (84,) * 5), final=np.array((False,) * n + (True,) * 5),
        pmu=np.array([CLOUD[i] for i in range(n)] + [CLOUD[(3 * i) % 7] for i in range(5)]),
    )
    masks = [M([j == i for j in range(5)]) for i in range(5)]
    return gcl.select.monte_carlo_tag(parts, masks)


class Region:
    """Schedules one region of an execution as told, the others in order."""

    def __init__(self):
        self.reset(None, None)

    def reset(self, target, sched):
        self.count, self.target, self.sched, self.outputs = 0, target, sched, []

    def schedule(self, body, *args):
        k = self.count
        self.count += 1
        (self.sched if k == self.target else prange.Scheduler()).schedule(body, *args)


REGION = Region()
_PATCH = {}


def patches():
    """Schedulable versions of every parallel kernel, made once per process."""
    if not _PATCH:
        _PATCH["list"], _PATCH["skipped"] = [], []
        for mod in MODULES:
            ns = dict(vars(mod))
            ns["_mc_schedule"] = lambda body, *a: REGION.schedule(body, *a)
            own = [(k, d) for k, d in prange.parallel_kernels(mod).items() if d.py_func.__module__ == mod.__name__]
            done = {}
            for k, d in own:
                try:
                    fn, _ = prange.transform(d, ns)
                except prange.Untransformable:
                    _PATCH["skipped"].append(k)
                    continue

                def wrapped(*args, _fn=fn, **kw):
                    out = _fn(*args, **kw)
                    REGION.outputs.append(np.array(out))
                    return out

                done[k] = wrapped
            ns.update(done)
            for other in MODULES:
                for k, d in own:
                    if k in done and vars(other).get(k) is d:
                        _PATCH["list"].append((other, k, d, done[k]))
    return _PATCH["list"]


def controlled(call, region, sched):
    plist = patches()
    REGION.reset(region, sched)
    for mod, k, _, fn in plist:
        setattr(mod, k, fn)
    try:
        out = call()
    finally:
        for mod, k, orig, _ in plist:
            setattr(mod, k, orig)
    return out, REGION.outputs, REGION.count


def equal(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and close(a, b, 1e-9, 1e-9)
    return a == b


def gen(tier):
    deep = tier == THOROUGH
    for n, bound, parts in ((1, 1, 1), (2, 2, 1), (3, 2, 16)) + (((2, 3, 4), (4, 1, 8), (3, 3, 64)) if deep else ()):
        for name in CALLS:
            if bound == 3 and n == 3 and name not in ("dR tall", "symmetric", "closest"):
                continue
            if n == 3 and not deep and name in ("dR wide", "affinity", "symmetric 2", "weighted"):
                continue
            for region in range(3):
                for part in range(parts):
                    yield name, n, region, bound, (part, parts)


@C.family("schedules", gen)
def schedules(ctx, name, n, region, bound, part):
    call = lambda: CALLS[name](n)
    compiled = call()
    try:
        ref, ref_out, regions = controlled(call, None, None)
    except IndexError as e:  # the compiled code reads or writes out of range here, silently
        fail(f"{name} n={n}: run in order from its source: {e!r}")
    except Exception as e:  # construct the transformation does not know: the compiled code accepts it
        ctx.note(f"not schedulable: {name}: {type(e).__name__}")
        return
    for k in _PATCH["skipped"]:
        ctx.note(f"not schedulable: {k}")
    require(equal(ref, compiled), "{} n={}: compiled kernel gives {}, its source run in order gives {}", name, n, compiled, ref)
    if region >= regions:
        return
    seen = set()
    for choices, cost, steps, (out, outs, _) in prange.executions(lambda s: controlled(call, region, s), bound, None, part):
        ok = equal(out, ref) and len(outs) == len(ref_out) and all(close(a, b, 1e-9, 1e-9) for a, b in zip(outs, ref_out))
        require(ok, "{} n={} region {}: schedule {} gives {} instead of {}", name, n, region, choices, out, ref)
        ctx.state((name, n, region, choices))
        ctx.step(steps)
        ctx.trace()
        ctx.ev((name, n, region, choices) if any(choices) else None)
        seen.add(str(out))
    ctx.outcome(f"{name}/{n}: {len(seen)} results")
    # determinism of the scheduler itself: the same schedule twice
    last = choices
    again = controlled(call, region, prange.Scheduler(last))
    require(equal(again[0], out), "replaying schedule {} diverged", last)


def gen_threads(tier):
    for name in ("dR", "dR false", "coef", "coef false", "closest"):
        for n in tuple(range(0, 25)) + (33, 64, 100) + ((257, 500) if tier == THOROUGH else ()):
            yield name, n


@C.family("thread counts", gen_threads)
def thread_counts(ctx, name, n):
    ps = np.array([mom(2 * math.sin(1.3 * i), math.pi * math.sin(2.1 * i + 0.2), 1.0 + (i * 7) % 11, 0.2 * (i % 3)) for i in range(n)]).reshape(n, 4)
    pmu = gcl.MomentumArray(ps)
    small = gcl.MomentumArray(ps[: (n + 1) // 2])
    if name == "closest" and n == 0:
        return
    fns = {
        "dR": lambda t: (pmu.delta_R(pmu, True, t), pmu.delta_R(pmu.copy(), True, t), pmu.delta_R(small, threads=t)),
        "dR false": lambda t: (pmu.delta_R(pmu, False, threads=t), small.delta_R(pmu, False, t)),
        "coef": lambda t: (gcl.calculate.cluster_coeff_distbn(pmu, 0.8, True, t),),
        "coef false": lambda t: (gcl.calculate.cluster_coeff_distbn(pmu, 2.0, False, t),),
        "closest": lambda t: (np.array(gcl.select.arg_closest(small, pmu, t)),),
    }
    base = nb.get_num_threads()
    ref = fns[name](1)
    for t in range(1, MAXT + 1):
        for _ in range(5):
            got = fns[name](t)
            require(all(same(a, b) for a, b in zip(got, ref)), "{} of {} with {} threads differs", name, n, t)
            require(nb.get_num_threads() == base, "{} with {} threads leaves the count at {}", name, t, nb.get_num_threads())
            ctx.step()
            ctx.trace()
        ctx.state((name, n, t))
        ctx.ev((name, n, t) if n > 1 and t > 1 else None)


class Nested(gcl.MomentumArray):
    """A focus whose rapidity is itself computed with a threaded call."""

    inner = 1

    @property
    def rapidity(self):
        base = gcl.MomentumArray(np.array(self.data))
        base.delta_R(base, False, self.inner)
        return base.rapidity


OPS = (
    ("user", 1), ("user", 2), ("user", MAXT), ("dR", 1), ("dR", 2), ("dR", 3), ("dR", 0), ("dR", MAXT + 5), ("coef", 1), ("coef", 2), ("coef", -1), ("coef", MAXT),
    ("closest", 1), ("closest", 3), ("closest", 0), ("closest fails", 2), ("dR fails", 3), ("coef fails", 2), ("nested", 2), ("nested", 3), ("tag", 0), ("dR two", 2),
)


def apply(op, pmu):
    """Runs an operation; True when it must raise."""
    kind, t = op
    bad = t < 1 or t > MAXT
    fns = {
        "dR": lambda: pmu.delta_R(pmu, True, t), "dR two": lambda: pmu.delta_R(pmu[:2], threads=t),
        "coef": lambda: gcl.calculate.cluster_coeff_distbn(pmu, 1.0, True, t),
        "closest": lambda: gcl.select.arg_closest(pmu[:2], pmu, t), "closest fails": lambda: gcl.select.arg_closest(None, pmu, t),
        "dR fails": lambda: pmu.delta_R("x", True, t), "coef fails": lambda: gcl.calculate.cluster_coeff_distbn(pmu, "r", True, t),
        "tag": lambda: _tag(2),
    }
    if kind == "user":
        nb.set_num_threads(t)
        return
    if kind == "nested":
        focus = Nested(np.array([CLOUD[0], CLOUD[1]]))
        focus.inner = t
        try:
            gcl.select.arg_closest(focus, pmu, 1)
        except (AttributeError, TypeError):
            pass
        return
    if kind.endswith("fails") or (bad and kind != "tag"):
        try:
            fns[kind]()
        except Exception:
            return
        if kind.endswith("fails"):
            fail(f"{op} did not raise")
        return
    fns[kind]()


def gen_hist(tier):
    for d in (1, 2, 3) + ((4,) if tier == THOROUGH else ()):
        if d < 3:
            yield from ((h,) for h in it.product(range(len(OPS)), repeat=d))
        else:
            pool = range(len(OPS)) if d == 3 else (0, 1, 2, 4, 5, 6, 9, 10, 13, 15, 16, 18)
            yield from ((h,) for h in it.product(pool, repeat=d))


@C.family("thread-count histories", gen_hist)
def histories(ctx, hist):
    base = nb.get_num_threads()
    pmu = arr((0, 1, 2, 3))
    model = base
    try:
        for k, i in enumerate(hist):
            op = OPS[i]
            if op[0] == "user":
                model = op[1]
            apply(op, pmu)
            got = nb.get_num_threads()
            require(got == model, "after {} the thread count is {} not {}", [OPS[j] for j in hist[: k + 1]], got, model)
            ctx.step()
        ctx.state(hist)
        ctx.trace()
        ctx.ev(hist if len(hist) > 1 else None)
        ctx.outcome(model)
    finally:
        nb.set_num_threads(base)
