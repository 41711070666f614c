"""C39: omitted arguments mean their documented defaults, however a call is spelt."""
import inspect

from mc.core import Check
from mc.checks.c20 import build, mom
from mc.checks.c32 import jets, plain, regroup, world
from mc.checks.c38 import alike
from mc.events import *
from mc.util import *

C = Check(
    "C39",
    "exploration",
    "exhaustive enumeration of the spellings of calls: every optional argument omitted, given its documented default, or another value, by position or by name",
    "For every public function and method with optional arguments: every combination of documented default or another value, every "
    "subset of the defaults omitted, and every number of arguments given by position; all answers equal to the fully spelt call.",
    "cases: (function, event variant); evaluations: spellings; non-trivial when something is omitted",
    ["names, order and defaults are those of the published documentation"],
)
SE, CA, TR, MX = gcl.select, gcl.calculate, gcl.transform, gcl.matrix
NO = object()

# name: (function of the world, required arguments, optional arguments with documented default and another value)
F = {
    "fastjet_clusters": (lambda w: jets, (("pmu", lambda w: w.fin), ("radius", lambda w: 0.8), ("p_val", lambda w: -1)), (("pt_cut", None, 30.0), ("eta_cut", None, 1.5), ("top_k", None, 2))),
    "find_vertex": (lambda w: SE.find_vertex, (("graph", lambda w: w.g),), (("pdgs_in", None, {24}), ("pdgs_out", None, {2, -1}))),
    "partition_descendants": (lambda w: SE.partition_descendants, (("graph", lambda w: shared_hadrons()[0]), ("hier", lambda w: shared_hadrons()[1])), (("pt_exp", -0.1, 3.0),)),
    "hard_descendants": (lambda w: SE.hard_descendants, (("graph", lambda w: w.g),), (("target", None, {-24, 5}), ("sign_sensitive", False, True), ("strict", True, False))),
    "hierarchy": (lambda w: SE.hierarchy, (("graph", lambda w: w.g),), (("desc", None, lambda w: thinned(SE.hard_descendants(w.g))),)),
    "centroid_prune": (lambda w: SE.centroid_prune, (("pmu", lambda w: w.g.pmu), ("radius", lambda w: 1.1)), (("mask", None, lambda w: w.m1), ("centre", None, (0.3, 1.0)))),
    "color_singlets": (lambda w: ordered(SE.color_singlets), (("leaves", lambda w: w.leaves), ("status", lambda w: w.g.status), ("color", lambda w: w.g.color)), (("invert", False, True),)),
    "arg_closest": (lambda w: SE.arg_closest, (("focus", lambda w: w.other[:2]), ("candidate", lambda w: w.g.pmu)), (("num_threads", 1, 2),)),
    "monte_carlo_tag": (
        lambda w: SE.monte_carlo_tag, (("particles", lambda w: w.g.particles), ("cluster_masks", lambda w: w.cl)),
        (("clustered_pmu", None, lambda w: w.fin * -1.0), ("intermediate", False, True), ("outgoing", True, True), ("sign_sensitive", False, True),
         ("blacklist", None, [5, 1]), ("whitelist", None, NO)),
    ),
    "monte_carlo_tag listed": (
        lambda w: SE.monte_carlo_tag, (("particles", lambda w: w.g.particles), ("cluster_masks", lambda w: w.cl)),
        (("clustered_pmu", None, NO), ("intermediate", False, True), ("outgoing", True, NO), ("sign_sensitive", False, True), ("blacklist", None, NO), ("whitelist", None, [1, 5, 24])),
    ),
    "weighted_centroid": (lambda w: CA.weighted_centroid, (("pmu", lambda w: w.g.pmu),), (("pseudo", True, False),)),
    "resultant_coords": (lambda w: CA.resultant_coords, (("pmu", lambda w: w.g.pmu),), (("pseudo", True, False),)),
    "combined_mass": (lambda w: CA.combined_mass, (("pmu", lambda w: w.g.pmu),), (("weight", None, lambda w: w.weights4),)),
    "cluster_coeff_distbn": (lambda w: CA.cluster_coeff_distbn, (("pmu", lambda w: heavy()), ("radius", lambda w: 0.9)), (("pseudo", True, False), ("threads", 1, 2))),
    "thrust": (lambda w: seeded(CA.thrust), (("pmu", lambda w: w.g.pmu),), (("return_axis", False, True),)),
    "spherocity": (lambda w: seeded(CA.spherocity), (("pmu", lambda w: w.other),), (("return_axis", False, True),)),
    "jaccard_distance": (lambda w: CA.jaccard_distance, (("mask_1", lambda w: w.m1), ("mask_2", lambda w: w.m2)), (("weights", None, lambda w: w.weights),)),
    "split_hardest": (lambda w: TR.split_hardest, (("momenta", lambda w: w.g.pmu), ("z", lambda w: 0.3), ("angle", lambda w: 0.2)), (("axis", None, (0.2, 0.3)),)),
    "cut_adj": (lambda w: MX.cut_adj, (("matrix", lambda w: w.aff), ("cut", lambda w: 8.0)), (("mode", "max", "min"), ("self_loop", False, True), ("weighted", False, True))),
    "knn_adj": (lambda w: MX.knn_adj, (("matrix", lambda w: w.aff), ("k", lambda w: 2)), (("self_loop", False, True), ("weighted", False, True), ("row", True, False), ("dtype", None, np.float32))),
    "fc_adj": (lambda w: MX.fc_adj, (("num_nodes", lambda w: 5),), (("self_loop", False, True), ("dtype", "<?", "<i4"))),
    "parton_hadron_distance": (lambda w: MX.parton_hadron_distance, (("parton_pmu", lambda w: w.other), ("hadron_pmu", lambda w: w.g.pmu)), (("pt_exp", -0.1, -1.0),)),
    "PdgArray.mask": (lambda w: w.g.pdg.mask, (("target", lambda w: [5, -24]),), (("blacklist", True, False), ("sign_sensitive", False, True))),
    "from_spherical_uniform": (lambda w: sampled, (("size", lambda w: 6), ("max_energy", lambda w: 50.0)), (("massless", 0.0, 0.5),)),
    "shift_eta": (lambda w: loud(w.other.shift_eta), (("shift", lambda w: 0.4),), (("experimental", False, True), ("max_corrections", 10, 1), ("abs_tol", 1e-10, 1.0))),
    "delta_R": (lambda w: w.g.pmu.delta_R, (("other", lambda w: w.other),), (("pseudo", True, False), ("threads", 1, 2))),
    "in_range": (lambda w: w.g.status.in_range, (), (("min_status", 0, 30), ("max_status", None, 84), ("sign_sensitive", False, True))),
    "recursive_drop": (lambda w: w.grp.recursive_drop, (), (("key", "latent", "a"), ("inplace", False, True))),
    "flatten": (lambda w: w.grp.flatten, (), (("how", "rise", "leaves"),)),
    "flatten again": (lambda w: w.grp.flatten, (), (("how", "rise", "agg"),)),
    "equal_to": (lambda w: w.grp.equal_to, (("other", lambda w: w.grp[["latent", "b", "a"]]),), (("check_order", False, True),)),
    "from_matrix": (lambda w: gcl.AdjacencyList.from_matrix, (("adj_matrix", lambda w: w.aff),), (("weighted", False, True), ("self_loop", False, True))),
    "to_sparse": (lambda w: w.g.adj.to_sparse, (), (("data", None, lambda w: w.weights),)),
    "MaskGroup": (lambda w: group_of, (("mask_arrays", lambda w: {"a": w.m1, "b": w.m2}),), (("agg_op", "and", "or"),)),
    "MaskGroup none": (lambda w: group_of, (("mask_arrays", lambda w: {"a": w.m1, "b": w.m2}),), (("agg_op", "and", gcl.data.MaskAggOp.OR),)),
    "ParticleSet.from_numpy": (
        lambda w: gcl.ParticleSet.from_numpy, (),
        (("pdg", None, lambda w: w.g.pdg.data), ("pmu", None, lambda w: w.g.pmu.data), ("color", None, lambda w: w.g.color.data), ("helicity", None, lambda w: w.g.helicity.data),
         ("status", None, lambda w: w.g.status.data), ("final", None, lambda w: w.g.final.data)),
    ),
    "Graphicle.from_numpy": (
        lambda w: gcl.Graphicle.from_numpy, (("pdg", lambda w: w.g.pdg.data),),
        (("pmu", None, lambda w: w.g.pmu.data), ("color", None, NO), ("helicity", None, NO), ("status", None, lambda w: w.g.status.data), ("final", None, NO),
         ("edges", None, lambda w: w.g.edges), ("weights", None, lambda w: w.weights)),
    ),
    "ParticleSet": (
        lambda w: gcl.ParticleSet, (("pdg", lambda w: w.g.pdg),),
        (("pmu", gcl.MomentumArray, lambda w: w.g.pmu), ("color", gcl.ColorArray, lambda w: w.g.color), ("helicity", gcl.HelicityArray, lambda w: w.g.helicity),
         ("status", gcl.StatusArray, lambda w: w.g.status), ("final", gcl.MaskArray, lambda w: w.g.final)),
    ),
    "Graphicle": (lambda w: gcl.Graphicle, (), (("particles", gcl.ParticleSet, lambda w: w.g.particles), ("adj", gcl.AdjacencyList, lambda w: w.g.adj))),
    "AdjacencyList": (lambda w: gcl.AdjacencyList, (("data", lambda w: w.g.edges),), (("weights", lambda: np.array([]), lambda w: w.weights),)),
}


def shared_hadrons():
    """An event with hadrons descending from two partons, and its hierarchy."""
    rec, parents, tags = build(True, ("A", "A"), "AB", (0, 1, 2), 0, 0)
    return rec.graph(), regroup(tree_of(rec, parents, tags))


def heavy():
    """Momenta whose rapidity is far from their pseudorapidity."""
    return gcl.MomentumArray(np.array([mom(0.8 * i - 2.0, 0.3 * (i % 2), 10.0 + i, 9.0 * i) for i in range(7)]))


def thinned(desc):
    """Descendant masks other than the ones computed by default."""
    for m in desc.values():
        m.data[np.flatnonzero(m.data)[-1:]] = False
    return desc


def ordered(f):
    return lambda *a, **k: sorted(map(sorted, f(*a, **k)))


def seeded(f):
    return lambda *a, **k: f(*a, rng_seed=5, **k)


def sampled(*a, **k):
    return gcl.MomentumArray.from_spherical_uniform(*a, seed=5, **k)


def loud(f):
    def call(*a, **k):
        import warnings

        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            return f(*a, **k), [str(m.category) for m in got if "Stability" in str(m.category)]

    return call


def group_of(*a, **k):
    g = gcl.MaskGroup(*a, **k)
    return g, g.agg_op.name, M(g.data)


def value(v, w):
    """Argument: classes and niladic defaults are called, functions of the world evaluated."""
    if isinstance(v, type) and v not in (np.float32,):
        return v()
    if inspect.isfunction(v):
        return v(w) if v.__code__.co_argcount else v()
    return v


def spelt(name, variant, choice, omit, positional):
    w = world(variant)
    func, req, opt = F[name]
    args = [(n, f(w)) for n, f in req] + [(n, value(alt if c else d, w)) for (n, d, alt), c, o in zip(opt, choice, omit) if not o]
    order = [n for n, _ in req] + [n for n, _, _ in opt]
    k = positional
    if [n for n, _ in args[:k]] != order[:k]:
        return NO
    try:
        ans = func(w)(*[v for _, v in args[:k]], **dict(args[k:]))
    except ValueError:
        return ValueError
    return ans, (plain(w.grp) if name == "recursive_drop" else None)


def gen(tier):
    for variant in ("numpy", "weighted", "selected") if tier == THOROUGH else ("numpy",):
        for name in F:
            for choice in it.product(*[(False,) if alt is NO else (False, True) for _, _, alt in F[name][2]]):
                yield name, variant, choice


@C.family("spellings", gen)
def spellings(ctx, name, variant, choice):
    func, req, opt = F[name]
    w = world(variant)
    want = spelt(name, variant, choice, [False] * len(opt), 0)
    for omit in it.product(*[(False,) if c else (False, True) for c in choice]):
        for k in range(len(req) + len(opt) + 1 - sum(omit)):
            got = spelt(name, variant, choice, omit, k)
            if got is NO:
                continue
            require((want is ValueError) == (got is ValueError), "{} is rejected in one spelling only: {} {} {}", name, choice, omit, k)
            if want is not ValueError:
                require(alike(want, got), "{} with {} omitted and {} by position gives {} instead of {}",
                        name, [o[0] for o, m in zip(opt, omit) if m], k, got, want)
            ctx.ev((name, variant, choice, omit, k) if any(omit) else None)
    ctx.outcome((name, want is ValueError))


def gen_alt(tier):
    for name in F:
        yield (name,)


@C.family("effects", gen_alt)
def effects(ctx, name):
    """The other values do make a difference, so a wrong default shows (counted, not judged)."""
    func, req, opt = F[name]
    choices = list(it.product(*[(False,) if alt is NO else (False, True) for _, _, alt in opt]))
    ans = {c: spelt(name, "numpy", c, [False] * len(opt), 0) for c in choices}
    for i, (n, _, alt) in enumerate(opt):
        if alt is NO or n in ("threads", "num_threads", "outgoing"):
            continue
        same = all((x is ValueError) == (y is ValueError) and (x is ValueError or alike(x, y))
                   for c in choices if not c[i] for x, y in [(ans[c], ans[c[:i] + (True,) + c[i + 1:]])])
        ctx.note("argument without effect: " + name + "." + n if same else "arguments with effect")
        ctx.ev((name, n))
    ctx.outcome(name)
