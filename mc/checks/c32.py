"""C32: queries have no side effects, so all queries commute."""
from mc.core import Check
from mc.events import *
from mc.checks.c20 import crowd, mom
from mc.util import *

C = Check(
    "C32",
    "model_checking",
    "explicit-state exploration of query histories on a shared world of objects, against the model in which no query changes any state",
    "Every history A, B, A over all pairs of public queries and every history of three over the queries that fill or read "
    "caches, on events built in several ways. Model state: the set of queries already answered (the implementation's cache "
    "state); in every state the answer of each query must equal its answer on a fresh world, and all inputs, component "
    "objects and earlier answers must be bitwise unchanged.",
    "cases: event variant x first query (x second query); states are sets of answered queries, transitions are queries, "
    "every history is replayed on real objects",
    ["documented in-place operations (data setters, in-place arithmetic, recursive_drop(inplace=True), item assignment) are not queries"],
)
SE, CA, TR, MX = gcl.select, gcl.calculate, gcl.transform, gcl.matrix


def plain(x):
    """Bitwise snapshot of any answer."""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return repr(x)
    if isinstance(x, np.generic):
        return ("np", str(x.dtype), x.tobytes())
    if hasattr(x, "tocoo") and hasattr(x, "nnz"):
        c = x.tocoo()
        return ("sparse", c.shape, frozen(np.asarray(c.row)), frozen(np.asarray(c.col)), frozen(np.asarray(c.data)))
    if isinstance(x, np.ndarray) and x.dtype.kind in "OT":
        return ("obj", x.tolist())
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", frozen(np.asarray(x.filled())), frozen(np.ma.getmaskarray(x)))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, dict):
        return ("dict", tuple((k, plain(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(plain(v) for v in x))
    return frozen(x)


class World:
    """An event, and objects derived from it, that all queries share."""


POS = [(0.0, 0.1, 40.0), (1.0, 3.1, 25.0), (-1.2, -3.1, 12.0), (0.4, -1.5, 60.0), (2.0, 1.6, 5.0), (-0.3, 2.8, 33.0), (0.8, 0.9, 7.0), (-1.9, -0.4, 18.0)]


def record(last=-1):
    parents, pdgs = (-1, 0, 0, 2, 2), (6, 5, 24, 2, last)
    rec, _ = hard_event(parents, pdgs, (22, 23, 22, 23, 23), ("none", "split", "none", "deep", "one"), layout="mixed", labelling=1, copies=1)
    for i, r in enumerate(rec.rows):
        eta, phi, pt = POS[(3 * i + 1) % 8]
        r["pmu"] = mom(eta + 0.07 * i, wrap_angle(phi + 0.3 * i), pt + 0.5 * i, 0.2 + 0.1 * (i % 3))
        r["color"] = ((501, 0), (0, 501), (0, 0), (502, 503))[i % 4]
        if r["final"]:
            r["status"] = 83 + i % 3
    rec.rows[rec.index(("hard", 1))]["color"] = (501, 0)
    rec.rows[rec.index(("hard", 3))]["color"] = (502, 0)
    rec.rows[rec.index(("hard", 4))]["color"] = (0, 502)
    return rec


REC = record()


def regroup(tree, op="or", below=None):
    below = below or op
    return G({k: regroup(v, below) if isinstance(v, dict) else M(v) for k, v in tree.items()}, agg_op=op)


def leaves(tree):
    for k, v in tree.items():
        if isinstance(v, dict):
            yield from leaves(v)
        elif k != "latent":
            yield k, v


HIER = tree_of(REC, (-1, 0, 0, 2, 2), [("hard", j) for j in range(5)])
TWINS = record(2)  # two hard partons of one name
TWIN_HIER = tree_of(TWINS, (-1, 0, 0, 2, 2), [("hard", j) for j in range(5)])
BIG, _PARENTS, _TAGS = crowd(3, 3, 24, True, 1, ((501, 0), (502, 0), (0, 502)))
BIG_HIER = tree_of(BIG, _PARENTS, _TAGS)
VARIANTS = ("numpy", "selected", "copied", "weighted", "large", "twins", "odd")


def world(variant):
    w = World()
    rec, tree = {"large": (BIG, BIG_HIER), "twins": (TWINS, TWIN_HIER)}.get(variant, (REC, HIER))
    g = rec.graph()
    n = len(g.pdg)
    if variant == "selected":
        w.parent = g
        g = g[np.ones(n, dtype=bool)]
    elif variant == "copied":
        w.parent = g
        g = g.copy()
    elif variant == "weighted":
        adj = gcl.AdjacencyList(g.edges, weights=np.arange(n) * 0.5 + 1.0)
        g = gcl.Graphicle(particles=g.particles, adj=adj)
    g.particles.helicity.data = np.arange(n) % 3 - 1
    if variant == "odd":  # momenta on the edges of their range
        rows = np.asarray(g.pmu.data).copy()
        for i, row in enumerate(((0.0, 0.0, 0.0, 0.0), (0.0, 0.0, -3.0, 3.0), (1.0, 2.0, 2.0, -4.0), (3.0, 4.0, 0.0, 1.0), (-0.0, 2.0, -1.0, 0.0), (0.0, 0.0, 7.0, 9.0))):
            rows[(2 * i + 1) % n] = row
        g.particles.pmu.data = rows
    w.g = g
    w.n = n
    w.fin = g.pmu[g.final]
    w.hier = regroup(tree)
    w.strict = regroup(tree, "and")
    w.mixed = regroup(tree, "none", "and")
    w.leaves = regroup({k: v for k, v in leaves(tree)})
    w.m1 = M(np.arange(n) % 2 == 0)
    w.m2 = M(np.arange(n) % 3 == 0)
    nf = len(w.fin)
    w.cl = [M(np.arange(nf) % 3 == k) for k in range(3)]
    w.other = gcl.MomentumArray(np.array([mom(0.3, 0.2, 10.0), mom(-0.7, 2.0, 20.0), mom(1.1, -3.0, 5.0)]))
    w.shift = np.linspace(-0.5, 0.5, n)
    w.aff = np.abs(np.subtract.outer(np.arange(6.0), np.arange(6.0) ** 1.5))
    w.aff = w.aff + w.aff.T
    w.weights = np.arange(n) * 0.25
    w.weights4 = np.outer(np.arange(n), (1.0, 1.0, 1.0, 2.0))
    w.lst = [11, 24, 6]
    w.grp = G({"a": w.m1, "b": G({"c": w.m2, "latent": w.m1 & w.m2}, agg_op="or"), "latent": ~w.m2}, agg_op="or")
    w.codes = gcl.PdgArray([1, -5, 21])
    w.one = w.other[:1]
    if variant == "odd":
        w.other = g.pmu[[1, 3, 5, 7]]
        w.one = gcl.MomentumArray([[0.0, 0.0, 5.0, 6.0]])
    return w


def snap(w):
    return tuple((k, plain(v)) for k, v in sorted(vars(w).items()))


BANNER = [False]


def jets(*args, **kw):
    if BANNER[0]:
        return SE.fastjet_clusters(*args, **kw)
    BANNER[0] = True
    with quiet_stdout():
        return SE.fastjet_clusters(*args, **kw)


PROPS = {
    "g.pdg": ("name", "latex", "charge", "mass", "mass_bounds", "quarks", "width", "width_bounds", "isospin", "g_parity", "space_parity", "charge_parity", "data"),
    "g.pmu": ("x", "y", "z", "energy", "pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t", "data"),
    "other": ("eta", "rapidity", "phi", "mass"),
    "g.color": ("color", "anticolor", "data"),
    "g.adj": ("edges", "nodes", "roots", "leaves", "matrix", "data"),
    "g.helicity": ("data",),
    "g.status": ("data", "hard_mask"),
    "g": ("hard_mask", "edges", "nodes", "final"),
    "grp": ("data",),
}


def reach(w, path):
    for part in path.split("."):
        w = getattr(w, part)
    return w


Q = {}
for path, names in PROPS.items():
    for nm in names:
        Q[f"{path}.{nm}"] = lambda w, path=path, nm=nm: getattr(reach(w, path), nm)
for path in ("g", "g.particles", "g.pdg", "g.pmu", "g.color", "g.helicity", "g.status", "g.final", "g.adj", "grp"):
    Q[f"{path}.serialize"] = lambda w, path=path: reach(w, path).serialize()
    Q[f"{path}.copy"] = lambda w, path=path: reach(w, path).copy()
    Q[f"str {path}"] = lambda w, path=path: (str(reach(w, path)), repr(reach(w, path)), len(reach(w, path)), bool(reach(w, path)))
for path in ("g", "g.particles", "g.pdg", "g.pmu", "g.color", "g.helicity", "g.status", "g.final", "g.adj"):
    Q[f"{path}[mask]"] = lambda w, path=path: reach(w, path)[w.m1]
    Q[f"{path}[slice]"] = lambda w, path=path: reach(w, path)[1:-1]
Q.update({
    "html": lambda w: (w.g._repr_html_(), w.g.particles._repr_html_()),
    "pdg.mask": lambda w: (w.g.pdg.mask([5, -24]), w.g.pdg.mask(w.lst, True, sign_sensitive=True)),
    "pdg ==": lambda w: (w.g.pdg == 21, w.g.pdg != w.g.pdg),
    "pmu ==": lambda w: (w.g.pmu == w.g.pmu, w.g.pmu[0] != w.g.pmu),
    "arithmetic": lambda w: (w.g.pmu + w.g.pmu, w.other * 2.0, np.sum(w.g.pmu, axis=0), np.abs(w.g.pdg), -w.g.status),
    "iteration": lambda w: (list(w.g.pmu), list(w.g.color), list(w.g.adj), list(w.g.pdg), list(w.m1)),
    "shift_rapidity": lambda w: (w.g.pmu.shift_rapidity(0.4), w.g.pmu.shift_rapidity(w.shift)),
    "shift_phi": lambda w: (w.g.pmu.shift_phi(0.4), w.g.pmu.shift_phi(w.shift)),
    "shift_eta": lambda w: w.other.shift_eta(0.4),
    "shift_eta experimental": lambda w: (w.other.shift_eta(0.4, experimental=True), w.g.pmu.shift_eta(w.shift, experimental=True)),
    "delta_R self": lambda w: w.g.pmu.delta_R(w.g.pmu),
    "delta_R other": lambda w: w.g.pmu.delta_R(w.other, pseudo=False),
    "delta_R back": lambda w: w.other.delta_R(w.g.pmu),
    "status.in_range": lambda w: w.g.status.in_range(20, 30),
    "to_sparse": lambda w: (w.g.adj.to_sparse(), w.g.adj.to_sparse(w.weights)),
    "from_matrix": lambda w: gcl.AdjacencyList.from_matrix(w.aff, weighted=True),
    "mask algebra": lambda w: (w.m1 & w.m2, w.m1 | w.grp, ~w.grp, w.grp == w.m1, w.m1 != w.m2, w.grp & w.m1),
    "group views": lambda w: (w.grp.flatten("rise"), w.grp.flatten("agg"), w.grp.flatten("leaves")),
    "group drop": lambda w: w.grp.recursive_drop(),
    "group bits": lambda w: (w.grp.bitwise_or(), w.grp.bitwise_and(), w.hier.to_dict()),
    "group equal": lambda w: (w.grp.equal_to(w.grp), w.hier.equal_to(w.grp, True)),
    "group rows": lambda w: (w.g.pmu[w.grp], w.grp[["a", "b"]], w.g.pmu[w.grp[["a", "b"]]]),
    "fastjet": lambda w: jets(w.fin, radius=0.8, p_val=-1),
    "fastjet cut": lambda w: jets(w.fin, radius=1.2, p_val=1, pt_cut=5.0, eta_cut=2.0, top_k=2),
    "find_vertex": lambda w: SE.find_vertex(w.g, pdgs_in={24}),
    "vertex_descendants": lambda w: SE.vertex_descendants(w.g.adj, int(w.g.edges["dst"][3])),
    "edge_descendants": lambda w: SE.edge_descendants(w.g.adj, next(iter(w.g.adj[3:4]))),
    "hadron_vertices": lambda w: SE.hadron_vertices(w.g.adj, w.g.status),
    "hierarchy": lambda w: SE.hierarchy(w.g),
    "hard_descendants": lambda w: (SE.hard_descendants(w.g), SE.hard_descendants(w.g, {24})),
    "leaf_masks": lambda w: SE.leaf_masks(w.hier),
    "partition_descendants": lambda w: SE.partition_descendants(w.g, w.hier),
    "partition strict": lambda w: SE.partition_descendants(w.g, w.strict),
    "partition mixed": lambda w: SE.partition_descendants(w.g, w.mixed),
    "strict groups": lambda w: (w.strict.data, w.strict.flatten("rise"), w.strict.bitwise_or(), w.strict.recursive_drop(), SE.leaf_masks(w.strict), w.strict & w.m1),
    "mixed groups": lambda w: (w.mixed.flatten("leaves"), w.mixed.bitwise_or(), w.mixed.bitwise_and(), SE.leaf_masks(w.mixed), w.mixed.serialize(), repr(w.mixed)),
    "any_overlap": lambda w: SE.any_overlap(w.leaves),
    "centroid_prune": lambda w: (SE.centroid_prune(w.g.pmu, 0.8), SE.centroid_prune(w.g.pmu, 1.2, w.m1), SE.centroid_prune(w.g.pmu, 1.5, w.m2, (0.1, 0.2))),
    "color_singlets": lambda w: (SE.color_singlets(w.leaves, w.g.status, w.g.color), sorted(SE.color_singlets(w.leaves, w.g.status, w.g.color, True))),
    "clusters": lambda w: SE.clusters(w.g, 0.8),
    "arg_closest": lambda w: SE.arg_closest(w.other[:2], w.g.pmu),
    "arg_closest back": lambda w: SE.arg_closest(w.g.pmu[:2], w.other),
    "monte_carlo_tag": lambda w: SE.monte_carlo_tag(w.g.particles, w.cl),
    "monte_carlo_tag listed": lambda w: SE.monte_carlo_tag(w.g.particles, w.cl, w.fin, True, True, False, w.lst),
    "weighted_centroid": lambda w: (CA.weighted_centroid(w.g.pmu), CA.weighted_centroid(w.other, False)),
    "resultant_coords": lambda w: (CA.resultant_coords(w.g.pmu), CA.resultant_coords(w.other, False)),
    "combined_mass": lambda w: (CA.combined_mass(w.g.pmu), CA.combined_mass(w.g.pmu, w.weights4)),
    "cluster_coeff": lambda w: CA.cluster_coeff_distbn(w.g.pmu, 1.0),
    "aggregate_momenta": lambda w: CA.aggregate_momenta(w.fin, w.cl),
    "thrust": lambda w: CA.thrust(w.g.pmu, True, 3),
    "spherocity": lambda w: CA.spherocity(w.other, True, 3),
    "c_parameter": lambda w: CA.c_parameter(w.g.pmu),
    "jaccard": lambda w: (CA.jaccard_distance(w.m1, w.m2), CA.jaccard_distance(w.grp, w.m2, w.weights)),
    "cut_adj": lambda w: (MX.cut_adj(w.aff, 2.0), MX.cut_adj(w.aff, 2.0, "min", True, True)),
    "knn_adj": lambda w: (MX.knn_adj(w.aff, 2), MX.knn_adj(w.aff, 2, True, True, False)),
    "fc_adj": lambda w: MX.fc_adj(4),
    "affinities": lambda w: (MX.delta_R_aff(w.other), MX.parton_hadron_distance(w.other, w.g.pmu)),
    "soft_hard_axis": lambda w: TR.soft_hard_axis(w.g.pmu),
    "split_hardest": lambda w: (TR.split_hardest(w.g.pmu, 0.3, 0.4), TR.split_hardest(w.other, 0.5, 0.1, (0.2, 0.3))),
    "split_momentum": lambda w: TR.split_momentum(w.one, 0.3, 0.4, (0.2, 0.3)),
    "rotation_matrix": lambda w: TR.rotation_matrix(0.3, TR.SphericalAngle(0.2, 0.3)),
    "from_name": lambda w: gcl.PdgArray.from_name(["u", "W+"]),
    "from_numpy": lambda w: gcl.Graphicle.from_numpy(pmu=w.g.pmu.data, edges=w.g.edges, pdg=w.g.pdg.data, weights=w.weights),
    "equality": lambda w: (w.g.particles == w.g.particles.copy(), w.g == w.g.copy()),
    "sampler": lambda w: gcl.MomentumArray.from_spherical_uniform(5, 10.0, 0.5, 7),
    "np.array": lambda w: (np.array(w.g.pmu), np.asarray(w.g.color), np.array(w.m1), np.array(w.grp), np.asarray(w.g.adj)),
})
NAMES_Q = list(Q)
# queries that fill or read a cached quantity, or hand out buffers to kernels
CORE = [q for q in NAMES_Q if q.startswith(("g.pmu.", "other.")) or q in (
    "g.adj.matrix", "g.adj.nodes", "g.adj.roots", "g.status.hard_mask", "g.hard_mask", "shift_rapidity", "shift_eta", "shift_eta experimental", "delta_R self",
    "delta_R other", "delta_R back", "arg_closest", "arg_closest back", "clusters", "cluster_coeff", "monte_carlo_tag", "centroid_prune",
    "hierarchy", "partition_descendants", "split_hardest", "aggregate_momenta", "affinities", "group drop", "color_singlets")
    and not q.endswith(("serialize", "copy"))]
CHEAP = [q for q in CORE if q not in ("clusters", "hierarchy", "partition_descendants", "monte_carlo_tag", "cluster_coeff", "color_singlets", "group drop", "g.hard_mask", "g.status.hard_mask", "g.adj.matrix", "g.adj.roots")]
REFS = {}


def reference(variant):
    if variant not in REFS:
        w = world(variant)
        REFS[variant] = {"snap": snap(w)}
    return REFS[variant]


def ask(variant, q, w):
    """The answer; on odd momenta a refusal is an answer too."""
    if variant != "odd":
        return Q[q](w)
    try:
        with np.errstate(all="ignore"):
            return Q[q](w)
    except Exception as err:
        return ("refused", type(err).__name__)


def ref(variant, q):
    refs = reference(variant)
    if q not in refs:
        w = world(variant)
        refs[q] = plain(ask(variant, q, w))
        require(plain(ask(variant, q, world(variant))) == refs[q], "{} is not reproducible on a fresh world", q)
    return refs[q]


def play(ctx, variant, history):
    w = world(variant)
    start = snap(w)
    require(start == reference(variant)["snap"], "building the world is not reproducible")
    held = []
    done = frozenset()
    for k, q in enumerate(history):
        ans = ask(variant, q, w)
        shot = plain(ans)
        require(shot == ref(variant, q), "{} after {} differs from its answer on a fresh copy: {} instead of {}",
                q, history[:k], _cut(shot), _cut(ref(variant, q)))
        for p, old, was in held:
            require(plain(old) == was, "{} changed the earlier answer of {} (history {})", q, p, history[: k + 1])
        held.append((q, ans, shot))
        done = done | {q}
        ctx.step()
        ctx.state((variant, tuple(sorted(done))))
        if k + 1 == len(history) or k == 0:
            now = snap(w)
            if now != start:
                bad = [a[0] for a, b in zip(start, now) if a != b]
                fail(f"{history[: k + 1]} modified {bad}")
    require_process("{}", history if len(history) < 9 else len(history))
    ctx.ev((variant, tuple(history)))
    ctx.trace()


def _cut(x):
    s = repr(x)
    return s[:300] + ("..." if len(s) > 300 else "")


@C.family("single queries", lambda t: ((v, q) for v in VARIANTS for q in NAMES_Q))
def single(ctx, variant, q):
    play(ctx, variant, (q,))
    play(ctx, variant, (q, q, q))
    ctx.outcome(variant)


@C.family("pairs", lambda t: ((v, a) for v in (VARIANTS if t == THOROUGH else VARIANTS[:1]) for a in NAMES_Q))
def pairs(ctx, variant, a):
    for b in NAMES_Q:
        play(ctx, variant, (a, b, a))
    ctx.outcome("pairs")


@C.family("triples", lambda t: ((v, a, b) for v in (VARIANTS if t == THOROUGH else VARIANTS[:1])
                                for a in (CORE if t == THOROUGH else CHEAP) for b in (CORE if t == THOROUGH else CHEAP) if a != b))
def triples(ctx, variant, a, b):
    for c in CORE if ctx_thorough() else CHEAP:
        if c not in (a, b):
            play(ctx, variant, (a, b, c))
    ctx.outcome("triples")


def ctx_thorough():
    return DEEP[0]


DEEP = [False]


def _setup(tier):
    DEEP[0] = tier == THOROUGH


C.setup = _setup


@C.family("full rounds", lambda t: ((v, k, r) for v in VARIANTS for k in range(0, len(NAMES_Q), 1 if t == THOROUGH else 8) for r in (False, True)))
def rounds(ctx, variant, k, rev):
    order = NAMES_Q[k:] + NAMES_Q[:k]
    play(ctx, variant, tuple(reversed(order)) if rev else tuple(order))
    ctx.outcome("rounds")
