"""Small Monte-Carlo event records with a known history, and their oracles.

An event is described by its hard partons (code, parent, status) and by what
each parton turns into; the oracles work on the description and on plain edge
lists, never on graphicle objects.
"""
import itertools as it

import numpy as np

from mc.util import G, M, gcl

NAMES = {
    1: "d", -1: "d~", 2: "u", -2: "u~", 3: "s", -3: "s~", 4: "c", -4: "c~", 5: "b", -5: "b~", 6: "t", -6: "t~",
    11: "e-", -11: "e+", 12: "nu(e)", -12: "nu(e)~", 13: "mu-", -13: "mu+", 21: "g", 22: "gamma", 23: "Z0", 24: "W+", -24: "W-", 25: "H0",
}


class Builder:
    """Collects rows; vertices are symbolic until the labels are dealt out."""

    def __init__(self):
        self.rows = []  # dict(src, dst, pdg, status, final, pmu, color, tag)
        self.verts = 0

    def vertex(self):
        self.verts += 1
        return self.verts - 1

    def row(self, src, dst, pdg, status, final=False, pmu=(0.0, 0.0, 0.0, 0.0), color=(0, 0), tag=None):
        self.rows.append(dict(src=src, dst=dst, pdg=pdg, status=status, final=final, pmu=pmu, color=color, tag=tag))
        return len(self.rows) - 1

    def finish(self, order=None, labelling=0):
        """Rows in the given order, with vertices named by a labelling family."""
        order = list(range(len(self.rows))) if order is None else list(order)
        assert sorted(order) == list(range(len(self.rows)))
        sinks = set(range(self.verts)) - {r["src"] for r in self.rows}
        if labelling == 0:  # final vertices positive, others negative
            name = {v: (v + 1 if v in sinks else -v - 1) for v in range(self.verts)}
        elif labelling == 1:  # descending, all positive
            name = {v: 3 * (self.verts - v) for v in range(self.verts)}
        else:  # scrambled, zero included
            name = {v: ((v + 2) // 2) * (-1) ** v for v in range(self.verts)}
            name[0] = 0
        return Record([dict(self.rows[i], src=name[self.rows[i]["src"]], dst=name[self.rows[i]["dst"]]) for i in order], name)


class Record:
    def __init__(self, rows, names):
        self.rows = rows
        self.names = names

    def col(self, key):
        return [r[key] for r in self.rows]

    def index(self, tag):
        (i,) = [i for i, r in enumerate(self.rows) if r["tag"] == tag]
        return i

    @property
    def edges(self):
        return [(r["src"], r["dst"]) for r in self.rows]

    def graph(self):
        n = len(self.rows)
        return gcl.Graphicle.from_numpy(
            pdg=np.array(self.col("pdg"), dtype=np.int32),
            pmu=np.array(self.col("pmu"), dtype=float).reshape(n, 4),
            color=np.array(self.col("color"), dtype=np.int32).reshape(n, 2),
            status=np.array(self.col("status"), dtype=np.int16),
            final=np.array(self.col("final"), dtype=bool),
            edges=np.array(self.edges, dtype=np.int32).reshape(n, 2),
        )

    def reach(self, vertex):
        """Edges reachable from a vertex."""
        seen, size = {vertex}, 0
        while size != len(seen):
            size = len(seen)
            seen |= {d for s, d in self.edges if s in seen}
        return [s in seen for s, _ in self.edges]

    def desc(self, i):
        """Row i and everything that descends from it."""
        out = self.reach(self.rows[i]["dst"])
        out[i] = True
        return out

    def hard_rows(self):
        return [i for i, r in enumerate(self.rows) if abs(r["status"]) in (22, 23, 24)]


def unique_names(pdgs):
    names = [NAMES[p] for p in pdgs]
    out, seen = [], {}
    for nm in names:
        if names.count(nm) > 1:
            out.append(f"{nm}:{seen.get(nm, 0)}")
            seen[nm] = seen.get(nm, 0) + 1
        else:
            out.append(nm)
    return out


def forests(k):
    """All parent lists of k partons, parents listed before children."""
    return it.product(*(range(-1, i) for i in range(k)))


def tree_of(rec, parents, tags):
    """Expected nested hierarchy: name -> mask, or dict with 'latent'."""
    hard = rec.hard_rows()
    names = dict(zip(hard, unique_names([rec.rows[i]["pdg"] for i in hard])))
    row_of = {j: rec.index(t) for j, t in enumerate(tags)}
    kids = {j: [i for i, p in enumerate(parents) if p == j] for j in range(-1, len(parents))}

    def node(j):
        mine = np.array(rec.desc(row_of[j]))
        if not kids[j]:
            return mine.tolist()
        out, claimed = {}, np.zeros(len(mine), dtype=bool)
        for i in kids[j]:
            out[names[row_of[i]]] = node(i)
            claimed |= np.array(rec.desc(row_of[i]))
        out["latent"] = (mine & ~claimed).tolist()
        return out

    return {names[row_of[j]]: node(j) for j in kids[-1]}


def as_plain(group):
    """Nested group as nested dicts of boolean lists."""
    if isinstance(group, G):
        return {k: as_plain(v) for k, v in group.items()}
    assert isinstance(group, M), type(group)
    return group.data.tolist()


def hard_event(parents, pdgs, statuses, showers, hard_perm=None, layout="after", labelling=0, copies=0):
    """Incoming pair, a forest of hard partons, and a shower for each leaf.

    showers: per parton, 'none' (final itself), 'one', 'split', 'deep' or
    'radiate' (copies radiate before decaying); ``copies`` inserts that many
    recoil copies between a parton and its decay.
    """
    b = Builder()
    kids = {j: [i for i, p in enumerate(parents) if p == j] for j in range(-1, len(parents))}
    beam = [b.vertex(), b.vertex()]
    root = b.vertex()
    incoming = [b.row(beam[0], root, 21, -21, tag="in0"), b.row(beam[1], root, 2, -21, tag="in1")]
    hard, blocks = {}, {}

    def fan(src, n, code, status, block, final=True):
        for _ in range(n):
            block.append(b.row(src, b.vertex(), code, status, final))

    def emit(j, src):
        dst = b.vertex()
        block = blocks.setdefault(j, [])
        shower = showers[j]
        leaf = not kids[j]
        hard[j] = b.row(src, dst, pdgs[j], statuses[j], leaf and shower == "none", tag=("hard", j))
        at = dst
        for _ in range(copies if not leaf else 0):
            nxt = b.vertex()
            block.append(b.row(at, nxt, pdgs[j], -52, tag=None))
            if shower == "radiate":
                fan(at, 1, 21, 51, block)
            at = nxt
        if not leaf:
            for i in kids[j]:
                emit(i, at)
            if shower == "radiate" and not copies:
                fan(at, 1, 22, 51, block)
        elif shower == "one":
            fan(dst, 1, pdgs[j], 62, block)
        elif shower == "split":
            fan(dst, 2, 21, 51, block)
        elif shower in ("deep", "radiate"):
            mid = b.vertex()
            block.append(b.row(dst, mid, pdgs[j], -51))
            fan(dst, 1, 21, 51, block)
            fan(mid, 2, 22, 51, block)

    for j in kids[-1]:
        emit(j, root)
    mpi = b.vertex()
    extra = [b.row(root, mpi, 21, -41), b.row(mpi, b.vertex(), 1, 43, True)]
    perm = list(hard_perm) if hard_perm is not None else list(range(len(parents)))
    hard_rows = [hard[j] for j in perm]
    rest = [r for j in range(len(parents)) for r in blocks[j]]
    if layout == "after":
        order = incoming + hard_rows + rest + extra
    elif layout == "before":
        order = extra + rest + hard_rows + incoming
    else:  # mixed: each block before its parton, reversed
        order = incoming[:1] + extra[:1]
        for j in perm:
            order += blocks[j][::-1] + [hard[j]]
        order += extra[1:] + incoming[1:]
    return b.finish(order, labelling), [("hard", j) for j in range(len(parents))]
