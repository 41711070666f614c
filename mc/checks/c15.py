"""C15: tabular display shows every particle, or says what it leaves out."""
import html
import re

from mc.core import Check
from mc.util import *

C = Check(
    "C15",
    "exploration",
    "exhaustive enumeration of attribute subsets and record lengths around the truncation threshold, parsing both table formats",
    "Every attribute subset of particle sets and events at every length of a set around the threshold; the rendered "
    "cells, their order, the ellipsis row and the footer are compared with the raw rows.",
    "cases: (length, subset); both formats and both classes; non-trivial when there are rows",
    ["column alignment and padding are not part of the property"],
)
NAMES = {1: "d", -2: "u~", 21: "g", 11: "e-", -13: "mu+", 22: "gamma", 2212: "p", 211: "pi+", -5: "b~", 24: "W+",
         -1: "d~", -11: "e+", 13: "mu-", -211: "pi-", -2212: "p~", 5: "b", -24: "W-", 2: "u"}
HEAD = {"pdg": ["name"], "pmu": ["px", "py", "pz", "energy"], "color": ["color", "anticolor"], "helicity": ["helicity"],
        "status": ["status"], "final": ["final"], "edges": ["src", "dst"]}


def cells(nm, row):
    if nm == "pdg":
        return [NAMES[int(row)]]
    if nm == "pmu":
        return ["%.2E" % v for v in row]
    if nm == "final":
        return [str(bool(row))]
    return [str(int(v)) for v in np.atleast_1d(row)]


def parse_plain(text):
    body, _, foot = text.rpartition("\n\n")
    lines = [ln for ln in body.split("\n") if ln.strip()]
    return [ln.split() for ln in lines], foot


def parse_html(text):
    body, _, foot = text.rpartition("\n\n")
    rows = []
    for tr in re.findall(r"<tr>(.*?)</tr>", body, flags=re.S):
        rows.append([html.unescape(c).strip() for c in re.findall(r"<t[hd][^>]*>(.*?)</t[hd]>", tr, flags=re.S)])
    return rows, foot


def check_table(obj, names, cs, n, what):
    head = sum((HEAD[nm] for nm in ATTRS if nm in names), [])
    if n == 0:
        head = []
    shown = range(n) if n <= 60 else [*range(5), *range(n - 5, n)]
    rows = [sum((cells(nm, cs[nm][i]) for nm in ATTRS if nm in names), []) for i in shown]
    if n > 60:
        rows = rows[:5] + [["..."] * len(head)] + rows[-5:]
    want = ([head] if head else []) + (rows if head else [])
    count = n if head else 0
    plain, foot = parse_plain(str(obj))
    words = [[w for c in row for w in c.split()] for row in want]
    require(plain == words, "{}: table\n{}\nexpected {}", what, str(obj), want)
    require(foot == f"[{count} particles \u00d7 {len(head)} attributes]", "{}: footer {!r}", what, foot)
    page, foot = parse_html(obj._repr_html_())
    require([r for r in page if r] == want, "{}: HTML table\n{}\nexpected {}", what, obj._repr_html_(), want)
    require(foot == f"{count} particles \u00d7 {len(head)} attributes", "{}: HTML footer {!r}", what, foot)


def gen(tier):
    ns = (0, 1, 2, 5, 10, 11, 59, 60, 61, 62, 66, 130)
    if tier == THOROUGH:
        ns = tuple(range(0, 14)) + tuple(range(55, 76)) + (100, 121, 200, 1000)
    for n in ns:
        for names in subsets(ATTRS):
            yield n, names


@C.family("tables", gen)
def tables(ctx, n, names):
    cs = columns(n, 3)
    cs["pdg"] = np.resize(np.array(list(NAMES)), n)
    ev = gcl.Graphicle.from_numpy(**{k: cs[k].copy() for k in names})
    before = frozen(ev)
    check_table(ev, names, cs, n, ("event", n, names))
    pnames = tuple(k for k in names if k != "edges")
    check_table(ev.particles, pnames, cs, n, ("set", n, names))
    check_table(ev, names, cs, n, ("event, again", n, names))
    require(frozen(ev) == before, "rendering changed the event")
    ctx.ev((n, names) if n and names else None)
    ctx.outcome((n > 60, len(names)))


@C.family("values", lambda tier: ((v,) for v in (0.0, -0.0, 1e-300, -1e300, 0.005, 99999.0, -0.995, math.nan, math.inf, -math.inf)))
def values(ctx, v):
    cs = columns(3)
    for j in range(4):
        for i in range(3):
            pmu = cs["pmu"].copy()
            pmu[i, j] = v
            loc = dict(cs, pmu=pmu, pdg=np.array([11, 22, 2212]))
            ev = gcl.Graphicle.from_numpy(**{k: loc[k].copy() for k in ATTRS})
            check_table(ev, ATTRS, loc, 3, ("values", v, i, j))
            ctx.ev((repr(v), i, j))
    ints = dict(cs, pdg=np.array([11, 22, 2212]), color=np.array([[0, 2**31 - 1], [-5, 501], [7, 0]], dtype="<i4"),
                status=np.array([-23, 0, 32767], dtype="<i2"), edges=np.array([[0, -1], [5, 2**31 - 1], [-7, 3]], dtype="<i4"))
    ev = gcl.Graphicle.from_numpy(**{k: ints[k].copy() for k in ATTRS})
    check_table(ev, ATTRS, ints, 3, ("integers",))


def table_names():
    from mc.checks.c12 import CODES, TABLE

    for c in CODES:
        NAMES[c] = TABLE[c]["name"]
    return sorted(CODES, key=lambda c: (len(NAMES[c]), c))


@C.family("every name", lambda tier: ((k, s) for k in range(0, len(table_names()), 60) for s in (("pdg",), ("pdg", "final"), ATTRS)))
def every_name(ctx, k, s):
    """The names of all particles, however long, are shown in full."""
    codes = table_names()[k : k + 60]
    for part in (codes, codes[::-1], codes[:1] + codes[-1:], codes[-1:]):
        cs = columns(len(part), 1)
        cs["pdg"] = np.array(part)
        ev = gcl.Graphicle.from_numpy(**{a: cs[a].copy() for a in s})
        check_table(ev, s, cs, len(part), ("names", k, s))
        check_table(ev.particles, tuple(a for a in s if a != "edges"), cs, len(part), ("names, set", k, s))
        ctx.ev((k, s, len(part)))


@C.family("selections", lambda tier: ((n, k) for n in (61, 70, 100) for k in (59, 60, 61)))
def selections(ctx, n, k):
    """The threshold applies to what is shown, not to where it came from."""
    cs = columns(n)
    cs["pdg"] = np.resize(np.array(list(NAMES)), n)
    ev = gcl.Graphicle.from_numpy(**{a: cs[a].copy() for a in ATTRS})[:k]
    part = {a: cs[a][:k] for a in ATTRS}
    check_table(ev, ATTRS, part, min(n, k), ("selection", n, k))
    ctx.ev((n, k))


@C.family("long", lambda tier: ((n, s) for n in (99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1234, 4096, 9999, 10001, 32768, 40001) + ((65537, 1000003) if tier == THOROUGH else ())
                                for s in [(a,) for a in ATTRS] + [("pmu", "final")] + ([ATTRS] if n < 10000 else [])))
def long_records(ctx, n, names):
    """The count in the footer and the last rows of records of every magnitude."""
    cs = columns(n, 3) if n < 10000 else {k: np.resize(v, (n, *v.shape[1:])) for k, v in columns(1009, 3).items()}
    cs["pdg"] = np.resize(np.array(list(NAMES)[:18]), n)
    ev = gcl.Graphicle.from_numpy(**{k: cs[k].copy() for k in names})
    check_table(ev, names, cs, n, ("long event", n, names))
    pnames = tuple(k for k in names if k != "edges")
    check_table(ev.particles, pnames, cs, n, ("long set", n, names))
    ctx.ev((n, names))
