"""Exploration engine shared by all checks.

A check is a list of *families*.  A family enumerates a finite space of cases
(generator, smallest first, deterministic) and judges each one against the real
code in /repo.  Cases are dealt round-robin to forked workers; every case is
judged, none is sampled.  The first violating case in enumeration order is
written to a replay file, from which ``check.sh ID --replay FILE`` judges that
one case again in a fresh process.
"""
import hashlib
import itertools as it
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
CASE_LIMIT = {"quick": 240.0, "thorough": 1500.0}  # seconds without finishing a case: reported as a hang


class Violation(AssertionError):
    """The property does not hold for the current case."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Ctx:
    """Counters for what a worker really covered."""

    def __init__(self):
        self.per_family = {}
        self.cases = 0
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self._nontrivial = set()
        self._states = set()
        self._outcomes = {}
        self.samples = []
        self.known = set()
        self.notes = {}
        self.property = None
        self.family = None
        self.known_keys = frozenset()

    @staticmethod
    def _h(key):
        if not isinstance(key, bytes):
            key = repr(key).encode()
        return hashlib.blake2b(key, digest_size=8).digest()

    def ev(self, key=None, n=1):
        """Counts a comparison with the oracle; ``key`` names a non-trivial one."""
        self.evaluations += n
        if key is not None:
            self._nontrivial.add(self._h((self.family, key)))

    def state(self, key):
        """Registers a model state; True when it is new to this worker."""
        h = self._h((self.family, key))
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """A complete model trace replayed against the implementation."""
        self.traces += n

    def outcome(self, key):
        key = f"{self.family}:{key}"
        self._outcomes[key] = self._outcomes.get(key, 0) + 1

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=repr)))

    def finding(self, key, msg):
        """A violation that the known-findings file may list."""
        if key in self.known_keys:
            self.known.add(key)
        else:
            raise Violation(f"{msg} [finding key: {key}]")


class Check:
    def __init__(self, pid, level, technique, note, rule, assumptions=(), jit=True, workers=8):
        self.id, self.level, self.technique, self.note = pid, level, technique, note
        self.rule, self.assumptions, self.jit, self.workers = rule, list(assumptions), jit, workers
        self.families = []
        self.setup = None

    def family(self, name, gen):
        """Registers ``judge(ctx, *case)`` for the cases yielded by ``gen(tier)``."""

        def deco(judge):
            self.families.append((name, gen, judge))
            return judge

        return deco

    def cases(self, tier):
        for f_idx, (name, gen, _) in enumerate(self.families):
            for case in gen(tier):
                yield f_idx, case


def known_findings(pid):
    """Keys and texts of the listed findings of a property."""
    out = {}
    if not os.path.exists(KNOWN_FILE):
        return out
    with open(KNOWN_FILE) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = dict(p.split("=", 1) for p in line.split()[1:] if "=" in p and p.split("=", 1)[0] in ("property", "key"))
            if parts.get("property") == pid:
                out[parts["key"]] = line.split("::", 1)[1].strip() if "::" in line else line
    return out


class _Hang(Exception):
    pass


def judge_one(check, ctx, f_idx, case):
    name, _, judge = check.families[f_idx]
    ctx.family = name
    ctx.cases += 1
    ctx.per_family[name] = ctx.per_family.get(name, 0) + 1
    try:
        judge(ctx, *case)
    except Violation as e:
        return str(e)
    except RecursionError as e:
        return f"unexpected RecursionError: {e}"
    except Exception:
        return "unexpected exception\n" + traceback.format_exc()
    return None


def _worker(check, tier, w, nw, wfd, beat):
    ctx = Ctx()
    ctx.property = check.id
    ctx.known_keys = frozenset(known_findings(check.id))
    result = None
    try:
        for idx, (f_idx, case) in enumerate(check.cases(tier)):
            if idx % nw != w:
                continue
            beat[2 * w] = idx
            beat[2 * w + 1] = time.monotonic()
            msg = judge_one(check, ctx, f_idx, case)
            if idx < 3 * nw or (ctx.cases % 997 == 0):
                ctx.sample({"family": check.families[f_idx][0], "case": case})
            if msg is not None:
                result = (idx, f_idx, case, msg)
                break
    except BaseException:
        result = (-1, None, None, "harness error\n" + traceback.format_exc())
    payload = pickle.dumps((result, ctx.__dict__))
    with os.fdopen(wfd, "wb") as f:
        f.write(payload)


def _case_at(check, tier, idx):
    for i, (f_idx, case) in enumerate(check.cases(tier)):
        if i == idx:
            return f_idx, case
    return None, None


def _jsonable(case):
    return json.loads(json.dumps(case, default=repr))


def _retuple(x):
    return tuple(map(_retuple, x)) if isinstance(x, list) else x


def write_replay(check, tier, f_idx, case, msg):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    blob = pickle.dumps((f_idx, case))
    body = {
        "property": check.id,
        "tier": tier,
        "family": check.families[f_idx][0] if f_idx is not None else None,
        "case": _jsonable(case),
        "message": msg,
        "pickle": blob.hex(),
    }
    digest = hashlib.sha1(blob).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{check.id}-{digest}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def run(check, tier, seed):
    """Explores the whole bounded space; returns the exit code."""
    import mmap
    import struct

    t0 = time.monotonic()
    if check.setup is not None:
        check.setup(tier)
    nw = check.workers
    shared = mmap.mmap(-1, 16 * nw)

    class Beat:
        def __setitem__(self, i, v):
            struct.pack_into("d", shared, 8 * i, float(v))

        def __getitem__(self, i):
            return struct.unpack_from("d", shared, 8 * i)[0]

    beat = Beat()
    sys.stdout.flush()
    sys.stderr.flush()
    procs = {}
    for w in range(nw):
        rfd, wfd = os.pipe()
        beat[2 * w] = -1
        beat[2 * w + 1] = time.monotonic()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                _worker(check, tier, w, nw, wfd, beat)
            except BaseException:
                traceback.print_exc()
                code = 7
            os._exit(code)
        os.close(wfd)
        procs[w] = (pid, rfd)
    import select as sel

    bufs = {w: b"" for w in procs}
    open_fds = {rfd: w for w, (_, rfd) in procs.items()}
    hung, died = {}, {}
    while open_fds:
        ready, _, _ = sel.select(list(open_fds), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                bufs[open_fds[fd]] += chunk
            else:
                os.close(fd)
                del open_fds[fd]
        now = time.monotonic()
        for fd, w in list(open_fds.items()):
            if now - beat[2 * w + 1] > CASE_LIMIT[tier] and not bufs[w] and w not in hung:
                hung[w] = int(beat[2 * w])
                os.kill(procs[w][0], signal.SIGKILL)
    for w, (pid, _) in procs.items():
        _, status = os.waitpid(pid, 0)
        if status != 0 and w not in hung:
            died[w] = (int(beat[2 * w]), status)
    ctxs, failures, broken = [], [], []
    for w in procs:
        if not bufs[w] or w in died:
            continue
        result, state = pickle.loads(bufs[w])
        ctx = Ctx()
        ctx.__dict__.update(state)
        ctxs.append(ctx)
        if result is not None:
            (broken if result[0] < 0 else failures).append(result)
    for w, idx in hung.items():
        f_idx, case = _case_at(check, tier, idx)
        failures.append((idx, f_idx, case, f"no result after {CASE_LIMIT[tier]:.0f} s (hang)"))
    for w, (idx, status) in died.items():
        sig = status & 0x7F
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            f_idx, case = _case_at(check, tier, idx)
            failures.append((idx, f_idx, case, f"process crashed with signal {sig}"))
        else:
            broken.append((-1, None, None, f"worker {w} ended with status {status} at case {idx}"))
    wall = time.monotonic() - t0
    total = merge(ctxs)
    write_evidence(check, tier, seed, total, wall, len(failures))
    listed = known_findings(check.id)
    for key in sorted(total["known"]):
        print(f"KNOWN-FINDING: property={check.id} {key} :: {listed.get(key, '')}")
    if failures:
        idx, f_idx, case, msg = min(failures, key=lambda r: r[0])
        path = write_replay(check, tier, f_idx, case, msg)
        print(f"family {check.families[f_idx][0]} case #{idx}: {_short(case)}")
        print(msg)
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    empty = [name for name, _, _ in check.families if not total["per_family"].get(name)]
    if empty or not total["nontrivial"]:
        broken.append((-1, None, None, f"nothing explored in {empty or 'any family'}"))
    if broken:
        for b in broken:
            print("CHECK ERROR:", b[3], file=sys.stderr)
        return 3
    print(
        f"OK property={check.id} tier={tier} cases={total['cases']} evaluations={total['evaluations']} "
        f"nontrivial={total['nontrivial']} states={total['states']} transitions={total['transitions']} "
        f"traces={total['traces']} outcomes={len(total['outcomes'])} wall={wall:.1f}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(total["outcomes"].items()):
            print("   outcome", k, v)
        for k, v in sorted(total["notes"].items()):
            print("   note", k, v)
    return 0


def _short(obj, n=1500):
    s = repr(obj)
    return s if len(s) <= n else s[:n] + "..."


def merge(ctxs):
    outcomes, notes, nontrivial, states, known, samples = {}, {}, set(), set(), set(), []
    families = {}
    for c in ctxs:
        for k, v in c.per_family.items():
            families[k] = families.get(k, 0) + v
        nontrivial |= c._nontrivial
        states |= c._states
        known |= c.known
        for k, v in c._outcomes.items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in c.notes.items():
            notes[k] = notes.get(k, 0) + v
    for i in range(3):
        for c in ctxs:
            if i < len(c.samples) and len(samples) < 6:
                samples.append(c.samples[i])
    return dict(
        cases=sum(c.cases for c in ctxs),
        evaluations=sum(c.evaluations for c in ctxs),
        transitions=sum(c.transitions for c in ctxs),
        traces=sum(c.traces for c in ctxs),
        nontrivial=len(nontrivial),
        states=len(states),
        outcomes=outcomes,
        notes=notes,
        per_family=families,
        known=known,
        samples=samples,
    )


def write_evidence(check, tier, seed, total, wall, violations):
    cov = {
        "rule": check.rule,
        "samples": total["samples"],
        "cases": total["cases"],
        "cases_per_family": total["per_family"],
        "distinct_outcomes": len(total["outcomes"]),
        "outcomes": dict(sorted(total["outcomes"].items())[:60]),
        "notes": total["notes"],
        "exhaustive": violations == 0,
        "explanation": check.note,
    }
    cov["evaluations"] = total["evaluations"]
    cov["distinct_nontrivial"] = total["nontrivial"]
    if check.level == "model_checking":
        cov["states"] = total["states"]
        cov["transitions"] = total["transitions"]
        cov["traces_validated_against_impl"] = total["traces"]
    out = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{check.id}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(out, f, indent=1)
    os.replace(path + ".tmp", path)


def replay(check, path):
    with open(path) as f:
        body = json.load(f)
    f_idx, case = pickle.loads(bytes.fromhex(body["pickle"]))
    if check.setup is not None:
        check.setup(body["tier"])
    ctx = Ctx()
    ctx.known_keys = frozenset(known_findings(check.id))
    msg = judge_one(check, ctx, f_idx, case)
    print(f"case {check.families[f_idx][0]}: {_short(case)}")
    if msg is None:
        print("replay: property holds for this case")
        return 0
    print(msg)
    print(f"VIOLATION property={check.id} replay={path}")
    return 1
