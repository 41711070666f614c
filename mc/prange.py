"""Controlled scheduling of numba parallel loops.

Every parallel kernel of a module is re-compiled from its own source text as a
plain Python function in which each ``prange`` iteration is a coroutine that
stops before every array element read and write.  A scheduler then decides
which iteration runs next, so that all interleavings up to a preemption bound
can be enumerated.  The kernels are reached through the public functions that
call them, by swapping the module globals for the duration of one execution.
"""
import ast
import inspect
import textwrap


class Untransformable(Exception):
    pass


def parallel_kernels(module):
    """Parallel dispatchers among the module's globals, by name."""
    out = {}
    for name, obj in vars(module).items():
        opts = getattr(obj, "targetoptions", None)
        if opts and opts.get("parallel") and hasattr(obj, "py_func"):
            out[name] = obj
    return out


def _is_prange(node):
    if not isinstance(node, ast.Call):
        return False
    f = node.func
    return (isinstance(f, ast.Attribute) and f.attr == "prange") or (isinstance(f, ast.Name) and f.id == "prange")


def _stores(nodes, aug=False):
    out = set()
    for root in nodes:
        for n in ast.walk(root):
            if isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name) and aug:
                    out.add(n.target.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not aug:
                out.add(n.id)
    return out


def _aug_only(nodes):
    """Names only ever updated in place: reductions."""
    aug = _stores(nodes, aug=True)
    plain = set()
    for root in nodes:
        for n in ast.walk(root):
            if isinstance(n, (ast.Assign, ast.For, ast.AnnAssign)):
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in targets:
                    plain |= {m.id for m in ast.walk(t) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
    return aug - plain


class _Loads(ast.NodeTransformer):
    """Stops before every subscript read: X[i] -> ((yield), X[i])[1]."""

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            pair = ast.Tuple([ast.Yield(None), node], ast.Load())
            return ast.Subscript(pair, ast.Constant(1), ast.Load())
        return node

    def visit_Lambda(self, node):
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_Lambda


class _Body:
    """Rewrites the statements of one iteration into coroutine form."""

    def __init__(self, counter):
        self.counter = counter

    def expr(self, node):
        return _Loads().visit(node) if node is not None else None

    def fresh(self):
        self.counter[0] += 1
        return f"_mc_tmp{self.counter[0]}"

    def block(self, stmts, depth):
        out = []
        for s in stmts:
            out += self.stmt(s, depth)
        return out or [ast.Pass()]

    def stmt(self, s, depth):
        stop = ast.Expr(ast.Yield(None))
        if isinstance(s, ast.Continue) and depth == 0:
            return [ast.Return(None)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return []
            tmp = self.fresh()
            out = [ast.Assign([ast.Name(tmp, ast.Store())], self.expr(s.value))]
            for t in targets:
                t = _Loads().visit(t)
                if any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(t)):
                    out.append(stop)
                out.append(ast.Assign([t], ast.Name(tmp, ast.Load())))
            return out
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                return [ast.AugAssign(s.target, s.op, self.expr(s.value))]
            import copy

            read = copy.deepcopy(s.target)
            for n in ast.walk(read):
                if hasattr(n, "ctx"):
                    n.ctx = ast.Load()
            val, tmp = self.fresh(), self.fresh()
            return [
                ast.Assign([ast.Name(val, ast.Store())], self.expr(s.value)),
                stop,
                ast.Assign([ast.Name(tmp, ast.Store())], ast.BinOp(read, s.op, ast.Name(val, ast.Load()))),
                stop,
                ast.Assign([s.target], ast.Name(tmp, ast.Load())),
            ]
        if isinstance(s, ast.For):
            if _is_prange(s.iter):
                s.iter.func = ast.Name("range", ast.Load())
            return [ast.For(s.target, self.expr(s.iter), [stop] + self.block(s.body, depth + 1), self.block(s.orelse, depth) if s.orelse else [])]
        if isinstance(s, ast.While):
            return [ast.While(self.expr(s.test), [stop] + self.block(s.body, depth + 1), [])]
        if isinstance(s, ast.If):
            return [ast.If(self.expr(s.test), self.block(s.body, depth), self.block(s.orelse, depth) if s.orelse else [])]
        if isinstance(s, ast.Expr):
            return [stop, ast.Expr(self.expr(s.value))]
        if isinstance(s, (ast.Pass, ast.Continue, ast.Break)):
            return [s]
        raise Untransformable(type(s).__name__)


class _Kernel(ast.NodeTransformer):
    def __init__(self, func):
        self.counter = [0]
        self.func = func
        self.regions = 0

    def visit_For(self, node):
        if not _is_prange(node.iter):
            self.generic_visit(node)
            return node
        if not isinstance(node.target, ast.Name):
            raise Untransformable("prange target")
        self.regions += 1
        before = set()
        for n in ast.walk(self.func):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.lineno < node.lineno:
                before.add(n.id)
        before |= {a.arg for a in self.func.args.args}
        reductions = sorted(_aug_only(node.body) & before)
        private = sorted((_stores(node.body) & before) - set(reductions) - {node.target.id})
        name = f"_mc_body{self.regions}"
        body = _Body(self.counter).block(node.body, 0)
        head = [ast.Nonlocal(reductions)] if reductions else []
        fn = ast.FunctionDef(
            name=name,
            args=ast.arguments(
                posonlyargs=[], args=[ast.arg(node.target.id)] + [ast.arg(p) for p in private], kwonlyargs=[], kw_defaults=[],
                defaults=[ast.Name(p, ast.Load()) for p in private],
            ),
            body=head + [ast.Expr(ast.Yield(None))] + body,
            decorator_list=[],
        )
        call = ast.Expr(ast.Call(ast.Name("_mc_schedule", ast.Load()), [ast.Name(name, ast.Load())] + node.iter.args, []))
        return [fn, call]


def transform(dispatcher, namespace):
    """Plain function with schedulable iterations, and its number of regions."""
    try:
        source = textwrap.dedent(inspect.getsource(dispatcher.py_func))
        tree = ast.parse(source)
        func = tree.body[0]
        if not isinstance(func, ast.FunctionDef):
            raise Untransformable(type(func).__name__)
        func.decorator_list = []
        func.returns = None
        for a in func.args.args:
            a.annotation = None
        kernel = _Kernel(func)
        new_body = []
        for s in func.body:
            r = kernel.visit(s)
            new_body += r if isinstance(r, list) else [r]
        func.body = new_body
        ast.fix_missing_locations(tree)
        code = compile(tree, f"<schedulable {func.name}>", "exec")
    except (OSError, SyntaxError, TypeError, Untransformable) as e:
        raise Untransformable(str(e))
    exec(code, namespace)
    return namespace[func.name], kernel.regions


class Scheduler:
    """Runs one execution: follows ``prefix``, then always the first choice."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []  # (number enabled, running still enabled)
        self.choices = []
        self.steps = 0

    def schedule(self, body, *range_args):
        tasks = {k: body(i) for k, i in enumerate(range(*map(int, range_args)))}
        running = None
        while tasks:
            enabled = sorted(tasks)
            if running in tasks:
                enabled.remove(running)
                enabled.insert(0, running)
            if len(enabled) > 1:
                at = len(self.choices)
                choice = self.prefix[at] if at < len(self.prefix) else 0
                if choice >= len(enabled):
                    raise RuntimeError("schedule diverged while replaying a prefix")
                self.points.append((len(enabled), running in tasks))
                self.choices.append(choice)
            else:
                choice = 0
            running = enabled[choice]
            self.steps += 1
            try:
                next(tasks[running])
            except StopIteration:
                del tasks[running]


def executions(run, bound, limit=None, part=(0, 1)):
    """All executions with at most ``bound`` preemptions; ``run(scheduler)``.

    Yields (choices, preemptions, steps, result); the first is the default
    schedule. ``part=(k, n)`` keeps only a share of the executions with two or
    more deviations (by the place of the second), so that n parts together
    cover the space."""
    stack = [((), 0)]
    count = 0
    while stack:
        prefix, depth = stack.pop()
        sched = Scheduler(prefix)
        result = run(sched)
        if list(sched.choices[: len(prefix)]) != list(prefix):
            raise RuntimeError("schedule diverged while replaying a prefix")
        cost = 0
        costs = []
        for c, (_, still) in zip(sched.choices, sched.points):
            costs.append(cost)
            cost += bool(c) and still
        yield tuple(sched.choices), cost, sched.steps, result
        count += 1
        if limit is not None and count >= limit:
            raise RuntimeError(f"more than {limit} schedules")
        for i in range(len(prefix), len(sched.choices)):
            n, still = sched.points[i]
            if costs[i] + bool(still) > bound:
                continue
            for alt in range(1, n):
                if depth == 1 and (i + 3 * alt + 5 * len(prefix)) % part[1] != part[0]:
                    continue
                stack.append((tuple(sched.choices[:i]) + (alt,), depth + 1))
