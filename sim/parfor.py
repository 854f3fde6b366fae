"""numba parallel loops as simulated threads.

With NUMBA_DISABLE_JIT numba runs decorated functions as Python and `prange` as `range`.
Functions of the code under test that contain prange loops are rebuilt here so that the
loop body is a closure which `_parfor` runs on simulated threads: every chunking, order
and interleaving of iterations that the parallel loop allows can then be scheduled.

As in numba, names bound inside the body are private to an iteration, arrays are shared,
and `x op= e` on a name of the enclosing function is a reduction.
"""

import ast
import functools
import inspect
import sys
import textwrap
import types

from . import sched

MAX_THREADS = 8
_outside = [MAX_THREADS]


def _cell():
    sim = sched.SIM
    if sim is None:
        return None
    return sim.by_ident.get(sched._get_ident())


def get_num_threads():
    t = _cell()
    if t is None:
        return _outside[0]
    return t.numba_threads or MAX_THREADS


def set_num_threads(n):
    import numbers
    if not isinstance(n, numbers.Integral) or isinstance(n, bool):
        raise TypeError("The number of threads specified must be an integer")
    if n < 1 or n > MAX_THREADS:
        raise ValueError(f"The number of threads must be between 1 and {MAX_THREADS}")
    t = _cell()
    if t is None:
        _outside[0] = int(n)
    else:
        t.numba_threads = int(n)


def _hold():
    if sched.SIM is not None:
        sched.SIM.hold += 1


def _release():
    if sched.SIM is not None:
        sched.SIM.hold -= 1


def _parfor(iterations, body):
    items = list(iterations)
    sim = sched.SIM
    n = get_num_threads()
    if sim is None or sched._get_ident() not in sim.by_ident:
        for i in items:
            body(i)
        return
    n = max(1, min(n, len(items)))
    style = sim.loop_rng.random()
    if style < 0.25:
        sim.loop_rng.shuffle(items)
    elif style < 0.4:
        items.reverse()
    size, extra = divmod(len(items), n)
    chunks, at = [], 0
    for w in range(n):
        m = size + (w < extra)
        chunks.append(items[at:at + m])
        at += m
    sim.loop_shapes.append([list(c) for c in chunks])
    errors, done = [], []

    def work(chunk):
        try:
            for i in chunk:
                body(i)
        except BaseException as e:
            errors.append(e)
        finally:
            done.append(1)

    threads = []
    for c in chunks:
        t = sim.start_thread(work, (c,), can_fail=False)
        t.name = "loop"
        threads.append(t)
    while not all(t.done for t in threads):
        sim.block(lambda: all(t.done for t in threads), interruptible=False)
    if errors:
        raise errors[0]


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names, self.aug = set(), set()

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Store):
            self.names.add(node.id)

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name):
            self.aug.add(node.target.id)
        else:
            self.visit(node.target)
        self.visit(node.value)

    def visit_FunctionDef(self, node):
        self.names.add(node.name)


class _Body(ast.NodeTransformer):
    """continue -> return (of the loop itself only), reductions made atomic."""

    def __init__(self, reductions):
        self.depth, self.reductions = 0, reductions

    def visit_For(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    visit_While = visit_For

    def visit_FunctionDef(self, node):
        return node

    def visit_Continue(self, node):
        return node if self.depth else ast.copy_location(ast.Return(value=None), node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and node.target.id in self.reductions:
            call = lambda f: ast.Expr(ast.Call(ast.Name(f, ast.Load()), [], []))  # noqa: E731
            tmp = ast.Assign([ast.Name("__red", ast.Store())], node.value)
            add = ast.AugAssign(node.target, node.op, ast.Name("__red", ast.Load()))
            return [ast.copy_location(ast.fix_missing_locations(ast.copy_location(x, node)), node)
                    for x in (tmp, call("__sim_hold"), add, call("__sim_release"))]
        return node


def _is_prange(node):
    return (isinstance(node, ast.Call) and
            ((isinstance(node.func, ast.Name) and node.func.id == "prange") or
             (isinstance(node.func, ast.Attribute) and node.func.attr == "prange")))


class _Loops(ast.NodeTransformer):
    def __init__(self, outer):
        self.outer, self.n = outer, 0

    def visit_For(self, node):
        self.generic_visit(node)
        if not _is_prange(node.iter):
            return node
        a = _Assigned()
        for st in node.body:
            a.visit(st)
        target = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        before = self.outer
        reductions = {x for x in a.aug if x in before and x not in a.names}
        shared = {x for x in a.names if x in before} - target
        body = []
        t = _Body(reductions)
        for st in node.body:
            r = t.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        names = sorted(reductions | shared)
        if names:
            body.insert(0, ast.Nonlocal(names))
        self.n += 1
        fname = f"__parfor_body_{self.n}"
        args = ast.arguments(posonlyargs=[], args=[ast.arg(node.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
        fn = ast.FunctionDef(name=fname, args=args, body=body, decorator_list=[], type_params=[])
        call = ast.Expr(ast.Call(ast.Name("__sim_parfor", ast.Load()),
                                 [ast.Call(ast.Name("range", ast.Load()), node.iter.args, []),
                                  ast.Name(fname, ast.Load())], []))
        out = []
        for x in (fn, call):
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
            out.append(x)
        return out


def _names_before(fn):
    """Names bound in the function outside its prange loops (and its arguments)."""
    a = _Assigned()

    class V(ast.NodeVisitor):
        def visit_For(self, node):
            if _is_prange(node.iter):
                return
            for ch in ast.iter_child_nodes(node):
                self.visit(ch)

        def generic_visit(self, node):
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
                a.names.add(node.id)
            super().generic_visit(node)

    v = V()
    for st in fn.body:
        v.visit(st)
    args = {x.arg for x in [*fn.args.posonlyargs, *fn.args.args, *fn.args.kwonlyargs]}
    return a.names | args


def rebuild(fn):
    """The function with its prange loops on simulated threads, or None when it has none."""
    code = fn.__code__
    if "prange" not in code.co_names:
        return None
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    node = tree.body[0]
    node.decorator_list = []
    ast.increment_lineno(tree, code.co_firstlineno - 1)
    loops = _Loops(_names_before(node))
    # parameters are annotated with names that need not resolve again
    node = loops.visit(node)
    if not loops.n:
        return None
    tree.body[0] = node
    ast.fix_missing_locations(tree)
    ns = fn.__globals__
    ns.setdefault("__sim_parfor", _parfor)
    ns.setdefault("__sim_hold", _hold)
    ns.setdefault("__sim_release", _release)
    scope = {}
    exec(compile(tree, code.co_filename, "exec"), ns, scope)
    new = scope[fn.__name__]
    new.__defaults__, new.__kwdefaults__ = fn.__defaults__, fn.__kwdefaults__
    return new


def patch_numba():
    """Before bm25s is imported."""
    import numba
    numba.get_num_threads, numba.set_num_threads = get_num_threads, set_num_threads
    try:
        import numba.np.ufunc.parallel as par
        par.get_num_threads, par.set_num_threads = get_num_threads, set_num_threads
    except ImportError:
        pass


def install():
    """After bm25s is imported: rebuild every parallel function of it, wherever it is referenced."""
    found = {}
    mods = [m for n, m in list(sys.modules.items()) if n == "bm25s" or n.startswith("bm25s.")]
    for m in mods:
        for name, v in list(vars(m).items()):
            f = getattr(v, "py_func", v)
            if isinstance(f, types.FunctionType) and (f.__module__ or "").startswith("bm25s"):
                if f not in found:
                    try:
                        found[f] = rebuild(f)
                    except Exception:  # a form this rewriter does not know: the loop stays serial
                        found[f] = None
                if found[f] is not None:
                    setattr(m, name, found[f])
    return [f.__name__ for f, new in found.items() if new is not None]
