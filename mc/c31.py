"""C31: expansions in different threads do not affect each other.

Two threads run under a controlled scheduler: only the one that has the baton runs; it passes the baton on at the chosen preemption points,
which are the executed lines (or calls, or bytecode instructions) of mcpyrate and of the macros."""
import ast
import builtins
import importlib
import io
import os
import re
import sys
import threading
import time

from .proc import plain

LEVEL = "model_checking"
RULE = ("every pair of workloads (nested quotes, quote errors, captures of values and macros, explicit expansion, debug aids, dialects, multi-phase and run-time compilation, imports with shared macro dependencies, failing macros, utilities) in two threads; "
        "all schedules with one preemption, at each executed line of mcpyrate and of the macros (quick: the first or the first two executions of each line, fewer pairs; thorough: the first six, and the bytecode instructions of each line), and with two preemptions at calls (quick: some pairs, fewer calls); "
        "comparison: the result of each workload with the one when run alone; generated names are distinct over the threads; state: distinct (pair, schedule); transition: one point (line, call or instruction) passed under control")
BUDGET = {"quick": 600, "thorough": 3600}
TIMEOUT = 600
ASSUMPTIONS = ["threads switch at the lines of mcpyrate and of the macros; not inside of C code, nor in the lines of the standard library that these call"]

MAC = '''
import ast, threading
from mcpyrate.quotes import macros, q, u, n, a, s, h
from mcpyrate import gensym, namemacro, parametricmacro
from mcpyrate.debug import macros, step_expansion
from mcpyrate.utils import NestingLevelTracker
from c31_in import macros, inner
from c31_in import inner
class Boom(Exception): pass
HELD = ["held"]
def helper(*args):
    return ("helped", *args)
def quoting(tree, **kw):
    return q[("quoted", a[tree], u[[1, {"k": 2}]], n["name" + "d"])]
def capturing(tree, **kw):
    return q[h[helper](h[HELD], h[inner][a[tree]])]
def swap(tree, *, syntax, expander, invocation, **kw):
    with q as new:
        with a:
            tree
        n["after"] = u[len(tree)]
    return new
level = NestingLevelTracker()
def outer(tree, *, expander, **kw):
    with level.changed_by(+1):
        return expander.visit_recursively(tree)
def depth(tree, **kw):
    return ast.Constant(value=level.value)
def needs(tree, **kw):
    if level.value < 1:
        raise SyntaxError("only in outer")
    return tree
def once(tree, *, expander, **kw):
    t = expander.visit_once(tree)
    return q[("once", a[t])]
def names(tree, **kw):
    x, y = gensym("x"), gensym("x")
    return q[[n[x] for n[x] in [1] for n[y] in [2]]]
def boom(tree, **kw):
    raise Boom("boom")
@namemacro
def it(tree, **kw):
    return q[("it", 5)]
@parametricmacro
def param(tree, *, args, **kw):
    return q[(t[args], a[tree])] if False else ast.Tuple(elts=[*args, tree], ctx=ast.Load())
'''
IN = '''from mcpyrate.quotes import macros, q, a
def inner(tree, **kw):
    return q[("inner", a[tree])]
'''
DIA = '''
from mcpyrate.dialects import Dialect
from mcpyrate.quotes import macros, q, a
from mcpyrate.splicing import splice_dialect
class D(Dialect):
    def transform_source(self, text):
        return text.replace("FORTYTWO", "42")
    def transform_ast(self, tree):
        with q as template:
            from c31_mac import macros, quoting
            __paste_here__
        tree.body = splice_dialect(tree.body, template, "__paste_here__", lineno=self.lineno, col_offset=self.col_offset)
        return tree
    def postprocess_ast(self, tree):
        tree.body.append(ast.parse("post = 1").body[0])
        return tree
'''.replace("from mcpyrate.dialects", "import ast\nfrom mcpyrate.dialects", 1)
MID = "from c31_mac import macros, quoting\ndef mid(tree, **kw):\n    return quoting[tree]\nmidvalue = 3\n"
USE = "from c31_mac import macros, quoting, once, names\nnamed = 7\nr = (quoting[1], once[quoting[2]], len(names[0]))\n"

TEXT = {
    "quotes": "from mcpyrate.quotes import macros, q, u, n, a, s, t, h\nx = q[f(u[1], n['a'], q[u[u[c]]])]\nwith q as y:\n    a[d]\n",
    "unquote": "from mcpyrate.quotes import macros, q, u\nx = q[u[1]]\ny = u[2]\n",
    "levels": "from c31_mac import macros, outer, depth, needs, once\nx = (depth[0], outer[(depth[0], outer[depth[0]], needs[1])], depth[0])\ny = once[depth[0]]\n",
    "wrong": "from c31_mac import macros, outer, needs\nx = outer[needs[1]]\ny = needs[2]\n",
    "captures": "from c31_mac import macros, capturing, inner\nx = capturing[inner[1]]\ny = capturing[capturing[2]]\n",
    "block": "from c31_mac import macros, swap, quoting, it, param, names\nwith swap:\n    x = quoting[it]\n    z = names[1]\ny = param[1, it][quoting[3]]\n",
    "boom": "from c31_mac import macros, quoting, boom, outer\nx = outer[quoting[boom[1]]]\n",
    "debug": "from mcpyrate.debug import macros, step_expansion, show_bindings\nfrom c31_mac import macros, quoting, inner\nx = step_expansion[quoting[step_expansion[inner[1]]]]\ny = show_bindings\n",
    "dialect": "from c31_dia import dialects, D\nx = quoting[FORTYTWO]\n",
}


class Tls(threading.local):
    err = None


TLS = Tls()


class Err:
    """sys.stderr: each thread has its own."""
    def write(self, s):
        if TLS.err is None:
            return sys.__stderr__.write(s)
        return TLS.err.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def dump(tree):
    return scrub(ast.dump(tree, include_attributes=True)) if isinstance(tree, ast.AST) else scrub(repr(tree))


UU = re.compile(r"[0-9a-f]{32}")
NUMBER = re.compile(r"(b'[^']*'|b\"[^\"]*\")")


def scrub(text):
    """Without generated names (kept apart: numbered in order of appearance), capture numbers."""
    seen = {}
    text = UU.sub(lambda m: "U%d" % seen.setdefault(m.group(), len(seen)), text)
    text = re.sub(r"#\d+(?=['\"])", "#N", text)
    text = re.sub(r"c31_uni\w*?\d+", "c31_unit", text)
    return re.sub(r"0x[0-9a-f]{6,}", "0xX", plain(text))


def uuids(text):
    return set(UU.findall(text))


def expand_text(name):
    def go(env):
        from mcpyrate.compiler import expand
        return expand(TEXT[name], filename="c31_unit.py")
    return go


def w_run(env):
    from mcpyrate.compiler import run, temporary_module, create_module
    from mcpyrate.utils import gensym
    m = run("'''doc'''\n" + TEXT["captures"] + "z = [x, y]\n")
    with temporary_module(filename="c31_unit.py") as t:
        run("from c31_mac import macros, quoting\nnamed = 1\nv = quoting[2]\n", t)
        name = t.__name__
        here = name in sys.modules
    env["names"].add(name)
    return [m.x, m.y, m.__doc__, m.x[1] is m.y[1], here, name in sys.modules, t.v]


def w_phases(env):
    from mcpyrate.compiler import run, create_module
    name = "c31_unit" + str(env["id"])
    m = create_module(name, filename="c31_unit.py")
    run("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    from mcpyrate.quotes import macros, q, u\n    def k(tree, **kw):\n        return q[('k', u[1])]\nfrom __self__ import macros, k\nr = k[3]\n", m)
    ok = sys.modules.get(name) is m
    sys.modules.pop(name, None)
    return [m.r, ok, sorted(x for x in vars(m) if not x.startswith("_"))]


def w_import(env):
    name = "c31_unit" + str(env["id"])
    path = os.path.join(env["dir"], name + ".py")
    with open(path, "w") as f:
        f.write(USE)
    importlib.invalidate_caches()
    try:
        m = importlib.import_module(name)
    finally:
        sys.modules.pop(name, None)
        os.unlink(path)
    return [m.r, m.named]


def w_stats(env):
    from mcpyrate.importer import path_stats
    path = os.path.join(env["dir"], "c31_use.py")
    return [path_stats(path)["mtime"], path_stats(os.path.join(env["dir"], "c31_mid.py"))["mtime"]]


def w_utils(env):
    from mcpyrate import gensym, unparse
    from mcpyrate import dump as d
    from mcpyrate.utils import extract_bindings, flatten, rename
    from mcpyrate.markers import get_markers
    from mcpyrate.quotes import is_captured_value
    import c31_mac
    a, b = gensym("a"), gensym("a")
    t = ast.parse("def f(x):\n    return [x + y for y in g(x)]\n")
    rename("x", a, t)
    env["names"] |= {a, b}
    return [unparse(t), d(t), a == b, flatten([1, [2, [3]]]), len(get_markers(t))]


def w_shared(env):
    """Captures evaluated by both threads in the same code."""
    ns = dict(env["ns"])
    exec(env["code"], ns)
    env["shared"] = ns["got"]
    return [ns["got"], ns["same"]]


WORK = {**{k: expand_text(k) for k in TEXT}, "run": w_run, "phases": w_phases, "import": w_import, "stats": w_stats, "utils": w_utils, "shared": w_shared}
STATE = {}


def setup():
    d = os.path.realpath("c31dir")
    if STATE.get("pid") == os.getpid():
        return
    os.makedirs(d, exist_ok=True)
    for k, v in {"c31_in": IN, "c31_mac": MAC, "c31_dia": DIA, "c31_mid": MID, "c31_use": "from c31_mid import macros, mid\nfrom c31_mac import macros, quoting\nx = 1\n"}.items():
        with open(f"{d}/{k}.py", "w") as f:
            f.write(v)
    sys.path.insert(0, d)
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.repl.utils  # noqa: F401
    import c31_mac  # noqa: F401
    import c31_dia  # noqa: F401
    import c31_mid  # noqa: F401
    sys.stderr = Err()
    root = os.path.join(os.path.realpath(os.environ["MC_REPO"]), "mcpyrate") + os.sep
    STATE.update(dir=d, roots=(root, d + os.sep), pid=os.getpid(), n=0)
    STATE["alone"] = {}
    for k in WORK:
        outcome(k, env_for(shared_code()))
        STATE["alone"][k] = strip(outcome(k, env_for(shared_code())))


def shared_code():
    """Code with captured values, made anew so that nothing is looked up yet."""
    from mcpyrate.quotes import capture_value
    t = ast.parse("one = lambda: X\ngot = one()\nsame = got is one()")
    t.body[0].value.body = capture_value(["captured"], "v")
    for x in ast.walk(t):
        if isinstance(x, (ast.Name, ast.Attribute, ast.Tuple)) and not hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return compile(ast.fix_missing_locations(t), "c31_shared", "exec")


def env_for(code):
    STATE["n"] += 1
    return {"names": set(), "dir": STATE["dir"], "id": STATE["n"], "code": code, "ns": {}, "shared": None}


def outcome(k, env):
    """Run the workload: (result, printed, raw text)"""
    TLS.err = io.StringIO()
    try:
        r = WORK[k](env)
        text = ast.dump(r, include_attributes=True) if isinstance(r, ast.AST) else repr(r)
        res = ("ok", text)
    except BaseException as e:
        chain = []
        x = e
        while x is not None and len(chain) < 10:
            chain.append((type(x).__name__, str(x)))
            x = x.__cause__ or (None if x.__suppress_context__ else x.__context__)
        res = ("error", repr(chain))
    out = TLS.err.getvalue()
    TLS.err = None
    return res, out


def strip(o):
    (kind, text), out = o
    return kind, scrub(text), scrub(out)


class Sched:
    """Runs two workloads. `switch`: {thread: set of event numbers at which it passes the baton}."""
    def __init__(self, switch, opcodes=False, calls=False, record=None):
        self.switch = switch
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.count = [0, 0]
        self.done = [False, False]
        self.out = [None, None]
        self.opcodes, self.calls, self.record = opcodes, calls, record
        self.free = False   # one thread waits for the other outside of our control (a lock): both run
        self.switched = [0, 0]

    def point(self, i, frame):
        c = self.count[i]
        self.count[i] = c + 1
        if self.record is not None and i == 0:
            self.record.append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti if self.opcodes else 0))
        if c in self.switch[i] and not self.done[1 - i] and not self.free:
            self.switched[i] += 1
            if self.switched[i] == len(self.switch[i]):
                sys.settrace(None)  # no more to do here
            self.sem[1 - i].release()
            self.wait(i)

    def wait(self, i):
        """Wait for the baton. If it does not come, the other thread waits for a lock that this one has (or is slow): both run."""
        if not self.sem[i].acquire(timeout=0.5):
            self.free = True

    def tracer(self, i):
        roots = STATE["roots"]
        calls, opcodes = self.calls, self.opcodes

        def local(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                self.point(i, frame)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(roots):
                return None
            if calls:
                self.point(i, frame)
                return None
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def body(self, i, k, env):
        self.wait_first(i)
        if self.switch[i] or self.record is not None:
            if self.opcodes:
                sys._getframe().f_trace_opcodes = True
            sys.settrace(self.tracer(i))
        try:
            out = outcome(k, env)
        finally:
            sys.settrace(None)
        self.out[i] = out
        self.done[i] = True
        self.sem[1 - i].release()

    def wait_first(self, i):
        self.sem[i].acquire()

    def run(self, ks, envs):
        ts = [threading.Thread(target=self.body, args=(i, ks[i], envs[i]), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.sem[0].release()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            # started only if the other finished
            return False
        return True


def measure(k, opcodes=False, calls=False):
    """The sequence of points of a workload run alone, as locations."""
    rec = []
    s = Sched([set(), set()], opcodes, calls, rec)
    s.run([k, "stats"], [env_for(shared_code()), env_for(shared_code())])
    return rec


def points(k, times, opcodes=False, calls=False):
    rec, seen, out = measure(k, opcodes, calls), {}, []
    for j, loc in enumerate(rec):
        n = seen[loc] = seen.get(loc, 0) + 1
        if times is None or n <= times:
            out.append(j)
    return out


def pairs():
    ks = list(WORK)
    return [(a, b) for a in ks for b in ks]


CORE = ["quotes", "levels", "captures", "run", "phases", "debug", "shared", "wrong"]


LIGHT = ["unquote", "levels", "wrong", "utils", "shared", "stats"]


def cases(tier):
    ks = list(WORK)
    if tier == "quick":
        for a, b in pairs():
            if not (a == b or b in ("levels", "wrong", "debug") or a in LIGHT):
                continue
            yield {"kind": "one", "a": a, "b": b, "times": 2 if a == b and a in LIGHT else 1, "opcodes": False, "slice": [0, 1]}
        for a, b in (("shared", "shared"), ("levels", "wrong"), ("wrong", "levels"), ("utils", "utils")):
            yield {"kind": "one", "a": a, "b": b, "times": 1, "opcodes": True, "slice": [0, 1]}
        for a, b in (("quotes", "quotes"), ("levels", "wrong"), ("unquote", "quotes"), ("captures", "captures"), ("debug", "debug"), ("shared", "shared"), ("phases", "run")):
            for p in range(2):
                yield {"kind": "two", "a": a, "b": b, "max": 22, "slice": [p, 2]}
    else:
        for a, b in pairs():
            for p in range(2):
                yield {"kind": "one", "a": a, "b": b, "times": 6, "opcodes": False, "slice": [p, 2]}
        for a in CORE:
            for b in CORE:
                for p in range(2):
                    yield {"kind": "one", "a": a, "b": b, "times": 1, "opcodes": True, "slice": [p, 2]}
                yield {"kind": "two", "a": a, "b": b, "max": 60, "slice": [0, 1]}


def run_case(case, ctx):
    setup()
    a, b = case["a"], case["b"]
    p, n = case["slice"]
    bad = 0
    if case["kind"] == "one":
        for k in points(a, case["times"], case["opcodes"])[p::n]:
            bad += not one(ctx, a, b, [{k}, set()], case["opcodes"], False)
            if bad > 3:
                return
    else:
        def few(k):
            pts = points(k, 1, calls=True)
            step = max(1, -(-len(pts) // case["max"]))
            return pts[::step]
        second = few(b)
        for k in few(a)[p::n]:
            for j in second:
                bad += not one(ctx, a, b, [{k}, {j}], False, True)
                if bad > 3:
                    return


def one(ctx, a, b, switch, opcodes, calls):
    code = shared_code()
    envs = [env_for(code), env_for(code)]
    s = Sched(switch, opcodes, calls)
    w = f"{a} | {b}, switching at {sorted(switch[0])} and {sorted(switch[1])}" + (" instructions" if opcodes else " calls" if calls else " lines")
    ok = s.run([a, b], envs)
    ctx.state((a, b, sorted(switch[0]), sorted(switch[1]), opcodes, calls))
    ctx.step(sum(s.count) + 2)
    ctx.trace(2)
    if not ctx.check(ok, lambda: f"{w}: hangs"):
        return False
    good = True
    for i, k in enumerate((a, b)):
        got, want = strip(s.out[i]), STATE["alone"][k]
        if got != want:
            good = ctx.check(False, lambda: f"{w}: thread {i + 1} ({k}): {diff(got, want)}")
    names = [uuids(o[0][1]) | uuids(" ".join(e["names"])) for o, e in zip(s.out, envs)]
    good &= bool(ctx.check(not names[0] & names[1], lambda: f"{w}: both threads generated {names[0] & names[1]}"))
    if a == b == "shared":
        good &= bool(ctx.check(envs[0]["shared"] is envs[1]["shared"], lambda: f"{w}: a captured value is one object in one thread and another one in the other"))
    return good


def diff(got, want):
    for g, x in zip(got, want):
        if g != x:
            j = 0
            while j < min(len(g), len(x)) and g[j] == x[j]:
                j += 1
            return f"...{g[max(0, j - 80):j + 160]!r}, alone ...{x[max(0, j - 80):j + 160]!r}"
