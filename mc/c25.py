"""C25: the launcher runs programs as Python itself would, with macros enabled.

Each program exists in two versions: one using macros, run by the launcher; and one where the macros are expanded by hand, run by
Python itself (in a process where macros are enabled at startup, so that the modules it imports may use macros)."""
import os
import re
import shutil
import sys
import tempfile

from .proc import finished

LEVEL = "model_checking"
RULE = ("every target (script files of any name and place, modules and packages incl. nested, namespace, without a main program, missing) x current directory x way to start the launcher x what the program does "
        "(imports, macro-imports, phases, dialects, ...) or how it ends (exceptions, exit statuses, errors in macros): standard output, exit status and error compared with Python running the program with the macros expanded by hand; "
        "sequences of runs over the bytecode caches; options that do not run programs")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 120
PY = sys.executable
LIB = [None]

PROBE = '''{doc}
{first}
import sys, os, atexit
print("run", __name__, repr(__package__ or ""), __doc__, sys.modules["__main__"].__dict__ is globals(), os.path.basename(os.path.realpath(__file__)), sys.path[0])
import __main__
print("main", __main__.__dict__ is globals())
atexit.register(lambda: print("bye", sys.modules.get("__main__") is not None, hasattr(sys, "last_value") or sys.modules["__main__"].__dict__ is globals(), flush=True))
class Thing: pass
{body}
{end}
print("end")
'''

MAC = '''
import ast
class Boom(Exception): pass
def m(tree, **kw):
    return ast.Tuple(elts=[ast.Constant("m"), tree], ctx=ast.Load())
def boom(tree, **kw):
    raise Boom("boom")
def fn(tree, *, expander, **kw):
    import os
    return ast.Constant(os.path.basename(expander.filename))
'''
DIA = '''
from mcpyrate.dialects import Dialect
class D(Dialect):
    def transform_source(self, text):
        return text.replace("DIALECTAL", "'dialect'")
'''
SIB = '''
from mac import macros, m
r = m["sib of " + __name__]
print("imported", __name__)
'''
FILES = {"mac.py": MAC, "dia.py": DIA, "sib.py": SIB, "pk/__init__.py": "print('init pk', __name__)\n", "sub/sib.py": SIB, "ns/sib.py": SIB, "ns/sub/sib.py": SIB, "deep/er/sib.py": SIB, "lib/libsib.py": SIB,
         "ns/mac.py": MAC, "ns/sub/mac.py": MAC, "ns/dia.py": DIA, "ns/sub/dia.py": DIA, "sub/mac.py": MAC, "deep/er/mac.py": MAC, "sub/dia.py": DIA, "deep/er/dia.py": DIA}
for _p in ("pkg", "pkg/sub", "lib/libpkg"):
    FILES[_p + "/__init__.py"] = "print('init', __name__)\n"
    FILES[_p + "/sib.py"] = SIB
    FILES[_p + "/mac.py"] = MAC
    FILES[_p + "/dia.py"] = DIA
for _n in ("sib", "mac", "dia"):
    FILES[f"pk/{_n}.py"] = FILES[f"pkg/{_n}.py"]
FILES["pkg/nomain/__init__.py"] = FILES["nomain/__init__.py"] = "print('init', __name__)\n"
FILES["nsnomain/x.py"] = ""
for _n in ("sib", "mac", "dia", "s"):
    FILES[f"shadow/{_n}.py"] = f"print('shadow {_n}', __name__)\n" + {"sib": "r = 'shadow'\n", "mac": MAC.replace('"m"', '"shadow m"'), "dia": DIA.replace("'dialect'", "'shadow dialect'"), "s": ""}[_n]

# name -> file holding the main program (None: there is none)
SCRIPTS = {"s.py": 0, "my-script.py": 0, "a.b.py": 0, "noext": 0, "my script.py": 0, "time.py": 0, "colorsys.py": 0, "pk.py": 0, "sub/s.py": 0, "./sub/../s.py": "s.py", "pkg/mod.py": 0, "pkg/__init__.py": 0, "pkg/__main__.py": 0,
           "deep/er/s.py": 0, "link.py": "sub/s.py", "pkg/sub/mod.py": 0, "1st.py": 0, "class.py": 0, "s.txt": 0, ".hidden.py": 0,
           "missing.py": None, "sub/missing.py": None, "sub": None, "nodir/s.py": None}
MODULES = {"s": "s.py", "my-script": "my-script.py", "pkg": "pkg/__main__.py", "pkg.mod": "pkg/mod.py", "pkg.sub": "pkg/sub/__main__.py", "pkg.sub.mod": "pkg/sub/mod.py", "pkg.__main__": "pkg/__main__.py",
           "pkg.sub.__main__": "pkg/sub/__main__.py", "ns": "ns/__main__.py", "ns.mod": "ns/mod.py", "ns.sub": "ns/sub/__main__.py", "ns.sub.mod": "ns/sub/mod.py", "pk": "pk/__main__.py", "libmod": "lib/libmod.py", "libpkg": "lib/libpkg/__main__.py", "libpkg.mod": "lib/libpkg/mod.py",
           "class": "class.py", "1st": "1st.py", "pkg.__init__": "pkg/__init__.py",
           "missing": None, "pkg.missing": None, "s.missing": None, "nomain": None, "pkg.nomain": None, "nsnomain": None, "missing.mod": None, "pkg.": None, ".pkg": None}

SAME = object()
# name: (with macros, by hand). {P}: prefix for siblings of the program ("pkg." or nothing)
BODY = {
    "plain": ("x = 1", SAME),
    "abs": ("import {P}sib as sib\nprint(sib.r)", SAME),
    "rel": ("from . import sib\nprint(sib.r)", SAME),
    "mac": ("from {P}mac import macros, m\nprint(m[1 + 1])", "import {P}mac as mac\nprint(('m', 1 + 1))"),
    "relmac": ("from .mac import macros, m as mm\nprint(mm[mm[0]])", "from . import mac\nprint(('m', ('m', 0)))"),
    "fn": ("from {P}mac import macros, fn\nprint(fn[0])", "import {P}mac\nprint(os.path.basename(os.path.realpath(__file__)))"),
    "dialect": ("from {P}dia import dialects, D\nprint(DIALECTAL)", "import {P}dia\nprint('dialect')"),
    "phase": ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    def k(tree, **kw):\n        import ast\n        return ast.Constant('k')\nfrom __self__ import macros, k\nprint(k[1])",
              "def k(tree, **kw):\n    import ast\n    return ast.Constant('k')\nprint('k')"),
    "quote": ("from mcpyrate.quotes import macros, q, u, h\nfrom mcpyrate import unparse\ny = 3\nprint(unparse(q[f(u[y])]), type(q[h[Thing]()]).__name__)", "print('f(3)', 'Call')"),
    "pickle": ("import pickle\nprint(type(pickle.loads(pickle.dumps(Thing()))) is Thing, pickle.dumps(Thing()).count(b'__main__'))", SAME),
    "again": ("import importlib\nif __name__ == '__main__' and {OWN!r}:\n    o = importlib.import_module({OWN!r})\n    print('again', o.Thing is Thing, o.__name__)", SAME),
    "stdin": ("print(input())", SAME),
    "assert": ("print(__debug__)\nassert len(sys.argv) > 99, 'as'", SAME),
    "ifmain": ("if __name__ == '__main__':\n    print('guarded')", SAME),
    "frame": ("print(os.path.basename(os.path.realpath(sys._getframe().f_code.co_filename)), sys._getframe().f_lineno, sys._getframe().f_code.co_name)", SAME),
    "thread": ("import threading\nt = threading.Thread(target=lambda: print('thread'))\nt.start()\nt.join()", SAME),
    "async": ("import asyncio\nasync def main():\n    print('async')\nasyncio.run(main())", SAME),
    "source": ("import inspect\ndef srcf():\n    return 7\nprint(inspect.getsource(srcf))", SAME),
    "global": ("g = 5\ndef useg():\n    global g\n    g += 1\nuseg()\nprint(g, sorted(k for k in globals() if not k.startswith('_')))", SAME),
}
BOOM = "sys.stderr.write('...Boom: boom')\nsys.exit(1)"
END = {
    "exc": ("1 / 0", SAME), "exit0": ("sys.exit(0)", SAME), "exit3": ("sys.exit(3)", SAME), "exits": ("sys.exit('message')", SAME), "exitn": ("raise SystemExit", SAME), "_exit": ("sys.stdout.flush()\nos._exit(4)", SAME),
    "kbd": ("raise KeyboardInterrupt", SAME), "imp": ("import not_there", SAME), "impname": ("raise ImportError('No module named whatever')", SAME), "impown": ("raise ModuleNotFoundError('x', name={OWN!r})", SAME),
    "mainimp": ("raise ModuleNotFoundError('x', name={OWN!r} + '.__main__')", SAME),
    "chain": ("try:\n    1 / 0\nexcept ZeroDivisionError as e:\n    raise ValueError('v') from e", SAME), "group": ("raise ExceptionGroup('eg', [ValueError(1), TypeError(2)])", SAME),
    "base": ("class B(BaseException): pass\nraise B('b')", SAME), "rec": ("def r(): r()\nr()", SAME), "genexit": ("raise GeneratorExit", SAME), "bool": ("sys.exit(True)", SAME), "exitneg": ("sys.exit(-1)", SAME),
}
# the program does not compile: (text, error reported)
BROKEN = {
    "boom": ("from {P}mac import macros, boom\nboom[1]", "Boom"), "syntax": ("x = = 1", "SyntaxError"), "late": ("return 1", "SyntaxError"), "unknown": ("from {P}mac import macros, missing_macro", "ImportError"),
    "nomod": ("from missing_module import macros, m", "ModuleNotFoundError"), "nodia": ("from {P}dia import dialects, Missing", "ImportError|AttributeError"), "nul": ("x = '\0'", "SyntaxError|ValueError"),
}


def setup():
    """Compile the modules of mcpyrate and of the library used by the launched processes once."""
    d = os.path.realpath(tempfile.mkdtemp(dir="."))
    tree(d)
    LIB[0] = os.path.join(os.getcwd(), "launchlib")
    shutil.copytree(os.path.join(os.environ["MC_REPO"], "mcpyrate"), LIB[0] + "/mcpyrate", ignore=shutil.ignore_patterns("__pycache__", "test"))
    import compileall
    compileall.compile_dir(LIB[0], quiet=2)
    for text in ("x = 1\n", BODY["phase"][0] + "\n"):
        write_file(d, "s.py", text)
        run(d, ["s.py"], d, True, write=True)
    shutil.rmtree(d)


def write_file(d, path, text):
    path = os.path.join(d, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def tree(d, linked=False):
    for k, v in FILES.items():
        write_file(d, k, v)
    os.makedirs(d + "/elsewhere", exist_ok=True)
    os.makedirs(d + "/home", exist_ok=True)
    if not os.path.islink(d + "/link.py"):
        os.symlink("sub/s.py", d + "/link.py")
    write_file(d, "bin/macropython", "import sys\nfrom mcpyrate.repl.macropython import main\nif __name__ == '__main__':\n    sys.exit(main())\n")
    write_file(d, "start/sitecustomize.py", "import mcpyrate.activate\n")


def run(d, argv, cwd, macro, launcher="module", pyopts=(), stdin="typed\n", write=False, lib=False, root=False):
    env = {"PATH": os.environ["PATH"], "HOME": d + "/home", "LANG": "C.UTF-8", "PYTHONHASHSEED": "0", "MPLBACKEND": "agg"}
    path = [LIB[0]]
    if not macro:
        path.insert(0, d + "/start")
    if lib:
        path.append(d + "/lib")
    if root == "own":  # the directory of the program is on the path, behind one with modules of the same names
        path += [d + "/shadow", os.path.realpath(cwd) if "-m" in argv else os.path.dirname(os.path.realpath(os.path.join(cwd, argv[-1])))]
    elif root:
        path.append(d)
    env["PYTHONPATH"] = os.pathsep.join(path)
    cmd = [PY, *pyopts] + ([] if write else ["-B"])
    if macro:
        cmd += ["-m", "mcpyrate.repl.macropython"] if launcher == "module" else [d + "/bin/macropython"]
    return finished(cmd + argv, cwd=cwd, env=env, input=stdin, encoding="utf-8", errors="replace")


def last(err):
    lines = [x for x in err.splitlines() if x.strip()]
    return lines[-1].strip() if lines else ""


def prefix(mode, name):
    """The package of the program, as a prefix for imports of its siblings."""
    if mode == "script":
        return "", name[:-3] if name.endswith(".py") and "/" not in name and name != "link.py" and name[:-3].isidentifier() and not name.startswith(("time", "pk", "colorsys")) else ""
    f = MODULES[name]
    parts = f[:-3].split("/")
    if parts[0] == "lib":
        parts = parts[1:]
    pkg = ".".join(parts[:-1])
    return pkg + "." if pkg else "", ".".join(parts)


def program(mode, name, body, end):
    """(with macros, by hand)"""
    P, own = prefix(mode, name)
    out = []
    for i in (0, 1):
        b, e = BODY[body], END.get(end, ("pass", SAME))
        b = b[i] if b[i] is not SAME else b[0]
        e = e[i] if e[i] is not SAME else e[0]
        keep = {"{P}": P, "{OWN!r}": repr(own)}
        for k, v in keep.items():
            b, e = b.replace(k, v), e.replace(k, v)
        out.append(PROBE.format(doc="'''the doc'''", first="from __future__ import annotations", body=b, end=e))
    return out


def places(mode, name):
    """(what to write after the launcher, cwd, root on the path?)"""
    if mode == "script":
        yield [name], "", False
        if name != "":
            yield ["../" + name], "elsewhere", False
            yield ["%D/" + name], "elsewhere", False
            yield [name], "", "own"
    else:
        yield ["-m", name], "", False
        yield ["-m", name], "elsewhere", True
        yield ["-m", name], "", "own"


def targets():
    return [("script", n) for n in SCRIPTS] + [("module", n) for n in MODULES]


def combos(tier):
    deep = tier != "quick"
    for i, (mode, name) in enumerate(targets()):
        f = (SCRIPTS if mode == "script" else MODULES)[name]
        pl = list(places(mode, name))
        for k, (argv, cwd, root) in enumerate(pl):
            for launcher in ("module", "installed"):
                if f is None:
                    yield mode, name, argv, cwd, root, launcher, "plain", "end", []
                    continue
                main = k == 0 and launcher == ("module" if i % 2 else "installed")
                for body in BODY:
                    if deep or main or body in ("plain", "mac") or (body == "abs" and root == "own"):
                        yield mode, name, argv, cwd, root, launcher, body, "end", []
                for end in list(END) + list(BROKEN):
                    if deep or (main and (i % 3 == 0 or end in ("exc", "exit3", "imp", "impname", "boom", "syntax"))):
                        yield mode, name, argv, cwd, root, launcher, "plain", end, []
        if f is not None:
            for opts in (["-O"], ["-X", "utf8"], ["-OO"], ["-u"]):
                for body in ("plain", "assert", "mac", "rel") if deep else ("assert",):
                    yield mode, name, *pl[0], "module", body, "end", opts


OPTIONS = 14
PARTS = 64


def cases(tier):
    for p in range(PARTS):
        yield {"kind": "runs", "part": p, "tier": tier}
    for i in range(OPTIONS):
        yield {"kind": "options", "i": i}
    seqs = []
    for mode, name in (("script", "s.py"), ("module", "s"), ("module", "pkg"), ("module", "pkg.sub.mod"), ("module", "ns"), ("script", "sub/s.py"), ("script", "pkg/mod.py"), ("script", "noext")):
        yield {"kind": "caches", "mode": mode, "name": name, "depth": 3 if tier == "quick" else 4}


def run_case(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir="."))
    try:
        tree(d)
        {"runs": runs, "options": options, "caches": caches}[case["kind"]](case, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def runs(case, ctx, d):
    allof = list(combos(case["tier"]))
    refs = {}
    for j, c in enumerate(allof):
        # all the combinations for one target, place go to one part, to share the references
        if hash_of(c[0] + c[1] + c[6] + c[7]) % PARTS != case["part"]:
            continue
        one(c, ctx, d, refs)


def hash_of(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def one(c, ctx, d, refs):
    mode, name, argv, cwd, root, launcher, body, end, opts = c
    f = (SCRIPTS if mode == "script" else MODULES)[name]
    f = name if f == 0 else f
    argv = [x.replace("%D", d) for x in argv]
    where = os.path.join(d, cwd) if cwd else d
    lib = "lib" in name
    w = f"{launcher}: macropython {' '.join(argv)} in {cwd or 'the project'}, program: {body}/{end}{' ' + ' '.join(opts) if opts else ''}"
    w = w.replace(d, "<project>")
    ctx.state((mode, name, cwd, root, argv[-1].replace(d, ""), body, end, opts))
    if f is not None:
        macro, plain = program(mode, name, body, end)
        if end in BROKEN:
            P, _ = prefix(mode, name)
            macro = macro.replace("\npass\nprint(\"end\")", "\n" + BROKEN[end][0].replace("{P}", P) + "\nprint(\"end\")")
            plain = "import sys\nsys.exit(1)\n"
    else:
        macro = plain = None
    try:
        key = (tuple(argv), cwd, root, body, end, tuple(opts))
        if key not in refs:
            if f is not None:
                write_file(d, f, plain)
            refs[key] = run(d, argv, where, False, pyopts=opts, lib=lib, root=root)
        want = refs[key]
        if f is not None:
            write_file(d, f, macro)
        got = run(d, argv, where, True, launcher, opts, lib=lib, root=root)
    finally:
        if f is not None:
            os.unlink(os.path.join(d, f))
    ctx.step(2)
    if f is None:
        ctx.check(got[0] not in (0, None) and want[0] != 0, lambda: f"{w}: exit status {got[0]} (Python: {want[0]}) for a missing program")
        ctx.equal(got[1], want[1], f"{w}: output")
        ctx.check("AttributeError" not in got[2] and "AssertionError" not in got[2] and "UnboundLocalError" not in got[2], lambda: f"{w}: internal error {last(got[2])}")
        return
    if (body in ("rel", "relmac")) and want[0]:  # no package: an error in both, but raised at another time
        ctx.check(got[0] == want[0], lambda: f"{w}: exit status {got[0]}, for Python {want[0]}; {got[2][-600:]}")
        if body == "rel":
            ctx.equal(got[1], want[1], f"{w}: output")
        return
    ctx.check(got[0] == want[0], lambda: f"{w}: exit status {got[0]}, for Python {want[0]}; {got[2][-600:]}")
    ctx.equal(got[1], want[1], f"{w}: output")
    if end in BROKEN:
        ctx.check(re.search(BROKEN[end][1], got[2]), lambda: f"{w}: {BROKEN[end][1]} not reported: {got[2][-600:]}")
        return
    if end == "group":
        ctx.check("ExceptionGroup: eg" in got[2] and "TypeError: 2" in got[2], lambda: f"{w}: exceptions not reported: {got[2][-600:]}")
    else:
        ctx.equal(last(got[2]), last(want[2]), f"{w}: last line on stderr")
    if not want[2]:
        ctx.equal(got[2], "", f"{w}: on stderr")


# ---------------------------------------------------------------------------------------------------- sequences over the caches

def caches(case, ctx, d):
    """Runs with bytecode caches: every sequence of runs by launcher, imports, edits of the program or of its macros."""
    import itertools
    mode, name = case["mode"], case["name"]
    f = (SCRIPTS if mode == "script" else MODULES)[name]
    f = name if f == 0 else f
    argv = [name] if mode == "script" else ["-m", name]
    P, own = prefix(mode, name)
    macpath = P.replace(".", "/") + "mac.py"
    if mode == "script":
        macpath = os.path.join(os.path.dirname(f), "mac.py")
    macname = P + "mac"
    imp = own if mode == "module" else (f[:-3] if "/" not in f and f.endswith(".py") else "")
    ops = ["run", "import", "editprog", "editmac", "clean"]
    if not imp:
        ops.remove("import")

    def progtext(v):
        return f"from {macname} import macros, m\nprint('prog', {v}, m[{v}], __name__)\n"

    seqs = [s for s in itertools.product(ops, repeat=case["depth"]) if s[-1] in ("run", "import") and not any(a == b and a != "run" for a, b in zip(s, s[1:]))]
    t0 = 1_600_000_000
    for s in seqs:
        pv, mv, tick = 1, 1, 0
        for dirpath, dirs, files in os.walk(d):
            for x in list(dirs):
                if x == "__pycache__":
                    shutil.rmtree(os.path.join(dirpath, x))
                    dirs.remove(x)

        def put():
            write_file(d, f, progtext(pv))
            write_file(d, macpath, MAC.replace('"m"', f'"m{mv}"'))
        put()
        for p in (f, macpath):
            os.utime(os.path.join(d, p), (t0, t0))
        log = []
        for op in s:
            tick += 10
            if op == "editprog":
                pv += 1
                put_one(d, f, progtext(pv), t0 + tick)
            elif op == "editmac":
                mv += 1
                put_one(d, macpath, MAC.replace('"m"', f'"m{mv}"'), t0 + tick)
            elif op == "clean":
                rc = run(d, ["-c", d], d, True, write=True)
                ctx.check(rc[0] == 0 and not [1 for dp, dd, ff in os.walk(d) for x in dd if x == "__pycache__" and "repo" not in dp], f"{argv} after {log}: cleaning fails")
            else:
                if op == "run":
                    rc, out, err = run(d, argv, d, True, write=True)
                    nm = "__main__"
                else:
                    rc, out, err = run(d, ["-c", f"import {imp}"], d, False, write=True)
                    nm = imp
                want = f"prog {pv} ('m{mv}', {pv}) {nm}"
                out = "\n".join(x for x in out.splitlines() if not x.startswith("init"))
                ctx.check(rc == 0 and out == want, lambda: f"{argv} after {log}: {op}: {rc} {out!r} {last(err)}, expected {want!r}")
            log.append(op)
            ctx.step(1)
        ctx.state(s)
        ctx.trace(len(s))


def put_one(d, path, text, t):
    write_file(d, path, text)
    os.utime(os.path.join(d, path), (t, t))


# ---------------------------------------------------------------------------------------------------- options

def session(d, lines, argv=(), cwd=None, home=None):
    env_home = d + "/home"
    rc, out, err = run(d, ["-i", *argv], cwd or d, True, stdin="".join(x + "\n" for x in lines))
    out = re.sub(r"(>>> |\.\.\. )+", "", out)
    return rc, [x for x in out.splitlines() if x.strip()], err


def options(case, ctx, d):
    i = case["i"]
    ctx.state(case)
    write_file(d, "s.py", "print('RAN')\n")
    write_file(d, "pkg/__main__.py", "print('RAN')\n")
    hist = d + "/home/.config/mcpyrate/macropython_history"
    progs = [[], ["s.py"], ["-m", "pkg"], ["-m", "s"]]
    for launcher in ("module", "installed"):
        for prog in progs:
            if i == 0:
                for o in ("-v", "--version"):
                    rc, out, err = run(d, [o, *prog], d, True, launcher)
                    import mcpyrate
                    ctx.check(rc == 0 and mcpyrate.__version__ in out and "RAN" not in out, f"{o} {prog}: {rc} {out!r} {err!r}")
            elif i == 1:
                for o in ("-h", "--help"):
                    rc, out, err = run(d, [o, *prog], d, True, launcher)
                    ctx.check(rc == 0 and "--module" in out and "RAN" not in out, f"{o} {prog}: {rc} {out!r} {err!r}")
            elif i in (2, 3):
                opts = {2: [["-c", "."], ["--clean", "sub"]], 3: [["-c", ".", "-n"], ["-n", "-c", "sub"], ["--dry-run", "--clean", d + "/sub"]]}[i]
                for o in opts:
                    for x in ("__pycache__", "sub/__pycache__"):
                        write_file(d, x + "/a.cpython-312.pyc", "x")
                    rc, out, err = run(d, [*o, *prog], d, True, launcher)
                    whole = "." in o
                    left = [os.path.exists(f"{d}/{x}") for x in ("__pycache__", "sub/__pycache__")]
                    ctx.check(rc == 0 and "RAN" not in out, f"{o} {prog}: {rc} {out!r} {err!r}")
                    if i == 2:
                        ctx.equal(left, [not whole, False], f"{o} {prog}: caches left")
                    else:
                        ctx.equal(left, [True, True], f"{o} {prog}: caches left")
                        ctx.equal(sorted(os.path.relpath(os.path.join(d, x), d) for x in out.split("\n") if x), sorted((["__pycache__"] if whole else []) + ["sub/__pycache__"]), f"{o} {prog}: caches listed")
                    for x in ("__pycache__", "sub/__pycache__"):
                        shutil.rmtree(f"{d}/{x}", ignore_errors=True)
            elif i == 4:
                for o in (["-c", "missing"], ["-c", "s.py"], ["-c", "missing", "-n"], ["--wrong"], ["-m"], ["s.py", "-m", "pkg"], ["-m", "s", "s.py"]):
                    if prog and o not in (["--wrong"],) and "-c" not in o:
                        continue
                    rc, out, err = run(d, [*o, *prog], d, True, launcher)
                    if o[-1] == "s.py" and o[0] == "-c":
                        ctx.check("RAN" not in out, f"{o} {prog}: {rc} {out!r}")
                        continue
                    ctx.check(rc != 0 and "RAN" not in out and err, f"{o} {prog}: {rc} {out!r} {err!r}")
            elif i == 5 and not prog:
                rc, out, err = run(d, [], d, True, launcher)
                ctx.check(rc == 0 and "--module" in out, f"no arguments: {rc} {out!r} {err!r}")
            elif i == 6 and launcher == "module":
                rc, out, err = session(d, ["from mac import macros, m", "print(m[1])", "import sib", "x = m[2]", "x", "print(__name__)"], prog)
                ctx.equal((rc, out), (0, ["('m', 1)", "imported sib", "('m', 2)", out[-1] if out else ""]), f"-i {prog}")
                ctx.check("Error" not in err, f"-i {prog}: {err!r}")
            elif i == 7 and launcher == "module":
                for end, st in (("exit(5)", 5), ("raise SystemExit", 0), ("import sys; sys.exit(0)", 0), ("", 0)):
                    rc, out, err = session(d, ["print('a')", "1/0", "print('b')", end] + (["print('c')"] if end else []), prog)
                    ctx.equal((rc, out), (st, ["a", "b"]), f"-i {prog} with {end!r}")
            elif i == 8 and launcher == "module":
                # cwd is on the path
                rc, out, err = session(d, ["import mac, sib", "print(sib.r, mac.__file__)"], prog, cwd=d + "/sub")
                ctx.equal((rc, out), (0, ["imported sib", f"('m', 'sib of sib') {d}/sub/mac.py"]), f"-i {prog}: modules in the current directory")
            elif i == 9 and launcher == "module":
                # history: made if missing, kept otherwise
                shutil.rmtree(d + "/home/.config", ignore_errors=True)
                rc, out, err = session(d, ["print('a')"], prog)
                ctx.check(rc == 0 and os.path.exists(hist), f"-i {prog}: history not saved: {err!r}")
                for n in (1, 3, 500):
                    write_file(d, "home/.config/mcpyrate/macropython_history", "".join(f"line {j}\n" for j in range(n)))
                    for end in ("print('a')", "exit(3)", "1/0"):
                        rc, out, err = session(d, [end], prog)
                        with open(hist) as g:
                            ctx.equal(g.read(), "".join(f"line {j}\n" for j in range(n)), f"-i {prog} with {end}: history of {n}")
            elif i == 10 and launcher == "module":
                rc, out, err = session(d, ["def f():", "    return 1", "", "f()", "from missing import macros, m", "from mac import macros, boom, m", "boom[1]", "m[3]", "if True:", "    print(m[4])", "", "macros?"], prog)
                ctx.equal((rc, out), (0, ["1", "('m', 3)", "('m', 4)"]), f"-i {prog}")
                ctx.check("MacroApplicationError" in err and "missing" in err, f"-i {prog}: errors not reported: {err!r}")
            elif i == 11 and launcher == "module":
                rc, out, err = session(d, ["@macro", "def k(tree, **kw):", "    return tree", "", "k[5]", "from __self__ import macros, k as kk", "kk[6]"], prog)
                ctx.equal((rc, out), (0, ["5", "6"]), f"-i {prog}: macros of the session")
            elif i == 12 and not prog:
                # the launcher does not leave anything in the project
                before = listing(d)
                for o in (["s.py"], ["-m", "pkg"], ["-v"], ["-h"], ["-c", ".", "-n"]):
                    run(d, o, d, True, launcher)
                    ctx.equal(listing(d), before, f"{o}: files in the project")
            elif i == 13 and not prog:
                for o in (["-m", "s", "-n"], ["s.py", "-n"], ["s.py", "-p"]):  # these go with -c and -i only
                    rc, out, err = run(d, o, d, True, launcher)
                    ctx.equal((rc, out), (0, "RAN\n"), f"{o}")
            ctx.step(1)


def listing(d):
    return sorted(os.path.join(a, x) for a, b, c in os.walk(d) for x in b + c)
