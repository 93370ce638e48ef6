"""A process with macros enabled and nothing else loaded, that forks a fresh process for each request (see disk.py)."""
import builtins
import os
import pickle
import struct
import sys
import traceback


def readn(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            os._exit(0)
        b += c
    return b


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def describe(e):
    chain = []
    while e is not None and len(chain) < 20:
        chain.append((type(e).__name__, str(e)[:3000]))
        e = e.__cause__ or e.__context__
    return chain


def session(op, req, stats):
    """One step of a longer session: edit a source file, or reload everything that is loaded, dependencies first."""
    import importlib
    if op[0] == "write":
        p = os.path.join(req["root"], op[1])
        with open(p, "wb") as f:
            f.write(op[2])
        os.utime(p, ns=(op[3], op[3]))
        return None
    importlib.invalidate_caches()
    res = {}
    for name in op[1]:
        if name in sys.modules:
            try:
                res[name] = ("ok", getattr(importlib.reload(sys.modules[name]), "r", None))
            except BaseException as e:
                res[name] = ("error", describe(e))
    st = {}
    stats(st)
    return res, st


def job(req, w):
    """In a fresh process: import modules; report their results."""
    import importlib
    sys.dont_write_bytecode = not req.get("write", True)
    sys.pycache_prefix = None
    builtins.MCLOG = []
    sys.path.insert(0, req["root"])
    out = {"results": {}, "stats": {}}
    import ctypes  # noqa: F401, loaded already
    shim = SHIM

    def stats(into):
        from mcpyrate.importer import path_stats
        keep, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        for p in req.get("stats", ()):
            try:
                s = path_stats(os.path.join(req["root"], p))
                into[p] = s["mtime"]
            except Exception as e:
                into[p] = describe(e)
        sys.dont_write_bytecode = keep
    if req.get("fault"):
        at, mode, arg, reads = req["fault"]
        shim.shim_arm(req["root"].encode(), at, mode, arg, reads)
    for name in req["modules"]:
        if callable(name):
            out["results"][len(out["results"])] = name()
            continue
        try:
            m = importlib.import_module(name)
            out["results"][name] = ("ok", m.r)
        except BaseException as e:
            out["results"][name] = ("error", describe(e))
    if req.get("session"):
        out["session"] = [session(op, req, stats) for op in req["session"]]
    if req.get("fault"):
        out["ops"] = shim.shim_disarm()
        shim.shim_log.restype = ctypes.c_char_p
        out["oplog"] = shim.shim_log().decode()
    if req.get("stats"):
        stats(out["stats"])
    out["log"] = list(builtins.MCLOG)
    send(w, out)


def main():
    global SHIM
    inp, outp = os.dup(0), os.dup(1)
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 0)
    os.dup2(nul, 1)
    import ctypes
    SHIM = ctypes.CDLL(None) if os.environ.get("LD_PRELOAD") else None
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.dialects  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    send(outp, os.path.dirname(mcpyrate.__file__))
    while True:
        n, = struct.unpack("<Q", readn(inp, 8))
        req = pickle.loads(readn(inp, n))
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                job(req, w)
            except BaseException:
                try:
                    send(w, {"crash": traceback.format_exc()})
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            c = os.read(r, 1 << 20)
            if not c:
                break
            data += c
        os.close(r)
        _, st = os.waitpid(pid, 0)
        send(outp, {"exit": os.waitstatus_to_exitcode(st), "data": data})


if __name__ == "__main__":
    main()
