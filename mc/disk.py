"""Projects on disk, and importing their modules in fresh processes, from a given state of the file system."""
import ast
import functools
import hashlib
import marshal
import os
import pickle
import re
import shutil
import struct
import subprocess
import sys
import types

REPO = os.environ.get("MC_REPO") or "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))


class Zygote:
    def __init__(self, base, shim=False):
        """base: a scratch directory."""
        self.base = base
        lib = os.path.join(base, "lib")
        shutil.rmtree(lib, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "mcpyrate"), os.path.join(lib, "mcpyrate"), ignore=shutil.ignore_patterns("__pycache__", "test"))
        self.newest = 0
        for d, _, fs in os.walk(lib):
            for f in fs:
                self.newest = max(self.newest, os.stat(os.path.join(d, f)).st_mtime)
        env = dict(os.environ, PYTHONPATH=lib)
        env.pop("PYTHONDONTWRITEBYTECODE", None)
        if shim:
            so = os.path.join(base, "faultshim.so")
            subprocess.run(["gcc", "-w", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "faultshim.c"), "-ldl"], check=True)
            env["LD_PRELOAD"] = so
        self.env = env
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "zygote.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=base)
        assert os.path.realpath(self.recv()) == os.path.realpath(os.path.join(lib, "mcpyrate"))

    def recv(self):
        f = self.p.stdout
        n, = struct.unpack("<Q", self.readn(f, 8))
        return pickle.loads(self.readn(f, n))

    @staticmethod
    def readn(f, n):
        b = f.read(n)
        if len(b) < n:
            raise RuntimeError("the zygote process ended")
        return b

    def run(self, **req):
        """Returns the dict of results; or {"exit": n} if the process ended without any."""
        b = pickle.dumps(req)
        self.p.stdin.write(struct.pack("<Q", len(b)) + b)
        self.p.stdin.flush()
        a = self.recv()
        if not a["data"]:
            return {"exit": a["exit"]}
        out = pickle.loads(a["data"][8:])
        if "crash" in out:
            raise RuntimeError(out["crash"])
        return out

    def fresh(self, **req):
        """The same in a really new Python process (to show that the forked one is equivalent)."""
        code = ("import sys, os, pickle; sys.path.insert(0, %r); import zygote; zygote.SHIM = None; import mcpyrate.activate; zygote.job(pickle.loads(bytes.fromhex(%r)), 1)"
                % (HERE, pickle.dumps(req).hex()))
        env = {k: v for k, v in self.env.items() if k != "LD_PRELOAD"}
        r = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=self.base)
        if r.returncode or len(r.stdout) < 8:
            raise RuntimeError(r.stderr.decode()[-2000:])
        return pickle.loads(r.stdout[8:])

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class Disk:
    """A directory whose complete contents can be read and restored. Files: {relative path: (bytes, mtime_ns)}."""
    def __init__(self, root):
        self.root = root
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        self.current = {}

    def read(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                st = os.stat(p)
                with open(p, "rb") as fh:
                    out[rel] = (fh.read(), st.st_mtime_ns)
        self.current = out
        return dict(out)

    def restore(self, files):
        if self.current is None:
            self.read()
        for p in self.current:
            if p not in files:
                os.remove(os.path.join(self.root, p))
        for p, v in files.items():
            if self.current.get(p) != v:
                full = os.path.join(self.root, p)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "wb") as fh:
                    fh.write(v[0])
                os.utime(full, ns=(v[1], v[1]))
        # directories that the state does not have
        for d, subs, fs in os.walk(self.root, topdown=False):
            if d != self.root and not os.listdir(d):
                os.rmdir(d)
        self.current = dict(files)

    def dirty(self):
        self.current = None


def codeval(c):
    """Canonical, hashable form of a code object."""
    if isinstance(c, types.CodeType):
        return ("code", c.co_name, c.co_code, tuple(codeval(k) for k in c.co_consts), c.co_names, c.co_varnames, c.co_firstlineno)
    if isinstance(c, tuple):
        return tuple(codeval(k) for k in c)
    if isinstance(c, frozenset):
        return ("frozenset",) + tuple(sorted(map(repr, c)))
    if isinstance(c, bytes):
        return re.sub(rb"#\d+$", b"", c)  # counter of captures
    if isinstance(c, str):
        return re.sub(r"(?<![0-9a-f])[0-9a-f]{32}(?![0-9a-f])", "UUID", c)
    return (type(c).__name__, repr(c))


@functools.lru_cache(100000)
def cachefile(p, data):
    if p.endswith(".pyc"):
        try:
            mt = struct.unpack("<I", data[8:12])[0]
            return (p, data[:8], ("t", mt), hashlib.blake2b(repr(codeval(marshal.loads(data[16:]))).encode()).hexdigest())
        except Exception:
            return (p, "bad", data)
    try:
        d = pickle.loads(data)
        return (p, tuple((k, ("t", v // 10**9, v % 10**9) if k == "st_mtime_ns" else "; ".join(ast.dump(x) for x in v) if isinstance(v, list) else repr(v)) for k, v in sorted(d.items())))
    except Exception:
        return (p, "bad", data)


def cachestate(files, root):
    """Canonical form of the cache files; time stamps are kept as numbers ("t", seconds)."""
    return tuple(cachefile(p, files[p][0]) for p in sorted(files) if p.endswith(".pyc") or "__pycache__" in p)


def canon_times(x, times):
    """Replace time stamps by their rank."""
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] == "t" and isinstance(x[1], int):
            return ("t", times.get(x[1], x[1])) + x[2:]
        return tuple(canon_times(y, times) for y in x)
    return x


def find_times(x, into):
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] == "t" and isinstance(x[1], int):
            into.add(x[1])
            return
        for y in x:
            find_times(y, into)
