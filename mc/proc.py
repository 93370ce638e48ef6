"""Running a piece of a case in a forked child: a fresh process as far as the code under test can tell."""
import os
import pickle
import re
import select
import signal
import subprocess
import sys
import traceback

from .patience import Patience

ANSI = re.compile(r"\x1b\[[0-9;]*m")
UUID = re.compile(r"_gensym_[0-9a-f]+|(?<![0-9a-f])[0-9a-f]{32}(?![0-9a-f])")


class ChildDied(Exception):
    pass


def forked(fn, *args, timeout=60):
    """Run `fn(*args)` in a child process; return its (pickled) result; re-raise as ChildDied if it fails."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = ("ok", fn(*args))
                blob = pickle.dumps(out)
            except BaseException:
                blob = pickle.dumps(("error", traceback.format_exc()))
            os.set_blocking(w, True)
            view = memoryview(blob)
            while view:
                n = os.write(w, view)
                view = view[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    patience = Patience(timeout, pid, fresh=True)
    try:
        while True:
            if patience.over():
                raise ChildDied(f"no answer within {timeout} s")
            ready, _, _ = select.select([r], [], [], patience.left())
            if not ready:
                continue
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    blob = b"".join(chunks)
    if not blob:
        raise ChildDied("the process died without an answer")
    kind, val = pickle.loads(blob)
    if kind == "error":
        raise ChildDied(val)
    return val


def finished(cmd, timeout=60, input=None, **kw):
    """Like `subprocess.run(cmd, ...)` with both outputs captured."""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if input is None else subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    patience = Patience(timeout, p.pid, fresh=True)
    try:
        while True:
            try:
                out, err = p.communicate(input, timeout=patience.left())
                return p.returncode, out, err
            except subprocess.TimeoutExpired:
                if patience.over():
                    raise ChildDied(f"no answer within {timeout} s: {cmd}")
    finally:
        p.kill()
        p.wait()


def plain(text):
    """Error or console text without colors and unique suffixes."""
    return UUID.sub("_UUID", ANSI.sub("", str(text)))
