"""Telling a program that hangs from a machine that is slow.

A limit is a number of seconds of CPU time. After that many seconds on the clock, the process tree is looked at in
windows: it hangs if it has used the whole limit of CPU time meanwhile (an endless loop), or no CPU time at all for a
while (it is blocked). Otherwise it is just slow, and is given more time.
"""
import os
import time

TICK = os.sysconf("SC_CLK_TCK")
WINDOW = 30


def tree_cpu(root):
    """CPU seconds used so far by process `root`, its descendants, and those of them that have been waited for."""
    parent, used = {}, {}
    for x in os.listdir("/proc"):
        if x.isdigit():
            try:
                with open(f"/proc/{x}/stat", "rb") as f:
                    rest = f.read().rpartition(b")")[2].split()
            except OSError:
                continue
            parent[int(x)] = int(rest[1])
            used[int(x)] = sum(int(t) for t in rest[11:15]) / TICK
    total = 0
    for pid in used:
        p = pid
        while p and p != root:
            p = parent.get(p)
        if p == root:
            total += used[pid]
    return total


class Patience:
    """Ask `over()` from time to time. `root`: the process whose tree is waited for; `fresh`: it was started just now."""
    def __init__(self, limit, root, fresh=False):
        self.limit, self.root = limit, root
        self.start = time.monotonic()
        self.base = 0.0 if fresh else None
        self.own = None if fresh else time.process_time()
        self.window = None

    def left(self):
        """Seconds until it is worth asking again."""
        now = time.monotonic()
        if self.window is None:
            return max(0.01, self.start + self.limit - now)
        return max(0.01, self.window[0] + WINDOW - now)

    def over(self):
        now = time.monotonic()
        if now < self.start + self.limit:
            return False
        if self.own is not None and self.root == os.getpid() and time.process_time() - self.own >= self.limit:
            return True
        if self.window is not None and now < self.window[0] + WINDOW:
            return False
        try:
            cpu = tree_cpu(self.root)
        except OSError:  # no /proc
            return now > self.start + 5 * self.limit
        if self.base is None:
            self.base = cpu
        old, self.window = self.window, (now, cpu)
        if cpu - self.base >= self.limit:
            return True
        return old is not None and cpu - old[1] < 0.005 * (now - old[0])
