"""Several pieces of work at the same time, one line of the library at a time, under a given plan."""
import os
import random
import sys
import threading

from common import REPO

HOME = os.path.join(os.path.realpath(REPO), "rebulk") + os.sep


class Over(BaseException):
    pass


def plain(fn):
    """As common.guarded, in a thread (the main one keeps the time)."""
    try:
        return "ok", fn()
    except Exception as e:  # noqa: BLE001 - any exception is an observation
        return "err", e


def plan(r):
    """When to switch: at random, or once, at some line, to the end of the others."""
    if r.random() < 0.5:
        return dict(how="random", p=r.choice([0.01, 0.05, 0.3]), seed=r.randrange(1 << 30))
    return dict(how="once", at=int(10 ** r.uniform(0, 3.3)), seed=r.randrange(1 << 30))


class Group:
    def __init__(self, works, plan):
        self.plan, self.r = plan, random.Random(plan["seed"])
        self.n = len(works)
        self.go = [threading.Semaphore(0) for _ in works]
        self.live = list(range(self.n))
        self.over = False
        self.end = threading.Event()
        self.lines = [0] * self.n
        self.known = {}
        self.threads = [threading.Thread(target=self.work, args=(c, w), daemon=True) for c, w in enumerate(works)]

    def inside(self, path):
        if path not in self.known:
            self.known[path] = os.path.realpath(path).startswith(HOME)
        return self.known[path]

    def work(self, c, fn):
        self.go[c].acquire()
        try:
            if not self.over:
                sys.settrace(lambda frame, event, arg: self.tracer(c) if self.inside(frame.f_code.co_filename) else None)
                fn()
        except Over:
            pass
        finally:
            sys.settrace(None)
            self.live.remove(c)
            if self.live and not self.over:
                self.go[self.r.choice(self.live)].release()
            else:
                self.end.set()

    def tracer(self, c):
        def trace(frame, event, arg):
            if event == "line":
                if self.over:
                    raise Over
                self.lines[c] += 1
                if len(self.live) > 1 and self.switches(c):
                    self.go[self.r.choice([x for x in self.live if x != c])].release()
                    self.rest(c)
            return trace
        return trace

    def rest(self, c):
        """Until it is this one's turn again, or nobody goes on (the one to go on waits for something held here)."""
        seen = -1
        while not self.go[c].acquire(timeout=0.5):
            now = sum(self.lines)
            if now == seen:
                return
            seen = now

    def switches(self, c):
        if self.plan["how"] == "random":
            return self.r.random() < self.plan["p"]
        return c == 0 and self.lines[0] == self.plan["at"]

    def run(self):
        for t in self.threads:
            t.start()
        try:
            self.go[0].release()
            self.end.wait()
        finally:                                  # done, or out of time
            self.over = True
            for s in self.go:
                s.release()
            for t in self.threads:
                t.join(1)


def run(works, plan):
    Group(works, plan).run()
