"""Shared by every driver: running the real code safely, recording what it does."""
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NONE = 1000000

sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def guarded(fn, secs=4):
    """(kind, value): kind is "ok", "err" (an exception) or "hang"."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return "ok", fn()
    except Hang:
        return "hang", None
    except RecursionError as e:
        return "err", e
    except Exception as e:  # noqa: BLE001 - any exception is an observation
        return "err", e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _worker_init(env):
    os.environ.update(env)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    sys.stdout = open(os.devnull, "w")


class _Call:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, script):
        try:
            return True, self.fn(script)
        except BaseException:  # noqa: BLE001
            # no driver fails on code that answers as specified: the code under test raised, or
            # answered something that cannot even be recorded, where it must not
            return True, {"id": script["id"], "crash": traceback.format_exc()[-3000:]}


def execute(fn, scripts, workers=8, env=None):
    """Run driver fn(script) -> session for every script, in worker processes."""
    from tlc import MachineryError
    if not scripts:
        return []
    if len(scripts) < 40:
        workers = 1
    ctx = multiprocessing.get_context("fork")
    chunk = max(1, min(200, len(scripts) // (workers * 4) or 1))
    with ctx.Pool(workers, _worker_init, (env or {},)) as pool:
        res = pool.map(_Call(fn), scripts, chunksize=chunk)
    out = []
    for ok, r in res:
        if not ok:
            raise MachineryError("driver failed:\n" + r)
        out.append(r)
    return out


def rng(*parts):
    seed = os.environ.get("VERIF_SEED", "1")
    return random.Random("|".join([str(seed), *map(str, parts)]))


def chars(s):
    """Text as the specification sees it."""
    return list(s)


def valchars(v):
    """A match value as characters (None and foreign values are marked)."""
    if v is None:
        return ["#None"]
    if isinstance(v, str):
        return list(v)
    return ["#" + type(v).__name__ + ":" + repr(v)]


def R(k, v=None, w=None):
    return {"k": k, "v": v or [], "w": w or []}


class Own:
    """A function that is an object with a state of its own: a copy of it answers something else."""

    def __init__(self, f, copied):
        self.f, self.copied, self.home = f, copied, id(self)

    def __call__(self, x):
        return self.f(x) if id(self) == self.home else self.copied(x)


def own(f):
    return Own(f, lambda x: ("" if x is None else str(x)) + "COPIED")
