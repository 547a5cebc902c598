"""Running TLC: model checking, behaviour generation and trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    """Something of the machinery itself failed: never a verdict about the code."""


class TooSlow(MachineryError):
    """TLC ran out of time."""


class TlcRun:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.finished = "Model checking completed" in out or "Finished in" in out

    def lines(self, mark):
        """JSON payloads printed by the specification with PrintT(mark \\o ToJson(..))."""
        res, seen = [], set()
        for line in self.out.splitlines():
            if line.startswith('"' + mark):
                if line in seen:
                    continue
                seen.add(line)
                text = line[len(mark) + 1:].rstrip()
                text = text[:-1] if text.endswith('"') else text
                text = text.replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(text.strip()))
        return res


def scratch(prefix="vtlc"):
    return tempfile.mkdtemp(prefix=prefix)


def tlc(module, cfg, env=None, workers=1, timeout=800, heap="3g", extra=(), stack="32m"):
    meta = scratch()
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-DTLA-Library=" + SPEC,
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), *extra,
           os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise TooSlow(f"TLC timed out on {module} after {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcRun(p.returncode, p.stdout, time.time() - t)


def model_check(module, cfg, env=None, timeout=800, workers=CORES, heap="8g", extra=()):
    """Exhaustive check of a bounded model: an error here is a defect of the specification."""
    r = tlc(module, cfg, env, workers=workers, timeout=timeout, heap=heap, extra=extra)
    if "Error:" in r.out or r.rc != 0 or "No error has been found" not in r.out:
        raise MachineryError(f"TLC on {module}/{cfg} failed (rc={r.rc}):\n" + r.out[-4000:])
    return r


SLICE = 60          # seconds given to a part of a shard that took too long


def attempt(module, cfg, path, timeout):
    try:
        return tlc(module, cfg, {"TRACE": path}, workers=1, timeout=timeout, heap="3g")
    except TooSlow:
        return None


def validate(module, sessions, cfg="Trace.cfg", timeout=None, shards=None, steps=lambda s: len(s["ev"]), tolerant=True):
    """Validate recorded sessions against a trace specification.

    Returns (bad, stats): bad maps a session id to its first disagreement.  Completeness is
    checked: TLC must have visited exactly the states the accepted prefixes have.
    """
    if not sessions:
        return {}, {"states": 0, "transitions": 0, "wall": 0.0, "skipped": 0}
    timeout = timeout or (330 if os.environ.get("VERIF_TIER", "quick") == "quick" else 900)
    n = shards or min(CORES, max(1, len(sessions) // 20))
    d = scratch("vtrace")
    parts = [sessions[k::n] for k in range(n)]
    paths = []
    for k, part in enumerate(parts):
        p = os.path.join(d, f"t{k}.ndjson")
        with open(p, "w") as f:
            for s in part:
                f.write(json.dumps(s, ensure_ascii=True) + "\n")
        paths.append(p)
    t = time.time()
    try:
        with ThreadPoolExecutor(min(n, CORES)) as ex:
            runs = list(ex.map(lambda p: attempt(module, cfg, p, timeout), paths))
    finally:
        keep = os.environ.get("VERIF_KEEP")
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
        else:
            print("kept", d)
    bad = {}
    states = gen = skipped = 0
    spoilt, slow = [], []
    for part, r in zip(parts, runs):
        if r is None:
            slow.append(part)
            continue
        if "Error:" in r.out and "evaluating" in r.out and tolerant:
            # an answer outside of the domain of the specification: find the sessions it is in
            spoilt.append(part)
            continue
        if "Error:" in r.out or r.rc != 0 or "No error has been found" not in r.out:
            raise MachineryError(f"TLC on {module} failed (rc={r.rc}):\n" + r.out[-6000:])
        mine = {b["s"]: b for b in r.lines("@@BAD ")}
        bad.update(mine)
        want = sum(steps(s) + 1 if s["id"] not in mine else mine[s["id"]]["l"] + 1 for s in part)
        if r.distinct != want:
            raise MachineryError(f"{module}: {r.distinct} states visited, {want} expected:\n" + r.out[-3000:])
        states += r.distinct
        gen += r.generated
    for part in spoilt:
        if len(part) == 1:
            bad[part[0]["id"]] = {"s": part[0]["id"], "l": 0, "c": "outside", "x": "no evaluation of the specification"}
            continue
        k = max(2, min(CORES, len(part)))
        b, st = validate_parts(module, [part[i::k] for i in range(k)], cfg, timeout, steps)
        bad.update(b)
        states, gen, skipped = states + st["states"], gen + st["transitions"], skipped + st["skipped"]
    if slow and timeout < SLICE:
        skipped += sum(map(len, slow))
    elif slow:                                  # some session takes TLC too long: judge the others
        again = [s for part in slow for s in part]
        b, st = validate(module, again, cfg, SLICE - 1, min(len(again), 8 * CORES), steps, tolerant)
        bad.update(b)
        states, gen, skipped = states + st["states"], gen + st["transitions"], skipped + st["skipped"]
    if skipped * 4 > len(sessions) and timeout >= SLICE:
        raise TooSlow(f"TLC took too long on {skipped} of {len(sessions)} sessions of {module}")
    return bad, {"states": states, "transitions": gen - len(sessions) + skipped, "wall": time.time() - t, "skipped": skipped}


def validate_parts(module, parts, cfg, timeout, steps):
    """The parts of a spoilt shard in turn, until a session that spoils it is found."""
    bad, states, trans, skipped = {}, 0, 0, 0
    for q in parts:
        if q and not bad:
            b, st = validate(module, q, cfg, timeout, 1, steps)
            bad.update(b)
            states += st["states"]
            trans += st["transitions"]
            skipped += st["skipped"]
    return bad, {"states": states, "transitions": trans, "skipped": skipped}
