#!/usr/bin/env python
"""Entry point of every check.

    check.py <PROPERTY> quick|thorough
    check.py replay <file>
"""
import collections
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import common  # noqa: E402
import tlc  # noqa: E402
from tlc import MachineryError, VERIF  # noqa: E402

EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Batch:
    """Sessions of the real code, made by `make(rng, n)`, executed by `drive`, judged by `module`."""

    def __init__(self, name, module, make, drive, quick, thorough=None, clauses=None, steps=None, corrupt=None,
                 cfg="Trace.cfg", env=None):
        self.name, self.module, self.make, self.drive = name, module, make, drive
        self.quick, self.thorough = quick, thorough or quick * 4
        self.clauses = clauses
        self.steps = steps or (lambda s: len(s["ev"]))
        self.corrupt = corrupt
        self.cfg = cfg
        self.env = env or {}


class Model:
    """A bounded model checked exhaustively by TLC."""

    def __init__(self, module, cfg=None, thorough_cfg=None, expect_violation=None):
        self.module = module
        self.cfg = cfg or module + ".cfg"
        self.thorough_cfg = thorough_cfg
        self.expect_violation = expect_violation


class Check:
    def __init__(self, prop, batches=(), models=(), note="", budget=480, assumptions=()):
        self.prop, self.batches, self.models, self.note, self.budget = prop, list(batches), list(models), note, budget
        self.assumptions = list(assumptions)


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f) if k.get("status") == "known"]


def short(x, n=900):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


class Runner:
    def __init__(self, check, tier):
        self.check, self.tier = check, tier
        self.states = self.transitions = self.traces = 0
        self.samples, self.detail = [], []
        self.violations = []
        self.known = collections.Counter()
        self.t0 = time.time()

    # -- models
    def run_model(self, m):
        cfg = m.thorough_cfg if self.tier == "thorough" and m.thorough_cfg else m.cfg
        if m.expect_violation:
            r = tlc.tlc(m.module, cfg, workers=tlc.CORES, timeout=800, heap="8g")
            if m.expect_violation not in r.out:
                raise MachineryError(f"{m.module}/{cfg}: TLC was expected to report {m.expect_violation}\n" + r.out[-3000:])
            self.detail.append({"model": m.module, "cfg": cfg, "rejected_as_expected": m.expect_violation})
            return
        r = tlc.model_check(m.module, cfg)
        self.states += r.distinct
        self.transitions += r.generated
        self.detail.append({"model": m.module, "cfg": cfg, "states": r.distinct, "transitions": r.generated,
                            "depth": r.depth, "wall_s": round(r.wall, 1)})

    # -- sessions
    def run_batch(self, b, n, rnd):
        r = common.rng(self.check.prop, b.name, rnd)
        scripts = b.make(r, n)
        for i, s in enumerate(scripts):
            s["id"] = i
        sessions = common.execute(b.drive, scripts, env=b.env)
        crashed = [s for s in sessions if s.get("crash")]
        for s in crashed:
            self.report(b, scripts[s["id"]], {"s": s["id"], "c": "crash", "l": 0}, s)
        sessions = [s for s in sessions if not s.get("crash")]
        bad, st = tlc.validate(b.module, sessions, cfg=b.cfg, steps=b.steps)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.traces += len(sessions) - st["skipped"]
        by_id = {s["id"]: s for s in sessions}
        for sid in sorted(bad):
            v = bad[sid]
            if b.clauses and not b.clauses(v["c"]):
                self.detail.append({"other_clause": v["c"], "batch": b.name})
                continue
            self.report(b, scripts[sid], v, by_id[sid])
        if rnd == 0 and sessions:
            self.samples.append({"batch": b.name, "session": short(sessions[0], 1500)})
        self.detail.append({"batch": b.name, "round": rnd, "sessions": len(sessions), "states": st["states"],
                            "not_judged_in_time": st["skipped"], "disagreements": len(bad), "wall_s": round(st["wall"], 1)})
        if b.corrupt and self.tier == "thorough" and rnd == 0:
            self.binding(b, [s for s in sessions if s["id"] not in bad], r)

    def binding(self, b, sessions, r):
        """The binding itself: recorded sessions with one field corrupted must be rejected."""
        sample = [json.loads(json.dumps(s)) for s in r.sample(sessions, min(60, len(sessions)))]
        touched = [s for s in sample if b.corrupt(s, r)]
        if not touched:
            return
        bad, _ = tlc.validate(b.module, touched, cfg=b.cfg, steps=b.steps)
        missed = [s for s in touched if s["id"] not in bad]
        self.detail.append({"batch": b.name, "corrupted": len(touched), "rejected": len(touched) - len(missed)})
        if missed:
            raise MachineryError(f"corrupted sessions accepted by {b.module}: " + short(missed[0], 3000))

    def report(self, b, script, verdict, session):
        for k in load_known():
            if k["property"] == self.check.prop and k.get("batch") in (None, b.name) and known_matches(k, verdict, session, script):
                self.known[k["what"]] += 1
                return
        self.violations.append((b, script, verdict, session))

    def run(self):
        for m in self.check.models:
            self.run_model(m)
        rnd = 0
        while True:
            for b in self.check.batches:
                self.run_batch(b, b.quick if self.tier == "quick" else b.thorough, rnd)
            rnd += 1
            if self.violations or self.tier == "quick" or time.time() - self.t0 > self.check.budget:
                break

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        prop = self.check.prop
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6], "runs": self.detail[:200]}
        ev = {"property": prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "model_checking", "coverage": cov, "assumptions": self.check.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, n in self.known.items():
            print(f"KNOWN-FINDING: property={prop} {what} ({n} sessions)")
        if not self.violations:
            print(f"OK property={prop} tier={self.tier} states={self.states} traces={self.traces} "
                  f"wall={ev['wall_s']}s")
            return 0
        os.makedirs(REPLAY, exist_ok=True)
        seen = set()
        for b, script, verdict, session in self.violations:
            if verdict["c"] in seen or len(seen) >= 5:
                continue
            seen.add(verdict["c"])
            path = os.path.join(REPLAY, f"{prop}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "batch": b.name, "module": b.module, "script": script, "verdict": verdict,
                           "session": session}, f, indent=1)
            print(f"  {b.name}: clause {verdict['c']} at event {verdict.get('l')}: expected {short(verdict.get('x'), 300)}")
            print(f"VIOLATION property={prop} replay={path}")
        print(f"  {len(self.violations)} sessions disagree with the specification")
        return 1


def known_matches(k, verdict, session, script):
    """A known finding is identified by clause and by exact fields of the failing session."""
    if k["clause"] != verdict["c"]:
        return False
    if "ev" in k and k["ev"] != session["ev"]:          # the answers recorded, so that another failure is reported
        return False
    return all(script.get(f) == v for f, v in k.get("script", {}).items())


def replay(path):
    import registry
    with open(path) as f:
        d = json.load(f)
    check = registry.CHECKS[d["property"]]
    b = [b for b in check.batches if b.name == d["batch"]][0]
    script = d["script"]
    script["id"] = 0
    s = common.execute(b.drive, [script], env=b.env)[0]
    if s.get("crash"):
        print("the real code crashed:", s["crash"])
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    bad, _ = tlc.validate(b.module, [s], cfg=b.cfg, steps=b.steps)
    print(json.dumps(s)[:3000])
    if bad:
        print("specification:", json.dumps(bad[0]))
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("agrees with the specification")
    return 0


def main(argv):
    if argv[1] == "replay":
        return replay(argv[2])
    prop, tier = argv[1], (argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    os.environ["VERIF_TIER"] = tier
    import registry
    run = Runner(registry.CHECKS[prop], tier)
    run.run()
    return run.finish()


if __name__ == "__main__":
    try:
        code = main(sys.argv)
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        code = 3
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        code = 3
    sys.exit(code)
