"""Debug, logging and key-check settings under which the other drivers are run (property X01)."""
import contextlib
import logging

import chains
import engines
import patterns
import rulesdrv


class Reader(logging.Handler):
    """A handler that writes every message, somewhere."""

    def emit(self, record):
        try:
            self.format(record)
        except Exception:  # noqa: BLE001 - as handlers do
            pass


READER = Reader(0)


def apply(sw):
    from rebulk import debug
    debug.DEBUG = sw["debug"]
    debug.LOG_LEVEL = sw["level"]
    if sw["check"] is not None:
        debug.CHECK_DECLARED_KEYS = sw["check"]
    root = logging.getLogger("rebulk")
    root.propagate = False
    root.handlers[:] = [READER if sw["logger"] is not None else logging.NullHandler()]
    root.setLevel(sw["logger"] or 0)


@contextlib.contextmanager
def under(sw):
    from rebulk import debug
    root = logging.getLogger("rebulk")
    before = (debug.DEBUG, debug.LOG_LEVEL, debug.CHECK_DECLARED_KEYS, list(root.handlers), root.level, root.propagate)
    try:
        if sw:
            apply(sw)
        yield
    finally:
        debug.DEBUG, debug.LOG_LEVEL, debug.CHECK_DECLARED_KEYS = before[:3]
        root.handlers[:], root.propagate = before[3], before[5]
        root.setLevel(before[4])


def engine_drive(script):
    with under(script.get("sw")):
        return engines.drive(script)


def rule_drive(script):
    with under(script.get("sw")):
        return rulesdrv.drive(script)


def chain_drive(script):
    with under(script.get("sw")):
        return chains.drive(script)


def pattern_drive(script):
    with under(script.get("sw")):
        return patterns.drive(script)


# ------------------------------------------------------------------ scripts
def some(r, keep_check=False):
    return dict(debug=r.random() < 0.6, level=r.choice([0, 1, 5, 10, 10, 30, 100]), check=None if keep_check else r.random() < 0.5,
                logger=r.choice([None, None, 0, 1, 10, 10, 20, 60]))


def leveled(p, r, single):
    """A pattern with a log level of its own; expressions read the same way by both backends."""
    if r.random() < 0.3:
        p["level"] = r.choice([0, 1, 10, 50])
    if p["kind"] == "chain":
        for x in p["parts"]:
            leveled(x["p"], r, single)
    if single and p["kind"] == "re":
        p["rep"] = False


def engine_script(sid, r, single=False):
    s = engines.script(sid, r, calls=r.randint(2, 4), setups=0.15, edits=0.1)
    for p in s["P"]:
        leveled(p, r, single)
    for x in s["R"][2:]:
        x["level"] = r.choice([None, None, 0, 5, 50])
    by = {}
    for x in s["R"][2:]:
        x["level"] = by.setdefault(x["cls"], x["level"])
    s["sw"] = some(r, single)
    ev = []
    for e in s["ev"]:
        if r.random() < 0.4:
            ev.append(dict(op="switch", sw=some(r, single)))
        ev.append(e)
    s["ev"] = ev
    return s


def rule_script(sid, r):
    s = r.choice([rulesdrv.order_script, rulesdrv.trigger_script, rulesdrv.acting_script, rulesdrv.conflict_script,
                  rulesdrv.privacy_script])(sid, r)
    by = {}
    for x in s["rules"]:
        x["level"] = by.setdefault(x["cls"], r.choice([None, None, 0, 5, 50]))
    s["sw"] = some(r)
    return s


def chain_script(sid, r):
    s = r.choice([chains.run_script, chains.scan_script, chains.fallback_script])(sid, r)
    leveled(s["c"], r, True)
    s["sw"] = some(r)
    return s


def pattern_script(sid, r):
    s = r.choice([patterns.tree_script, patterns.regex_script, patterns.emission_script, patterns.value_script])(sid, r)
    leveled(s["p"], r, True)
    s["sw"] = some(r)
    return s
