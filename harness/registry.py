"""Which models and which recorded sessions decide which property."""
import json

import store
import tlc
from check import Batch, Check, Model
from common import NONE


def many(mk):
    return lambda r, n: [mk(i, r) for i in range(n)]


# ------------------------------------------------------------------ collections
def store_histories(r, n):
    """Behaviours of module Store enumerated by TLC (StoreGen), stepped through the real code."""
    run = tlc.model_check("StoreGen", "StoreGen.cfg")
    hs = run.lines("@@H ")
    hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
    if n < len(hs):
        hs = r.sample(hs, n)
    touch = {"name": store.Q("named", ss=["x"]), "tag": store.Q("tagged", ss=["t"]), "start": store.Q("starting", [0]),
             "end": store.Q("ending", [2]), "index": store.Q("at_index", [1])}
    base = [dict(s=0, e=2, n="x", t=["t"]), dict(s=0, e=2, n="x", t=["u"]), dict(s=1, e=3, n="y", t=["t"]),
            dict(s=1, e=2, n="x", t=[])]
    out = []
    for h in hs:
        O = [dict(o, lit=[], fm=[], par=0, mark=False, priv=False) for o in base]
        evs = []
        for e in h[1:]:
            qs = [touch[k] for k in e["touch"]]
            if qs:
                evs.append(store.E("none", q=qs))
            evs.append(store.E(e["op"], e["a"], e["m"]))
        evs[-1]["q"] = store.probe([], O, 3)
        out.append(dict(cls="Matches", X=[], O=O, init=h[0]["m"], ev=evs))
    return out


def store_corrupt(s, r):
    """Alter one recorded answer."""
    qs = [q for e in s["ev"] for q in e["q"] if q["r"]["k"] in ("list", "int") and q["r"]["v"]]
    if not qs:
        return False
    q = r.choice(qs)
    if q["r"]["k"] == "int":
        q["r"]["v"][0] += 1
    else:
        q["r"]["v"].append(q["r"]["v"][-1])
    return True


ST = dict(module="StoreTrace", drive=store.drive, corrupt=store_corrupt)

CHECKS = {}


def add(*checks):
    for c in checks:
        CHECKS[c.prop] = c


add(
    Check("M01", [Batch("histories", make=store_histories, quick=8000, thorough=64078, **ST),
                  Batch("edits", make=many(store.edit_script), quick=12000, thorough=40000, **ST)],
          [Model("StoreIdx", thorough_cfg="StoreIdx4.cfg"),
           Model("StoreIdx", "StoreIdxBad.cfg", expect_violation="Invariant Coherent is violated")]),
    Check("M02", [Batch("pure", make=many(store.pure_script), quick=15000, thorough=40000, **ST)],
          [Model("StoreMC")]),
    Check("M03", [Batch("geometry", make=many(store.geometry_script), quick=15000, thorough=40000, **ST)],
          [Model("StoreMC", thorough_cfg="StoreMC5.cfg")]),
    Check("M04", [Batch("holes", make=many(store.hole_script), quick=15000, thorough=40000, **ST)],
          [Model("StoreMC", thorough_cfg="StoreMC5.cfg")]),
)

# ------------------------------------------------------------------ single matches
import matchops  # noqa: E402

MT = dict(module="MatchTrace", drive=matchops.drive, corrupt=matchops.corrupt)
add(
    Check("M05", [Batch("pieces", make=many(matchops.pieces_script), quick=20000, thorough=60000, **MT)], [Model("MatchMC")]),
    Check("M06", [Batch("comparisons", make=many(matchops.compare_script), quick=20000, thorough=60000, **MT)],
          [Model("MatchMC")]),
    Check("M07", [Batch("families", make=many(matchops.family_script), quick=16000, thorough=50000, **MT)], [Model("MatchMC")]),
    Check("V01", [Batch("borders", make=many(matchops.border_script), quick=16000, thorough=50000, **MT)], [Model("MatchMC", "BorderMC.cfg")]),
)

# ------------------------------------------------------------------ rules and conflicts
import rulesdrv  # noqa: E402

RT = dict(module="RulesTrace", drive=rulesdrv.drive, corrupt=rulesdrv.corrupt)
TT = dict(module="TopoTrace", drive=rulesdrv.topo_drive)
CONF = [Model("ConflictMC", thorough_cfg="ConflictMC4.cfg"), Model("ConflictMC", "ConflictMCs.cfg")]
add(
    Check("R01", [Batch("default", make=many(rulesdrv.conflict_script), quick=20000, thorough=60000, **RT)], CONF),
    Check("R02", [Batch("solvers", make=many(lambda i, r: rulesdrv.conflict_script(i, r, True)), quick=20000, thorough=60000,
                        **RT)], CONF),
    Check("R03", [Batch("privacy", make=many(rulesdrv.privacy_script), quick=12000, thorough=40000, **RT),
                  Batch("rejected", make=many(store.reject_script), quick=4000, thorough=10000, **ST)], CONF[:1]),
    Check("R04", [Batch("order", make=many(rulesdrv.order_script), quick=12000, thorough=40000, **RT),
                  Batch("toposort", make=many(rulesdrv.topo_script), quick=6000, thorough=20000, **TT)],
          [Model("RulesMC", thorough_cfg="RulesMC4.cfg")]),
    Check("R05", [Batch("triggers", make=many(rulesdrv.trigger_script), quick=12000, thorough=40000, **RT)],
          [Model("RulesMC")]),
    Check("R06", [Batch("consequences", make=many(rulesdrv.acting_script), quick=15000, thorough=50000, **RT)],
          [Model("ConsMC")]),
)

# ------------------------------------------------------------------ patterns
import patterns  # noqa: E402

PT = dict(module="PatternTrace", drive=patterns.drive, corrupt=patterns.corrupt)
RX = {"REBULK_REGEX_ENABLED": "1"}
PM = [Model("PatternMC", thorough_cfg="PatternMC7.cfg")]
add(
    Check("P01", [Batch("strings", make=many(patterns.string_script), quick=20000, thorough=60000, **PT)], PM),
    Check("P02", [Batch("trees", make=many(patterns.tree_script), quick=12000, thorough=40000, **PT),
                  Batch("captures", make=many(patterns.regex_script), quick=6000, thorough=20000, env=RX, **PT)], PM),
    Check("P03", [Batch("emission", make=many(patterns.emission_script), quick=16000, thorough=50000, **PT)], PM),
    Check("P04", [Batch("validation", make=many(patterns.validation_script), quick=16000, thorough=50000, **PT)], PM),
    Check("P05", [Batch("values", make=many(patterns.value_script), quick=16000, thorough=50000, **PT)], PM),
    Check("P06", [Batch("functions", make=many(patterns.func_script), quick=16000, thorough=50000, **PT)], PM),
)

# ------------------------------------------------------------------ chains
import chains  # noqa: E402

CT = dict(module="ChainTrace", drive=chains.drive, corrupt=chains.corrupt)
CM = [Model("ChainMC", thorough_cfg="ChainMC4.cfg")]
add(
    Check("C01", [Batch("runs", make=many(chains.run_script), quick=12000, thorough=40000, **CT)], CM),
    Check("C02", [Batch("scan", make=many(chains.scan_script), quick=12000, thorough=40000, **CT),
                  Batch("alternatives", module="ChainTrace", drive=chains.drive, make=chains.alternative_scripts, quick=1)], CM),
    Check("C03", [Batch("fallback", make=many(chains.fallback_script), quick=12000, thorough=40000, **CT)], CM),
)

# ------------------------------------------------------------------ engines
import engines  # noqa: E402

ET = dict(module="EngineTrace", drive=engines.drive, corrupt=engines.corrupt)
EM = [Model("EngineMC")]
add(
    Check("E01", [Batch("lives", make=many(engines.reuse_script), quick=8000, thorough=24000, **ET)], EM),
    Check("E02", [Batch("unions", make=many(engines.compose_script), quick=8000, thorough=24000, **ET)], EM),
)

add(
    Check("E03", [Batch("overlaps", make=many(engines.overlap_script), quick=6000, thorough=20000, **ET)],
          [Model("CallsMC")] + [Model("CallsMC", "CallsMC_%s.cfg" % w, expect_violation="Invariant AsAlone is violated")
                                for w in ("matches", "context", "turn")]),
)

# ------------------------------------------------------------------ declarations
import builders  # noqa: E402

BT = dict(module="BuilderTrace", drive=builders.drive, corrupt=builders.corrupt)
BM = [Model("BuilderMC")]
add(
    Check("B01", [Batch("defaults", make=many(builders.merge_script), quick=8000, thorough=24000, **BT),
                  Batch("restated", make=many(builders.restate_script), quick=6000, thorough=20000, **BT)], BM),
    Check("B03", [Batch("told", make=many(builders.told_script), quick=8000, thorough=24000, **BT)], BM),
    Check("B02", [Batch("sharing", make=many(builders.share_script), quick=8000, thorough=24000, **BT)], BM),
)

# ------------------------------------------------------------------ plain readings
import projection  # noqa: E402

JT = dict(module="ProjectTrace", drive=projection.drive, corrupt=projection.corrupt)
JM = [Model("ProjectMC", thorough_cfg="ProjectMC4.cfg")]
add(
    Check("T01", [Batch("dicts", make=many(projection.dict_script), quick=20000, thorough=80000, **JT)], JM),
    Check("T02", [Batch("keys", make=many(builders.key_script), quick=8000, thorough=24000, **BT),
                  Batch("readings", make=many(projection.read_script), quick=15000, thorough=60000, **JT)], BM),
    Check("T03", [Batch("models", make=many(projection.to_script), quick=15000, thorough=60000, **JT),
                  Batch("declared", make=many(projection.engine_script), quick=8000, thorough=30000, **JT)], JM),
)

# ------------------------------------------------------------------ introspection
import intros  # noqa: E402

NT = dict(module="IntrospectTrace", drive=intros.drive, corrupt=intros.corrupt)
add(
    Check("I01", [Batch("descriptions", make=many(intros.script), quick=12000, thorough=40000, **NT),
                  Batch("unused-keys", make=many(intros.idle_script), quick=8000, thorough=30000, **NT)],
          [Model("IntrospectMC", thorough_cfg="IntrospectMCbig.cfg")]),
)

# ------------------------------------------------------------------ settings
import settings  # noqa: E402

ALT = dict(RX, VERIF_STANDARD="1")
add(
    Check("X01", [Batch("switches", make=many(settings.engine_script), quick=4000, thorough=12000, **dict(ET, drive=settings.engine_drive)),
                  Batch("rules", make=many(settings.rule_script), quick=4000, thorough=12000, **dict(RT, drive=settings.rule_drive)),
                  Batch("backend-patterns", make=many(settings.pattern_script), quick=5000, thorough=20000, env=ALT,
                        **dict(PT, drive=settings.pattern_drive)),
                  Batch("backend-chains", make=many(settings.chain_script), quick=4000, thorough=12000, env=ALT,
                        **dict(CT, drive=settings.chain_drive)),
                  Batch("backend-engines", make=many(lambda i, r: settings.engine_script(i, r, True)), quick=3000, thorough=9000,
                        env=dict(ALT, REBULK_CHECK_DECLARED_KEYS="1"), **dict(ET, drive=settings.engine_drive)),
                  Batch("key-check", make=many(projection.engine_script), quick=5000, thorough=20000, **JT)], EM + JM[:1]),
)
