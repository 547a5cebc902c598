"""Driver for introspection: modules Introspect / IntrospectTrace."""
import chains
import engines
import rulesdrv
from common import R, guarded
from patterns import VALUES, dec, encval

class Life(engines.Life):
    def __init__(self, script):
        super().__init__(script)
        for r in script["R"]:
            if r.get("props") and r["cls"] in self.classes:
                self.classes[r["cls"]].properties = {x["n"]: [VALUES[v] for v in x["v"]] for x in r["props"]}

    def intro(self, e):
        from rebulk.introspector import introspect
        ctx = None if e["ctx"] == "none" else {"on": e["ctx"] == "on"}
        self.now.start(ctx)

        def run():
            x = introspect(self.rebulks[e["i"] - 1], ctx if ctx is not None else {})
            return [listed(p.properties) for p in x.patterns], [listed(p.properties) for p in x.rules], listed(x.properties)
        k, v = guarded(run)
        if k == "err" and self.s.get("debug"):
            raise v
        pats, rules, every = v if k == "ok" else ([], [], [])
        return dict(op="intro", i=e["i"], on=e["ctx"] == "on", r=R(k), pats=pats, rules=rules, all=every)

    def idle(self, e):
        a = e["allowed"]
        form = e["form"]
        allowed = a[0] if form == "one" and len(a) == 1 else {"set": set, "gen": iter}.get(form, list)(a)
        rb = self.rebulks[e["i"] - 1]
        k, v = guarded(lambda: rb.check_keys() if not a and form == "one" else rb.check_keys(allowed_unused=allowed))
        return dict(op="idle", i=e["i"], allowed=a, r=R(k), got=list(v) if k == "ok" else [])

    def names(self, e):
        made = self.intro(e)
        ctx = None if e["ctx"] == "none" else {"on": e["ctx"] == "on"}
        self.now.start(ctx)
        rb = self.rebulks[e["i"] - 1]
        args = [dec(self.s["X"][e["t"] - 1])] + ([ctx] if ctx is not None else [])
        k, v = guarded(lambda: rb.matches(*args))
        found = []
        for m in v if k == "ok" else []:
            if m.name and not m.private and not m.marker and m.name not in found:
                found.append(m.name)
        return dict(op="names", i=e["i"], on=e["ctx"] == "on", found=found, all=made["all"])


def listed(props):
    return [dict(n=n or "", v=[encval(x) for x in vs]) for n, vs in props.items()]


def drive(script):
    life = Life(script)
    evs = []
    for e in script["ev"]:
        if e["op"] == "setup":
            life.setup(e)
            evs.append({k: e[k] for k in ("op", "what", "i", "ids", "n")})
        else:
            evs.append({"intro": life.intro, "idle": life.idle, "names": life.names}[e["op"]](e))
    t = 0
    text = life.texts[t]
    count = [0]
    P = [dict(spec_props(chains.spec_chain(engines.at_text(p, t), text, range(len(text) + 1), count), p), dis=p["dis"])
         for p in script["P"]]
    first = [dict(dis=e["dis"], pats=e["add"].get("pattern", []), rules=e["rules"] + e["add"].get("rule", []),
                  kids=e["add"].get("child", []), keys=[dict(n=script["keys"][k - 1], id=k) for k in e["add"].get("key", [])])
             for e in script["E"]]
    rules = [dict(rulesdrv.spec_rule(r), props=spec_values(r.get("props", []))) for r in script["R"]]
    return {"id": script["id"], "P": P, "R": rules, "E": first, "names": sorted(set(script["keys"])), "ev": evs}


def spec_values(props):
    return [dict(n=x["n"], v=[encval(VALUES[v]) for v in x["v"]]) for x in props]


def spec_props(out, p):
    out["props"] = spec_values(p.get("props", []))
    if p["kind"] == "chain":
        for a, b in zip(out["parts"], p["parts"]):
            spec_props(a["p"], b["p"])
    return out


# ------------------------------------------------------------------ scripts
NAMES = ["x", "y", "n", "N", "_x", "xx"]


def some_props(r, p):
    if r.random() > p:
        return []
    return [dict(n=n, v=[r.randrange(len(VALUES)) for _ in range(r.randint(1, 3))]) for n in r.sample(NAMES, r.randint(1, 2))]


def ornate(p, r, prob=0.12):
    p["props"] = some_props(r, prob)
    if r.random() < 0.3:
        p["priv"] = False
    if p["kind"] == "chain":
        for x in p["parts"]:
            ornate(x["p"], r, prob / 2)
            if r.random() < 0.08:
                x["p"]["priv"] = True
            if r.random() < 0.05:
                x["p"]["mark"] = True


def deepen(s, r):
    """Chains in chains."""
    for i, p in enumerate(s["P"]):
        if p["kind"] == "chain" and r.random() < 0.5:
            s["P"][i] = engines.a_pattern(r, s["X"], nest=r.choice([0.3, 0.6]), kinds=("chain",))


def rename(p, r):
    if r.random() < 0.5:
        p["name"] = r.choice(NAMES + ["", "z"])
    for x in p["parts"] if p["kind"] == "chain" else []:
        rename(x["p"], r)


def idle_script(sid, r):
    """Every name is declared: which can come out?"""
    s = engines.script(sid, r, engines=r.choice([1, 1, 2]), calls=1)
    s["P"] = s["P"][:r.choice([1, 1, 2])]
    if r.random() < 0.6:
        s["P"][0] = engines.a_pattern(r, s["X"], nest=r.choice([0, 0.3, 0.6]), kinds=("chain",))
    for p in s["P"]:
        rename(p, r)
        ornate(p, r, 0.1)
    for x in s["R"][2:]:
        x["props"], x["sel"] = [], "nothing"
    s["keys"] = NAMES + ["z"]
    for e in s["E"]:
        e["add"]["pattern"] = [r.randint(1, len(s["P"])) for _ in range(r.randint(0 if r.random() < 0.2 else 1, 2))]
        e["add"]["key"] = []
    s["E"][r.randrange(len(s["E"]))]["add"]["key"] = r.sample(range(1, len(s["keys"]) + 1), r.randint(4, len(s["keys"])))
    s["ev"] = []
    for _ in range(r.randint(1, 2)):
        s["ev"].append(dict(op="idle", i=r.choice([1, 1, len(s["E"])]), ctx="none", t=1,
                            allowed=r.sample(NAMES + ["z"], r.choice([0, 0, 1, 2])), form=r.choice(["one", "list", "set", "gen"])))
        if r.random() < 0.2:
            s["ev"].append(dict(op="setup", what="pattern", i=1, ids=[r.randint(1, len(s["P"]))], n=""))
    return s


def script(sid, r):
    s = engines.script(sid, r, engines=r.choice([1, 2, 2, 3]), calls=1)
    deepen(s, r)
    for p in s["P"]:
        ornate(p, r)
    for x in s["R"][2:]:
        x["props"] = []
    by = {}
    for x in s["R"][2:]:
        if x["cls"] not in by:
            by[x["cls"]] = some_props(r, 0.4)
        x["props"] = by[x["cls"]]
        x["sel"], x["cons"] = "nothing", [rulesdrv.consequence(r)]
    s["keys"] = [r.choice(NAMES + ["z"]) for _ in s["keys"]]
    n = len(s["E"])
    ev = []
    for _ in range(r.randint(2, 4)):
        if r.random() < 0.25:
            what = r.choice(["pattern", "child", "key", "reset"])
            i = r.randint(1, n)
            ids = {"pattern": lambda: [r.randint(1, len(s["P"]))], "child": lambda: [r.randint(i + 1, n)] if i < n else [],
                   "key": lambda: [r.randint(1, len(s["keys"]))] if s["keys"] else [], "reset": lambda: []}[what]()
            if ids or what == "reset":
                ev.append(dict(op="setup", what=what, i=i, ids=ids, n=s["keys"][ids[0] - 1] if what == "key" else ""))
        i = 1 if r.random() < 0.7 else r.randint(1, n)
        op = r.choice(["intro", "intro", "idle", "names"])
        e = dict(op=op, i=i, ctx=r.choice(["none", "on", "off"]), t=1)
        if op == "idle":
            e.update(allowed=r.sample(NAMES + ["z"], r.choice([0, 0, 1, 2])), form=r.choice(["one", "list", "set", "gen"]))
        ev.append(e)
    s["ev"] = ev
    return s


def corrupt(s, r):
    es = [e for e in s["ev"] if e["op"] in ("intro", "idle") and e["r"]["k"] == "ok"]
    if not es:
        return False
    e = r.choice(es)
    if e["op"] == "idle":
        e["got"] = e["got"] + ["!"]
    else:
        f = r.choice(["pats", "rules", "all"])
        e[f] = e[f] + [[] if f != "all" else dict(n="!", v=[])]
    return True
