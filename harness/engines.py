"""Driver for engines: modules Engine / EngineTrace."""
import threading

import chains
import patterns as pt
import rulesdrv
import together
from common import R, guarded
from patterns import blank, dec, dress, encval, word

# ------------------------------------------------------------------ the real code


class Functions:
    """A function of the user given several texts: one table per text."""

    def __init__(self, tables, texts, sig, life):
        self.by = {}
        for x, t in zip(tables, texts):
            self.by[t] = x

        def work(t, c):
            x = self.by.get(t)
            if sig not in pt.ALONE:
                life.saw(c)
            if x is None:                       # the end of a text, in a chain
                for full, y in self.by.items():
                    if full.endswith(t):
                        x, off = y, len(full) - len(t)
                        break
            else:
                off = 0
            return pt.returned(x["shapes"][off], x["rets"][off])
        self.fn = pt.as_callable(sig, work)


class Rules(rulesdrv.Run):
    """Rule classes of one life."""

    def __init__(self, life):
        self.life = life
        self.s = {"how": "manual"}
        self.objs, self.ids, self.index = [], {}, {}

    # what rules do is recorded with the call they are run by
    evs = property(lambda self: self.life.now.evs)
    response = property(lambda self: self.life.now.response)
    answers = property(lambda self: self.life.now.answers)

    def saw(self, context):
        return self.life.saw(context)

    def enc(self, ms):
        list(ms)
        return []

    def snap(self):
        return []


class Ongoing(threading.local):
    """The call in progress (of this thread)."""

    def __init__(self):
        self.start(None)

    def start(self, ctx):
        self.ctx, self.seen, self.ok = ctx, None, True
        self.evs, self.response, self.answers = [], {}, {}


class Life:
    def __init__(self, script):
        from rebulk import Rebulk
        from rebulk.key import Key
        self.s = script
        self.texts = [dec(x) for x in script["X"]]
        self.given = []               # objects of the caller, with a copy
        self.now = Ongoing()
        self.rules = Rules(self)
        self.classes = {}
        for i, r in enumerate(script["R"]):
            if i >= 2 and r["cls"] not in self.classes:
                self.classes[r["cls"]] = self.rules.make_class(i, dict(r, deps=[], prio=0), {})
        for r in script["R"]:
            if r["deps"]:
                self.classes[r["cls"]].dependency = [self.classes[d] for d in r["deps"]]
        self.pats = [self.pattern(p) for p in script["P"]]
        self.portraits = [(p, p.name, list(p.tags)) for p in self.pats]
        self.keys = [Key(n, str) for n in script["keys"]]
        self.rebulks = []
        for e in script["E"]:
            rb = Rebulk(disabled=self.disabled(e["dis"]), default_rules=bool(e["rules"]))
            self.rebulks.append(rb)
        for i, e in enumerate(script["E"]):
            for what in ("pattern", "rule", "child", "key"):
                for x in e["add"].get(what, []):
                    self.setup(dict(what=what, i=i + 1, ids=[x], n=script["keys"][x - 1] if what == "key" else ""))

    def saw(self, c):
        now = self.now
        if now.ctx is not None:
            ok = c is now.ctx
        elif now.seen is None:                # a call without context starts from an empty one
            ok = isinstance(c, dict) and c == {}
            if ok:
                now.seen = c
                c["note"] = True              # the user code may keep notes there, for this call
        else:
            ok = c is now.seen
        now.ok = now.ok and ok
        return ok

    def keep(self, x):
        self.given.append((x, duplicate(x)))
        return x

    def disabled(self, dis):
        if dis == "yes":
            return True
        if dis == "no":
            return False

        def pred(context):
            self.saw(context)
            return bool(context.get("on")) == (dis == "on")
        return pred

    def pattern(self, p):
        from rebulk import Rebulk
        rb = Rebulk(default_rules=False)
        kw = {}
        if p["dis"] != "no":
            kw["disabled"] = self.disabled(p["dis"])
        if p["kind"] == "chain":
            self.assemble(rb.chain(**dict(chains.chain_options(p, p["form"]), **kw)), p, p["form"])
        else:
            args, extra = self.arguments(p)
            opts = self.keep(dict(pt.options(p, p["form"]), **extra, **kw))
            {"string": rb.string, "re": rb.regex, "func": rb.functional}[p["kind"]](*args, **opts)
        return rb.effective_patterns({})[0]

    def arguments(self, p):
        if p["kind"] != "func":
            args, extra, _ = pt.arguments(p, "")
            return args, extra
        return [Functions(x["tables"], self.texts, x["sig"], self).fn for x in p["funcs"]], {}

    def assemble(self, cb, c, form):
        for part in c["parts"]:
            p = part["p"]
            if p["kind"] == "chain":
                self.assemble(cb.chain(**chains.chain_options(p, form)), p, form)
                continue
            args, extra = self.arguments(p)
            made = {"string": cb.string, "re": cb.regex, "func": cb.functional}[p["kind"]](
                *args, **dict(pt.options(p, form), **extra))
            if part["rep"] != "":
                made.repeater(part["rep"])
            if part["hid"]:
                made.hidden()

    def setup(self, e):
        rb = self.rebulks[e["i"] - 1]
        if e["what"] == "pattern":
            rb = rb.pattern(*[self.pats[k - 1] for k in e["ids"]])
        elif e["what"] == "rule":
            for k in e["ids"]:
                inst = self.classes[self.s["R"][k - 1]["cls"]]()
                inst.priority = self.s["R"][k - 1]["prio"]
                self.rules.index[id(inst)] = k
                self.given.append((inst, inst))
                rb = rb.rules(inst)
        elif e["what"] == "child":
            rb = rb.rebulk(*[self.rebulks[k - 1] for k in e["ids"]])
        elif e["what"] == "key":
            rb = rb.declare_keys(*[self.keys[k - 1] for k in e["ids"]])
        elif e["what"] == "reset":
            rb.reset()
        self.rebulks[e["i"] - 1] = rb           # the caller goes on from what the declaration returned

    def call(self, e, guard=guarded):
        ctx = {"none": None, "empty": {}}[e["ctx"]] if e["ctx"] in ("none", "empty") else {"on": e["ctx"] == "on", "more": ["x"]}
        before = duplicate(ctx)
        self.now.start(ctx)
        text = self.texts[e["t"] - 1]
        args = [text] if ctx is None else [text, ctx]
        k, v = guard(lambda: self.rebulks[e["i"] - 1].matches(*args))
        if k == "err" and self.s.get("debug"):
            raise v
        asked = [self.s["R"][x["i"] - 1]["cls"] for x in self.rules.evs if x["op"] == "when"]
        out = dict(op="call", i=e["i"], t=e["t"], on=e["ctx"] == "on", r=R(k), asked=asked, got=[], marks=[], keys=[],
                   ctx=bool(self.now.ok), pure=True, input=True)
        if k == "ok":
            out["got"], out["marks"] = view(v), view(v.markers)
            ids = {id(x): j + 1 for j, x in enumerate(self.keys)}
            out["keys"] = [dict(n=n, id=ids.get(id(x), 0)) for n, x in v.declared_keys.items()]
            out["input"] = v.input_string == text and all(m.input_string == text for m in list(v) + list(v.markers))
        out["pure"] = bool(ctx == before and all(a == b for a, b in self.given)
                           and all(p.name == n and list(p.tags) == t for p, n, t in self.portraits))
        return out, v if k == "ok" else None

    def overlap(self, e):
        """Several calls at the same time; which of them goes on is decided line by line."""
        outs = [None] * len(e["calls"])

        def one(c):
            def work():
                outs[c] = self.call(e["calls"][c], together.plain)
            return work
        k, order = guarded(lambda: together.run([one(c) for c in range(len(outs))], e["plan"]), 20)
        for c, x in enumerate(e["calls"]):
            if outs[c] is None:
                outs[c] = dict(op="call", i=x["i"], t=x["t"], on=x["ctx"] == "on", r=R("hang"), asked=[], got=[], marks=[],
                               keys=[], ctx=True, pure=True, input=True), None
        return [o[0] for o in outs]


def duplicate(x):
    """Copy of nested dicts and lists; what they hold is the same."""
    if isinstance(x, dict):
        return {k: duplicate(v) for k, v in x.items()}
    if isinstance(x, list):
        return [duplicate(v) for v in x]
    return x


def view(ms):
    def brief(m):
        return dict(s=m.start, e=m.end, n=m.name or "", val=encval(m.value))
    return [dict(brief(m), t=list(m.tags), priv=bool(m.private), mark=bool(m.marker), raw=encval(m.raw),
                 par=[brief(m.parent)] if m.parent is not None else [], kids=[brief(k) for k in m.children]) for m in ms]


def spoil(ms, how):
    """What a caller may do to a result."""
    for group in (ms, ms.markers):
        for m in list(group):
            if how in ("rename", "all"):
                m.name = "zz"
            if how in ("tag", "all"):
                m.tags.append("zz")
            if how in ("untag", "all"):
                m.tags.clear()
            if how in ("value", "all"):
                m.value = "Z"
            if how in ("move", "all"):
                m.start, m.end = 0, 1
            if how in ("kids", "all"):
                for k in list(m.children):
                    k.name = "zz"
                    k.tags.append("zz")
                m.children.clear()
            if how in ("flags", "all"):
                m.private = not m.private
        if how in ("clear", "all"):
            group.clear()
    if how in ("keys", "all"):
        ms.declared_keys.clear()


def drive(script):
    import settings
    life = Life(script)
    evs, results = [], []
    for e in script["ev"]:
        if e["op"] == "setup":
            life.setup(e)
            evs.append({k: e[k] for k in ("op", "what", "i", "ids", "n")})
        elif e["op"] == "switch":
            settings.apply(e["sw"])
            evs.append(dict(op="switch"))
        elif e["op"] == "overlap":
            evs += life.overlap(e)
        elif e["op"] == "edit":
            if results:
                spoil(results[e["which"] % len(results)], e["how"])
            evs.append(dict(op="edit"))
        else:
            ev, res = life.call(e)
            evs.append(ev)
            if res is not None:
                results.append(res)
    P = []
    for t, text in enumerate(life.texts):
        count = [0]
        row = []
        for p in script["P"]:
            q = at_text(p, t)
            row.append(dict(chains.spec_chain(q, text, range(len(text) + 1), count), dis=p["dis"]))
        P.append(row)
    first = [dict(dis=e["dis"], pats=e["add"].get("pattern", []), rules=e["rules"] + e["add"].get("rule", []),
                  kids=e["add"].get("child", []), keys=[dict(n=script["keys"][k - 1], id=k) for k in e["add"].get("key", [])])
             for e in script["E"]]
    return {"id": script["id"], "X": script["X"], "P": P, "R": [rulesdrv.spec_rule(r) for r in script["R"]], "E": first, "ev": evs}


def at_text(p, t):
    q = dict(p)
    if p["kind"] == "chain":
        q["parts"] = [dict(x, p=at_text(x["p"], t)) for x in p["parts"]]
    if p["kind"] == "func":
        q["funcs"] = [x["tables"][t] for x in p["funcs"]]
    return q


# ------------------------------------------------------------------ scripts


def functions(p, r, texts):
    """Tables of a functional pattern, for each text."""
    if p["kind"] == "chain":
        for x in p["parts"]:
            functions(x["p"], r, texts)
    elif p["kind"] == "func":
        letter = p.pop("_letter", "")
        p["funcs"] = []
        for _ in range(1):
            tables = []
            for X in texts:
                f = pt.func(r, X, range(len(X) + 1))
                if letter:
                    f["rets"] = [[dict(s=i, e=i + 1, o=[], form="tuple", junk=False) for i, z in enumerate(X[o:]) if z == letter]
                                 for o in range(len(X) + 1)]
                    f["shapes"] = ["list"] * (len(X) + 1)
                tables.append(f)
            p["funcs"].append(dict(tables=tables, sig=r.choice([s for s in pt.SIGNATURES if s != "opts"])))


def a_pattern(r, texts, nest=0, kinds=("string", "string", "re", "re", "func", "chain")):
    k = r.choice(kinds)
    if k == "chain":
        p = chains.make_chain(r, [], depth=0 if nest else r.choice([1, 2, 2]), vd=0.05, cvd=0.1, shape=0.3, cshape=0.3, nest=nest or 0.3)
    elif k == "func":
        p = dress(blank("func"), r, emission=0.3, fm=0.2, va=0.1, vd=0.1, proc=0.05, pp=0.03)
        p["_letter"] = r.choice(["", "a", "b"])
    else:
        p = pt.fill(dress(blank(k), r, emission=0.3, fm=0.2, va=0.1, vd=0.1, proc=0.05, pp=0.03), r, r.choice(texts))
    functions(p, r, texts)
    p["form"] = r.choice(["one", "dict"])
    p["mark"] = r.random() < 0.12
    p["priv"] = p["priv"] or r.random() < 0.1
    p["dis"] = r.choice(["no"] * 7 + ["yes", "on", "off"])
    return p


CLS = ["Ra", "Rb", "Rc", "Rd"]


def a_rule(r, cls):
    sel = r.choice(["named", "named", "tagged", "all", "private", "sorted", "start", "index", "over", "nothing"])
    return rulesdrv.rule(cls, r.choice([0, 0, 1, -1, 3000]), on=r.choice(["yes"] * 4 + ["no", "ctx"]), sel=sel,
                         arg=[r.choice(["x", "y", "xy", "q"]) if sel == "named" else r.choice(["t", "tu", "new"])],
                         at=r.randint(0, 4), one=r.random() < 0.35,
                         cons=[rulesdrv.consequence(r)] if r.random() < 0.85 else None, shape=r.choice(["list", "tuple", "none"]))


def script(sid, r, engines=None, calls=None, setups=0.15, edits=0.3):
    letters = r.choice([["a", "b"], ["a", "b", "-"], ["a", "A", "b", "-"], ["a", "b", " ", "-"]])
    texts = []
    while len(texts) < r.choice([1, 2, 3]):
        x = word(r, letters, 0 if r.random() < 0.05 else 1, 6)
        # the ends of the texts tell them apart for functions in chains
        if not any(x == y or (x and y and x[-1:] == y[-1:]) for y in texts):
            texts.append(x)
        elif r.random() < 0.5:
            break
    P = [a_pattern(r, texts) for _ in range(r.randint(1, 5))]
    keys = [r.choice(["x", "y", "xy"]) for _ in range(r.randint(0, 4))]
    RR = [dict(rulesdrv.CONFLICT), dict(rulesdrv.PRIVATE)]
    base = {c: a_rule(r, c) for c in r.sample(CLS, r.randint(0, 3))}
    names = list(base)
    for c, x in base.items():
        x["deps"] = [d for d in names[:names.index(c)] if r.random() < 0.2]
    for c in names:
        RR.append(dict(base[c]))
    for _ in range(r.randint(0, 3) if base else 0):
        c = r.choice(names)
        RR.append(dict(base[c], prio=r.choice([0, 0, 1, -1, 3000])))
    n = engines or r.choice([1, 2, 2, 3, 3, 4])

    def some(k, most):
        return [r.randint(1, k) for _ in range(r.randint(0, most))] if k else []
    E = []
    for i in range(n):
        add = dict(pattern=some(len(P), 3), key=some(len(keys), 2), child=[])
        add["rule"] = [3 + x - 1 for x in some(len(RR) - 2, 2)]
        add["child"] = r.sample(range(i + 2, n + 1), r.randint(0, n - i - 1)) if i < n - 1 else []
        if r.random() < 0.1 and add["child"]:
            add["child"].append(r.choice(add["child"]))
        E.append(dict(dis=r.choice(["no"] * 5 + ["yes", "on", "off"]) if i else r.choice(["no"] * 9 + ["on"]),
                      rules=[1, 2] if r.random() < 0.6 else [], add=add))
    ev = []
    combos = [(1 if r.random() < 0.6 else r.randint(1, n), r.randint(1, len(texts)), r.choice(["none", "on", "off", "empty", "on"]))
              for _ in range(r.choice([1, 2, 3]))]
    for _ in range(calls or r.randint(2, 5)):
        if r.random() < setups:
            what = r.choice(["pattern", "rule", "child", "key", "reset"])
            i = r.randint(1, n)
            ids = {"pattern": lambda: [r.randint(1, len(P))], "rule": lambda: [r.randint(3, len(RR))] if len(RR) > 2 else [],
                   "child": lambda: [r.randint(i + 1, n)] if i < n else [],
                   "key": lambda: [r.randint(1, len(keys))] if keys else [], "reset": lambda: []}[what]()
            if ids or what == "reset":
                ev.append(dict(op="setup", what=what, i=i, ids=ids, n=keys[ids[0] - 1] if what == "key" else ""))
        i, t, c = r.choice(combos)
        ev.append(dict(op="call", i=i, t=t, ctx=c))
        if r.random() < edits:
            ev.append(dict(op="edit", which=r.randint(0, 5), how=r.choice(["rename", "tag", "untag", "value", "move", "kids", "flags",
                                                                           "clear", "keys", "all", "all"])))
    return dict(id=sid, X=texts, P=P, R=RR, E=E, keys=keys, ev=ev)


def reuse_script(sid, r):
    return script(sid, r, engines=r.choice([1, 1, 2]), calls=r.randint(3, 6), setups=0.1, edits=0.7)


def compose_script(sid, r):
    return script(sid, r, engines=r.choice([2, 3, 4]), calls=r.randint(2, 4), setups=0.35, edits=0.1)


def overlap_script(sid, r):
    """Calls of one engine (or of engines sharing children, patterns and rules) in progress at the same time."""
    s = script(sid, r, engines=r.choice([1, 2, 2]), calls=1, setups=0.1, edits=0)
    n = len(s["E"])
    for _ in range(r.choice([1, 1, 2])):
        calls = [dict(i=1 if r.random() < 0.7 else r.randint(1, n), t=r.randint(1, len(s["X"])), ctx=r.choice(["none", "on", "off", "empty"]))
                 for _ in range(r.choice([2, 2, 3]))]
        s["ev"].append(dict(op="overlap", calls=calls, plan=together.plan(r)))
    if r.random() < 0.3:
        s["ev"].append(dict(s["ev"][-1]["calls"][0], op="call"))
    return s


def corrupt(s, r):
    cs = [e for e in s["ev"] if e["op"] == "call" and e["r"]["k"] == "ok"]
    if not cs:
        return False
    e = r.choice(cs)
    f = r.choice(["got", "marks", "keys", "ctx", "pure", "asked"])
    if f in ("ctx", "pure"):
        e[f] = False
    elif f == "keys":
        e["keys"] = e["keys"] + [dict(n="!", id=9)]
    elif f == "asked":
        e["asked"] = e["asked"] + ["Rz"]
    else:
        e[f] = e[f] + [dict(s=9, e=9, n="", val=[], t=[], priv=False, mark=False, raw=[], par=[], kids=[])]
    return True
