"""Driver for plain readings of a collection: modules Project / ProjectTrace."""
import copy
import dataclasses
import typing
from datetime import date, datetime

from common import NONE, guarded, rng  # noqa: F401

# ------------------------------------------------------------------ values


class Base:
    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, other):
        return isinstance(other, Base) and self.tag == other.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.tag)


class Derived(Base):
    pass


TYPES = {"int": int, "bool": bool, "float": float, "str": str, "date": date, "datetime": datetime, "Base": Base, "Derived": Derived,
         "object": object}
SCALARS = [0, 1, 2, True, False, 1.0, 2.5, "", "a", "1", "b", None, date(2020, 1, 1), datetime(2020, 1, 1), Base("p"), Derived("p"),
           Derived("q")]
LISTS = [[], ["a"], ["a", "b"], [1], [True, 2], [1, "a"]]
POOL = SCALARS + LISTS              # scripts name values by their place here


def encode(v):
    t = type(v).__name__
    if isinstance(v, list):
        return dict(t="list", q="", items=[encode(x) for x in v])
    if isinstance(v, (bool, int, float)):
        q = "n" + repr(float(v))
    elif isinstance(v, Base):
        q = "B" + v.tag
    else:
        q = t + ":" + str(v)
    return dict(t=t, q=q, items=[])


# ------------------------------------------------------------------ models
def hint(h):
    k = h["k"]
    if k == "cls":
        return TYPES[h["c"]]
    if k == "any":
        return typing.Any
    if k == "union":
        return typing.Union[tuple(hint(x) for x in h["of"])]
    if k == "other":
        return {0: dict[str, int], 1: tuple[int, ...], 2: set[str], 3: dict}[h["form"]]
    x = hint(h["of"][0])
    if k == "list":
        return [list, typing.List][h["form"] % 2][x]
    if k == "opt":
        return typing.Optional[x] if h["form"] % 2 else x | None
    return typing.Annotated[x, "note"]


class Default:
    """What a field is left to."""


def build_model(m):
    if m["k"] == "list":
        inner = m["of"][0]
        if inner["k"] in ("dc", "td"):
            return list[build_model(inner)]
        return typing.List[hint(inner)] if m["form"] % 2 else list[hint(inner)]
    if m["k"] == "cls":
        return TYPES[m["c"]]
    if m["k"] == "not":
        return ["x", 3, typing.Optional[int], typing.Union[int, str], None, {"x": int}][m["form"]]
    if m["k"] == "td":
        fs = {f["n"]: (typing.NotRequired[hint(f["h"])] if f["form"] % 3 == 1 else typing.Required[hint(f["h"])] if f["form"] % 3 == 2
                       else hint(f["h"])) for f in m["fields"]}
        return typing.TypedDict("Model", fs, total=m["form"] % 2 == 0)

    def field(f):
        kw = dict(init=False) if not f["init"] else {}
        if not f["req"]:
            kw.update([dict(default=Default), dict(default_factory=lambda: Default)][f["form"] % 2])
        return (f["n"], hint(f["h"]), dataclasses.field(**kw))
    options = [dict(), dict(frozen=True), dict(slots=True), dict(kw_only=True)][m["form"] % 4]
    fs = [field(f) for f in m["fields"]]
    if m["inherit"] and len(fs) > 1:
        base = dataclasses.make_dataclass("Parent", fs[:1], **options)
        return dataclasses.make_dataclass("Model", fs[1:], bases=(base,), **options)
    return dataclasses.make_dataclass("Model", fs, **options)


def read_model(x, m):
    none = dict(x=[], fs=[])
    if m["k"] == "list":
        return dict(r="list" if type(x) is list else "?", x=[encode(v) for v in x], fs=[])
    if m["k"] == "cls":
        return dict(r="one", x=[encode(x)], fs=[])
    if m["k"] == "not":
        return dict(none, r="?")
    fs = []
    for f in m["fields"]:
        if m["k"] == "td":
            if f["n"] not in x:
                continue
            v = x[f["n"]]
        else:
            v = getattr(x, f["n"], Default)
        listed = f["bare"] == "list"
        if v is Default:
            fs.append(dict(n=f["n"], k="", x=[]))
        elif listed:
            fs.append(dict(n=f["n"], k="list" if type(v) is list else "?", x=[encode(i) for i in v] if type(v) is list else []))
        else:
            fs.append(dict(n=f["n"], k="one", x=[encode(v)]))
    extra = sorted(set(x) - {f["n"] for f in m["fields"]}) if m["k"] == "td" else []
    return dict(r=m["k"], x=[], fs=fs + [dict(n=n, k="extra", x=[]) for n in extra])


# ------------------------------------------------------------------ the real code
def make(o, text, values, mark):
    from rebulk.match import Match
    v = values[o["val"]]
    kw = dict(name=o["n"] or None, marker=mark, private=o["priv"], tags=["tag"], input_string=text)
    if o["how"] == "lit":
        return Match(o["s"], o["e"], value=v, **kw)
    return Match(o["s"], o["e"], formatter=lambda s: v, **kw)


def outcome(k, v):
    return "ok" if k == "ok" else type(v).__name__ if k == "err" and type(v) in (TypeError, LookupError) else "other"


def drive(script):
    from rebulk.key import Key
    from rebulk.match import Matches, Markers
    text = "abcdefgh"[:script["size"]]
    values = copy.deepcopy([POOL[i] for i in script["values"]])
    saved = copy.deepcopy(values)
    objs = [make(o, text, values, script["cls"] == "Markers") for o in script["O"]]
    for m, o in zip(objs, script["O"]):
        m.parent = objs[o["par"] - 1] if o["par"] else None
    ids = {id(m): i + 1 for i, m in enumerate(objs)}
    ms = {"Matches": Matches, "Markers": Markers}[script["cls"]]([objs[i - 1] for i in script["C"]], input_string=text)
    evs = []

    def num(m):
        return ids.get(id(m), 0)

    def name(n):
        return n or ""

    def pure(order):
        return [encode(v) for v in values] == [encode(v) for v in saved] and [num(m) for m in ms] == order
    for e in script["ev"]:
        op = e["op"]
        order = [num(m) for m in ms]
        if op == "put":
            ms.insert(e["i"], objs[e["m"] - 1]) if e["i"] < len(ms) else ms.append(objs[e["m"] - 1])
            evs.append(dict(op=op, i=e["i"], m=e["m"]))
        elif op == "del":
            del ms[e["i"]]
            evs.append(dict(op=op, i=e["i"]))
        elif op == "set":
            ms[e["i"]] = objs[e["m"] - 1]
            evs.append(dict(op=op, i=e["i"], m=e["m"]))
        elif op == "keep":
            ms = ms[e["i"]:e["j"]]
            evs.append(dict(op=op, i=e["i"], j=e["j"]))
        elif op == "value":
            objs[e["m"] - 1].value = values[e["val"]]
            evs.append(dict(op=op, m=e["m"], v=encode(values[e["val"]])))
        elif op == "keys":
            ms.declared_keys = {k["n"]: Key(k["n"], TYPES[k["t"]]) for k in e["ks"]}
            evs.append(dict(op=op, ks=e["ks"]))
        elif op == "dict":
            how = dict(details=e["details"], first_value=e["first"], enforce_list=e["enforce"])
            if e.get("bare"):                 # nothing said is no
                how = {n: v for n, v in how.items() if v}
            k, d = guarded(lambda: ms.to_dict(**how))
            out = dict(op=op, details=e["details"], first=e["first"], enforce=e["enforce"], r=outcome(k, d), got=[], all=[], vals=[])
            if k == "ok":
                put = num if e["details"] else encode
                out["got"] = [dict(n=name(n), l=isinstance(v, list), x=[put(x) for x in (v if isinstance(v, list) else [v])])
                              for n, v in d.items()]
                out["all"] = [dict(n=name(n), x=[num(m) for m in v]) for n, v in d.matches.items()]
                if not e["details"]:
                    out["vals"] = [dict(n=name(n), x=[encode(x) for x in v]) for n, v in d.values_list.items()]
            out["pure"] = pure(order)
            if k == "ok":                     # the caller's to change
                for v in list(d.matches.values()) + list(d.values_list.values()):
                    v.append("junk")
                d.clear()
            evs.append(out)
        elif op == "key":
            key = Key(e["n"], TYPES[e["t"]])
            k, v = guarded(lambda: (ms[key], ms.all(key)))
            out = dict(op=op, n=e["n"], r=outcome(k, v), one=[], all=[])
            if k == "ok":
                out["all"] = [encode(x) for x in v[1]]
                out["one"] = [encode(v[0])] if v[0] is not None or (v[1] and v[1][0] is None) else []
                v[1].append("junk")
            evs.append(out)
        elif op == "to":
            model = build_model(e["model"])
            k, v = guarded(lambda: ms.to(model))
            got = read_model(v, e["model"]) if k == "ok" else dict(r=outcome(k, v), x=[], fs=[])
            evs.append(dict(op=op, model=bare(e["model"]), got=got, pure=pure(order)))
        elif op == "check":
            k, v = guarded(ms.check_declared_keys)
            evs.append(dict(op=op, r=outcome(k, v)))
        elif op == "run":
            evs.append(run(e))
    O = [dict(s=o["s"], e=o["e"], n=o["n"], v=encode(saved[o["val"]]), priv=o["priv"], lit=o["how"] == "lit")
         for o in script["O"]]
    return {"id": script["id"], "O": O, "C": script["C"], "ev": evs}


def bare(m):
    """The model as the specification sees it."""
    def h(x):
        return dict(k=x["k"], c=x["c"], of=[h(y) for y in x["of"]])
    if m["k"] in ("dc", "td"):
        return dict(k=m["k"], of=[], fields=[dict(n=f["n"], h=h(f["h"]), req=f["req"], init=f["init"]) for f in m["fields"]])
    return dict(k=m["k"], of=[h(x) if x["k"] not in ("dc", "td") else dict(k=x["k"]) for x in m["of"]], fields=[])


# ------------------------------------------------------------------ engines with declared keys
def run(e):
    from rebulk import Rebulk, debug
    from rebulk.key import Key
    from rebulk.rules import RemoveMatch, RenameMatch, Rule
    text = e["text"]
    values = [POOL[i] for i in e["values"]]

    def engine(checked):
        rb = Rebulk(default_rules=False)
        for k in e["ks"]:
            rb.declare_keys(Key(k["n"], TYPES[k["t"]], formatter=lambda s, v=values[k["val"]]: v))
        for p in e["ps"]:
            kw = dict(private=p["priv"])
            if p["how"] == "lit":
                kw["value"] = values[p["val"]]
            elif p["how"] == "fmt":
                kw["formatter"] = lambda s, v=values[p["val"]]: v
            elif p["how"] == "raw":
                kw["formatter"] = str
            elif p["how"] in ("map", "mixed"):
                if p["how"] == "mixed":       # the whole has a literal value, the part has not
                    kw["value"] = {"__parent__": "whole"} if p["kind"] == "group" else {"other": "x"}
                kw["formatter"] = {p["n"]: lambda s, v=values[p["val"]]: v}
            if p["kind"] == "string":
                rb.string(p["src"], name=p["n"], **kw)
            elif p["kind"] == "re":
                rb.regex(p["src"], name=p["n"], **kw)
            elif p["kind"] == "group":
                rb.regex("(?P<%s>%s)" % (p["n"], p["src"]), children=True, **kw)
            else:
                rb.functional(lambda t, c=p["src"]: [(i, i + 1) for i, x in enumerate(t) if x == c], name=p["n"], **kw)
        if e["rule"] == "remove":
            class Drop(Rule):
                consequence = RemoveMatch

                def when(self, matches, context):
                    return list(matches)
            rb.rules(Drop)
        elif e["rule"] == "rename":
            class Name(Rule):
                consequence = RenameMatch("x")

                def when(self, matches, context):
                    return list(matches)
            rb.rules(Name)
        elif e["rule"] == "move":
            class Move(Rule):
                def when(self, matches, context):
                    return list(matches)

                def then(self, matches, when_response, context):
                    for m in when_response:
                        m.start += 1
            rb.rules(Move)
        return rb

    def seen(ms):
        return [dict(s=m.start, e=m.end, n=m.name or "", v=encode(m.value), priv=bool(m.private), lit=bool(m.has_literal_value))
                for m in ms]
    old = debug.CHECK_DECLARED_KEYS
    try:
        debug.CHECK_DECLARED_KEYS = False
        plain = seen(engine(False).matches(text))
        rule, e["rule"] = e["rule"], ""
        before = seen(engine(False).matches(text))
        e["rule"] = rule
        debug.CHECK_DECLARED_KEYS = True
        k, v = guarded(lambda: engine(True).matches(text))
    finally:
        debug.CHECK_DECLARED_KEYS = old
    return dict(op="run", ks=[dict(n=x["n"], t=x["t"]) for x in e["ks"]], m=before, r=outcome(k, v), same=k != "ok" or seen(v) == plain)


# ------------------------------------------------------------------ scripts

NAMES = ["x", "y", "xy"]


def a_hint(r, depth=0):
    k = r.choice(["cls"] * 6 + ["list"] * (4 if depth == 0 else 1) + ["opt", "opt", "ann", "any", "union", "other"])
    form = r.randint(0, 3)
    if k in ("cls",):
        return dict(k=k, c=r.choice(list(TYPES)), of=[], form=form)
    if k in ("any", "other"):
        return dict(k=k, c="", of=[], form=form)
    if k == "union":
        a, b = r.sample(["int", "str", "float", "date", "Base"], 2)
        return dict(k=k, c="", of=[dict(k="cls", c=c, of=[], form=0) for c in (a, b)], form=form)
    if k == "ann" and depth > 0:
        k = "opt"
    inner = a_hint(r, depth + 1)
    if k == "opt" and inner["k"] in ("list", "any", "opt", "union", "other"):
        inner = dict(k="cls", c=r.choice(list(TYPES)), of=[], form=form)
    return dict(k=k, c="", of=[inner], form=form)


def a_model(r, scalar=0.25):
    c = r.random()
    form = r.randint(0, 5)
    if c < scalar:
        k = r.choice(["cls", "cls", "list", "list", "not"])
        if k == "cls":
            return dict(k=k, c=r.choice(list(TYPES)), of=[], fields=[], form=form)
        if k == "not":
            return dict(k=k, c="", of=[], fields=[], form=form)
        of = a_model(r, 0) if r.random() < 0.25 else a_hint(r, 1)
        if of["k"] == "ann":
            of = of["of"][0]
        return dict(k="list", c="", of=[of], fields=[], form=form)
    k = r.choice(["dc", "dc", "td"])
    names = r.sample(NAMES + ["w"], r.randint(0 if r.random() < 0.1 else 1, 4))
    fields = []
    for n in names:
        h = a_hint(r)
        core = h
        while core["k"] == "ann":
            core = core["of"][0]
        fields.append(dict(n=n, h=h, req=r.random() < 0.3, init=True, form=r.randint(0, 5), bare=core["k"]))
        if k == "dc" and r.random() < 0.1:
            fields[-1].update(init=False, req=False)
    # a field without default comes first
    fields.sort(key=lambda f: (not f["req"]))
    return dict(k=k, c="", of=[], fields=fields, form=form, inherit=r.random() < 0.3)


def a_match(r, size, nv, names):
    s = r.randint(0, size - 1)
    return dict(s=s, e=r.randint(s + 1, min(size, s + 3)), n=r.choice(names), val=r.randrange(nv), priv=r.random() < 0.15, how="fmt", par=0)


def some_keys(r):
    return [dict(n=n, t=r.choice(list(TYPES))) for n in r.sample(NAMES, r.randint(0, 3))]


def script(sid, r, reads, lists=0.3):
    size = r.choice([2, 3, 4, 8])
    pool = list(range(len(SCALARS))) + (list(range(len(SCALARS), len(POOL))) * 2 if r.random() < lists else [])
    values = [r.choice(pool) for _ in range(r.choice([2, 3, 3, 5]))]
    names = NAMES[:r.choice([1, 2, 3])] + [""] * (r.random() < 0.5)
    O = [a_match(r, size, len(values), names) for _ in range(r.randint(1, 7))]
    for o in O:
        if POOL[values[o["val"]]] and r.random() < 0.3:
            o["how"] = "lit"
    C = r.sample(range(1, len(O) + 1), r.randint(0, len(O)))
    n = len(C)
    ev = []
    inside = set(C)
    cur = list(C)
    for _ in range(r.randint(3, 10)):
        c = r.random()
        free = [i for i in range(1, len(O) + 1) if i not in inside]
        if c < 0.12 and free:
            m = r.choice(free)
            i = r.randint(0, len(cur))
            ev.append(dict(op="put", i=i, m=m))
            cur.insert(i, m)
        elif c < 0.2 and cur:
            i = r.randrange(len(cur))
            del cur[i]
            ev.append(dict(op="del", i=i))
        elif c < 0.25 and cur and free:
            i, m = r.randrange(len(cur)), r.choice(free)
            cur[i] = m
            ev.append(dict(op="set", i=i, m=m))
        elif c < 0.28 and len(cur) > 1:
            i = r.randint(0, 1)
            j = r.randint(max(i, len(cur) - 1), len(cur))
            cur = cur[i:j]
            ev.append(dict(op="keep", i=i, j=j))
        elif c < 0.32:
            m = r.randint(1, len(O))
            good = [i for i, v in enumerate(values) if POOL[v]]
            if good:
                ev.append(dict(op="value", m=m, val=r.choice(good)))
        elif c < 0.4:
            ev.append(dict(op="keys", ks=some_keys(r)))
        else:
            ev.append(reads(r))
        inside = set(cur)
    ev.append(reads(r))
    return dict(id=sid, size=size, values=values, O=O, C=C, cls=r.choice(["Matches", "Matches", "Markers"]), ev=ev)


def a_dict(r):
    return dict(op="dict", details=r.random() < 0.25, first=r.random() < 0.3, enforce=r.random() < 0.4, bare=r.random() < 0.5)


def a_to(r):
    c = r.random()
    if c < 0.12:
        return dict(op="check")
    if c < 0.3:
        return a_key(r)
    return dict(op="to", model=a_model(r))


def dict_script(sid, r):
    return script(sid, r, a_dict, lists=0.5)


def to_script(sid, r):
    s = script(sid, r, a_to, lists=0.1)
    s["ev"].insert(0, dict(op="keys", ks=some_keys(r)))
    for i, o in enumerate(s["O"]):
        if i and r.random() < 0.2:
            o["par"] = r.randint(1, i)
    return s


def a_key(r):
    return dict(op="key", n=r.choice(NAMES + ["absent"]), t=r.choice(list(TYPES)))


def read_script(sid, r):
    return script(sid, r, a_key, lists=0.3)


def engine_script(sid, r):
    text = "".join(r.choice("ab") for _ in range(r.randint(1, 4)))
    values = [r.randrange(len(SCALARS)) for _ in range(4)]
    ks = [dict(n=n, t=r.choice(list(TYPES)), val=r.randrange(4)) for n in r.sample(NAMES, r.randint(0, 3))]
    ps = []
    for _ in range(r.randint(1, 4)):
        v = r.randrange(4)
        ps.append(dict(kind=r.choice(["string", "re", "group", "func"]), src=r.choice("ab"), n=r.choice(NAMES), val=v,
                       how=r.choice(["key", "key", "fmt", "map", "mixed", "raw"] + (["lit"] if POOL[values[v]] else [])), priv=r.random() < 0.2))
    ev = [dict(op="run", text=text, values=values, ks=ks, ps=ps, rule=r.choice(["", "", "remove", "rename", "move"]))]
    return dict(id=sid, size=1, values=[], O=[], C=[], cls="Matches", ev=ev)


def corrupt(s, r):
    es = [e for e in s["ev"] if e["op"] in ("dict", "to", "key", "check", "run")]
    if not es:
        return False
    e = r.choice(es)
    if e["op"] == "dict":
        f = r.choice(["got", "all", "pure"])
        if f == "pure":
            e["pure"] = False
        else:
            e[f] = e[f] + [dict(n="!", l=True, x=[])] if f == "got" else e[f] + [dict(n="!", x=[])]
    elif e["op"] == "key":
        e["all"] = e["all"] + [encode("!")]
    elif e["op"] == "to":
        e["got"] = dict(e["got"], r="?")
    else:
        e["r"] = "TypeError" if e["r"] == "ok" else "ok"
    return True
