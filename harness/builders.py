"""Driver for declarations: modules Builder / BuilderTrace."""
import itertools

import patterns as pt
from chains import breaker
from common import NONE, R, guarded
from engines import duplicate, view
from patterns import dec, encval, engine, occurrences, substituted, word

# ------------------------------------------------------------------ the real code

FLAGS = ("private", "marker", "children", "every", "private_parent", "private_children", "format_all", "validate_all",
         "ignore_case", "disabled")


class Wrap:
    """Value types of keys: the type itself converts."""
    made = {}

    @classmethod
    def of(cls, letter):
        if letter not in cls.made:
            def new(c, raw=""):
                return str.__new__(c, dec([letter]) + raw)
            cls.made[letter] = type("T" + letter, (str,), {"__new__": new})
        return cls.made[letter]


def make_key(k):
    from rebulk.key import Key
    if k["typed"] and len(k["v"]) == 1:
        return Key(k["n"], Wrap.of(k["v"][0]))
    return Key(k["n"], str, formatter=pt.formatter_of(k["v"]))


def real(o):
    """The object a caller writes for an option."""
    k, f, x = o["k"], o["f"], o["x"]
    if f == "none":
        return None
    make = {"formatter": pt.formatter_of, "value": dec, "validator": pt.validator_of,
            "pre_match_processor": lambda x: pt.processor_of(x[0]), "post_match_processor": lambda x: pt.processor_of(x[0]),
            "post_processor": lambda x: pt.post_of(x[0]), "chain_breaker": lambda x: breaker(dict(k=x[0], a=x[1:]))}.get(k)
    if f == "map":
        return {(None if e["k"] == "*" else e["k"]): make(e["v"]) for e in x}
    if f == "one":
        if make:
            return make(x)
        if k == "flags":
            mod, _ = engine()
            return mod.IGNORECASE if x == ["1"] else 0
        return x == ["1"] if k in FLAGS else x[0]
    if k == "abbreviations":
        x = [(dec(a["k"]), dec(a["v"])) for a in x]
    return tuple(x) if f == "tup" else list(x)


class Session:
    def __init__(self, s):
        from rebulk import Rebulk
        self.s = s
        self.text = dec(s["X"])

        class Plain(Rebulk):
            """Without rules, reset or not."""

            def __init__(self):
                super().__init__(default_rules=False)
        self.rbs = [Plain() for _ in range(s["n"])]
        self.builders = list(self.rbs)
        self.objs = [real(o) for o in s["objs"]]
        self.kobjs = [make_key(k) for k in s["keys"]]
        self.klists = {}
        self.given = [(o, duplicate(o)) for o in self.objs]
        self.exprs = {}
        self.parts = {}                         # builder: the parts of its chain

    def index(self, o):
        return next((i for i, b in enumerate(self.builders, 1) if b is o), 0)

    def options(self, ids):
        return {self.s["objs"][i]["k"]: self.objs[i] for i in ids}

    def key(self, e):
        ks = [self.kobjs[i] for i in e["key"]["ids"]]
        if e["key"]["form"] == "none":
            return {}
        if e["key"]["form"] == "one":
            return {"key": ks[0]}
        q = self.klists.setdefault(tuple(e["key"]["ids"]), list(ks))       # the same list each time
        self.given.append((q, list(q)))
        return {"key": q}

    def do(self, e):
        """Declare; the builder the caller is left on."""
        b = self.builders[e["b"] - 1]
        if e.get("on"):                         # go on from the part declared last
            b = ([p for p in self.parts.get(e["b"], []) if p] or [b])[-1]
        if e["op"] == "close":
            return self.index(b.close())
        if e["op"] == "defaults":
            kw = self.options(e["own"])
            if e["clear"] is not None:
                kw["clear"] = e["clear"]
            return self.index({"all": b.defaults, "string": b.string_defaults, "re": b.regex_defaults, "func": b.functional_defaults,
                               "chain": b.chain_defaults}[e["kind"]](**kw))
        if e["op"] == "reset":
            b.reset()                           # says nothing
            return e["b"]
        if e["op"] == "keys":
            return self.index(b.declare_keys(*[self.kobjs[i] for i in e["key"]["ids"]]))
        if e["kind"] == "chain":
            kw = self.options(e["own"])
            if e["over"]:
                kw["overrides"] = e["over"]
            made = (self.builders[e["b"] - 1] if kw else b).chain(**kw)
            self.builders.append(made)
            self.parts.setdefault(e["b"], []).append(None)
            return self.index(made)
        if e["op"] in ("repeat", "hide"):       # a part stands for the builder of its chain
            p = self.parts[e["b"]][e["part"] - 1]
            q = p.repeater(e["rep"]) if e["op"] == "repeat" else p.hidden(e["hid"]) if not e["hid"] or e["said"] else p.hidden()
            return e["b"] if q is p else 0
        kw = dict(self.options(e["own"]), **self.key(e))
        if e["over"]:
            kw["overrides"] = list(e["over"])
        args = self.arguments(e)
        if e.get("apart"):                      # built first, added afterwards
            made = {"string": b.build_string, "re": b.build_re, "func": b.build_functional}[e["kind"]](*args, **kw)
            return self.index(b.pattern(made))
        made = {"string": b.string, "re": b.regex, "func": b.functional}[e["kind"]](*args, **kw)
        if e["b"] <= self.s["n"]:
            return self.index(made)
        if e["rep"] != "":
            made = made.repeater(e["rep"])
        if e["hid"]:
            made = made.hidden()
        self.parts.setdefault(e["b"], []).append(made)
        return e["b"]

    def arguments(self, e):
        if e["kind"] == "func":
            def fn(text, context=None, **kw):
                return [(i, i + 1) for i, c in enumerate(text) if c == e["letter"]]
            return [fn]
        if e["kind"] == "re" and e["asdict"]:
            out = []
            for x in e["srcs"]:
                d = self.exprs.setdefault(dec(x), {"pattern": dec(x)})
                if not any(d is o for o, _ in self.given):
                    self.given.append((d, dict(d)))
                out.append(d)
            return out
        return [dec(x) for x in e["srcs"]]

    def found(self, e):
        names = [k["n"] for k in self.s["keys"]]

        def run():
            got = self.rbs[e["b"] - 1].matches(self.text)
            reads = []
            for n, k in zip(names, self.kobjs):
                one = got[k]
                reads.append(dict(n=n, one=[] if one is None else [encval(one)], all=[encval(v) for v in got.all(k)]))
            return view(got), view(got.markers), reads
        k, v = guarded(run)
        if k == "err" and self.s.get("debug"):
            raise v
        got, marks, reads = v if k == "ok" else ([], [], [])
        return dict(op="found", b=e["b"], r=R(k), got=got, marks=marks, reads=reads, pure=all(a == b for a, b in self.given))


def environment(e, pool, text):
    """What the regex engine reports for every expression e may stand for."""
    mod, rep = engine()
    out = []
    seen = set()
    for n in range(5):
        for q in itertools.product(pool, repeat=n):
            for x in e["srcs"]:
                s = substituted(dec(x), q)
                if s in seen:
                    continue
                seen.add(s)
                for i in (False, True):
                    if e["asdict"] and i:       # the default flags are for strings
                        out.append(dict(out[-1], i=True))
                        continue
                    c = mod.compile(s, mod.IGNORECASE if i else 0)
                    names = {v: k for k, v in c.groupindex.items()}
                    out.append(dict(src=list(s), i=i, occ=[occurrences(c, text[o:], rep) for o in range(len(text) + 1)],
                                    gn=[names.get(j, "") for j in range(1, c.groups + 1)]))
    return out


def drive(script):
    s = Session(script)
    evs = []
    pool = [(dec(a["k"]), dec(a["v"])) for a in script["abbr"]]

    def inline(ids):
        return [dict(k=script["objs"][i]["k"], v=dict(f=script["objs"][i]["f"], x=script["objs"][i]["x"])) for i in ids]

    def key(k):
        return dict(form=k["form"], ks=[dict(n=script["keys"][i]["n"], v=script["keys"][i]["v"]) for i in k["ids"]])
    for e in script["ev"]:
        if e["b"] > len(s.builders):
            continue                            # its chain was never made
        if e["op"] in ("repeat", "hide") and not (s.parts.get(e["b"], []) + [None] * e["part"])[e["part"] - 1]:
            continue                            # nor was the part
        if e["op"] == "found":
            evs.append(s.found(e))
            continue
        k, v = guarded(lambda: s.do(e))
        if k == "err" and script.get("debug"):
            raise v
        out = dict(op=e["op"], b=e["b"], kind=e["kind"], own=inline(e["own"]), key=key(e["key"]), r=R(k),
                   to=v if k == "ok" else 0)
        if e["op"] == "defaults":
            out["clear"] = bool(e["clear"])
        if e["op"] in ("repeat", "hide"):
            out.update(part=e["part"], lo=e["lo"], hi=e["hi"], hid=e["hid"])
        if e["op"] == "build":
            text = s.text
            out.update(over=e["over"], srcs=e["srcs"], lo=e["lo"], hi=e["hi"], hid=e["hid"], env=[], rets=[])
            if e["kind"] == "re":
                out["env"] = environment(e, pool, text)
            if e["kind"] == "func":
                out["rets"] = [[[dict(s=i, e=i + 1, o=[]) for i, c in enumerate(text[o:]) if c == e["letter"]]]
                               for o in range(len(text) + 1)]
        evs.append(out)
    return {"id": script["id"], "X": script["X"], "n": script["n"], "ev": evs}


# ------------------------------------------------------------------ scripts

NAMES = ["xy", "x", "y"]
EXPRS = ["a", "(?P<x>a)(?P<y>b)?", "(?P<x>[ab])", "_", "(?P<y>b)-?", "(a)_", "A|b", "(?P<x>a)-", "-(?P<x>_)", "(?P<x>.)(?P<y>.)"]
STRS = ["a", "b", "ab", "-", "A", "ba"]
ABBR = [dict(k=["_"], v=list("[ab]")), dict(k=["-"], v=["_"])]
CHAIN_OK = [("", 1, 1), ("+", 1, NONE), ("?", 0, 1), ("*", 0, NONE), (1, 1, 1), (2, 2, 2), ("{1,2}", 1, 2)]


def an_option(r, focus=None):
    k = r.choice(focus or ["name", "tags", "tags", "formatter", "formatter", "formatter", "value", "validator", "private", "marker",
                           "children", "children", "every", "private_parent", "private_children", "private_names", "ignore_names",
                           "format_all", "validate_all", "ignore_case", "flags", "abbreviations", "abbreviations", "disabled",
                           "pre_match_processor", "post_match_processor", "post_processor", "chain_breaker"])
    f, x = "one", []
    if k in FLAGS or k == "flags":
        if k in ("disabled", "marker", "private"):
            x = [r.choice("0001")]
        else:
            x = [r.choice("011")]
    elif k in ("pre_match_processor", "post_match_processor"):
        x = [r.choice(["keep", "drop", "edit", "edit", "same"])]
    elif k == "post_processor":
        x = [r.choice(["rev", "tail", "none", "same"])]
    elif k == "chain_breaker":
        x = r.choice([["name", "x"], ["name", "xy"], ["many", "."], ["wide", ".", "."], ["wide", "."]])
    elif k == "name":
        x = [r.choice(NAMES)]
    elif k in ("tags", "private_names", "ignore_names"):
        f = r.choice(["list", "list", "list", "list", "tup"] + (["one"] if k == "tags" else []))
        x = r.sample(["t", "u", "tu"] if k == "tags" else ["x", "y", "xy"], 1 if f == "one" or k != "tags" else r.randint(0, 2))
    elif k == "abbreviations":
        f = r.choice(["list", "list", "tup"])
        x = r.choice([[], ABBR[:1], ABBR[1:], ABBR[:1], ABBR[::-1]])
    else:
        value = {"formatter": lambda: word(r, ["F", "G", "H"], 1, 1), "value": lambda: word(r, ["V", "W"], 1, 1),
                 "validator": lambda: [dict(k=r.choice(["yes", "rawno", "short", "long"]), a=word(r, ["a", "b"], 1, 1))]}[k]
        f = r.choice(["one", "map", "map", "map"])
        if f == "one":
            x = value()
        else:
            x = [dict(k=n, v=value()) for n in r.sample(pt.KEYS, r.randint(0, 3))]
    if r.random() < 0.04 and k != "flags":
        f, x = "none", []
    return dict(k=k, f=f, x=x)


def some(r, objs, most, avoid=()):
    """Objects for different options."""
    out, used = [], set(avoid)
    for i in r.sample(range(len(objs)), min(len(objs), r.randint(0, most))):
        if objs[i]["k"] not in used:
            used.add(objs[i]["k"])
            out.append(i)
    return out


def script(sid, r, nobj=None, keyed=0.3, nest=0.25, focus=None, found=0.3, defaults=0.45, levels=None,
           told=0.1):
    X = word(r, ["a", "b", "a", "b", "-", "A"], 1, 6)
    n = r.choice([1, 1, 2])
    objs = [an_option(r, focus) for _ in range(nobj or r.randint(2, 9))]
    keys = [dict(n=r.choice(NAMES), v=word(r, ["K", "L", "M"], 1, 1), typed=r.random() < 0.5) for _ in range(r.randint(1, 4))]
    ev = []
    builders = list(range(1, n + 1))
    chains = {}                                 # builder: number of parts so far
    nested = set()                              # parts that are chains
    nokey = dict(form="none", ids=[])
    for _ in range(r.randint(3, 9)):
        b = r.choice(builders)
        c = r.random()
        if c < defaults:
            if r.random() < keyed * 0.7:
                ev.append(dict(op="keys", b=b, kind="all", own=[],
                               key=dict(form="many", ids=r.sample(range(len(keys)), r.randint(1, len(keys))))))
            else:
                ev.append(dict(op="defaults", b=b, kind=r.choice(levels or ["all", "all", "string", "re", "re", "func", "chain"]),
                               own=some(r, objs, 3), key=nokey, clear=r.choice([None] * 6 + [False, True])))
        else:
            kind = r.choice([k for k in levels or [] if k in ("string", "re", "func")] or ["string", "re", "re", "func"])
            if r.random() < (0.7 if levels == ["chain"] else nest) and len(builders) < n + 3:
                kind = "chain"
            own = some(r, objs, 3)
            key = nokey
            if kind != "chain" and r.random() < keyed:
                form = r.choice(["one", "many"])
                key = dict(form=form, ids=r.sample(range(len(keys)), 1 if form == "one" else r.randint(0, len(keys))))
            over = [objs[i]["k"] for i in own if r.random() < 0.2] if r.random() < 0.4 else []
            e = dict(op="build", b=b, kind=kind, own=own, key=key, over=over, srcs=[], letter="", rep="", lo=1, hi=1, hid=False,
                     asdict=False, on=r.random() < 0.5, apart=b <= n and key["form"] == "none" and r.random() < 0.2)
            if kind == "string":
                e["srcs"] = [list(r.choice(STRS)) for _ in range(1 if b > n else r.choice([1, 1, 2]))]
            elif kind == "re":
                e["srcs"] = [list(r.choice(EXPRS)) for _ in range(1 if b > n else r.choice([1, 1, 2]))]
                e["asdict"] = r.random() < 0.25
            elif kind == "func":
                e["letter"] = r.choice("ab")
            if b > n and kind != "chain":
                e["rep"], e["lo"], e["hi"] = r.choice(CHAIN_OK[:2] * 2 + CHAIN_OK[4:] if not chains[b] else CHAIN_OK)
                e["hid"] = r.random() < 0.08
            if kind == "chain":
                if b > n and not chains[b]:
                    continue                    # a chain does not begin with a chain here
                builders.append(len(builders) + 1)
                chains[len(builders)] = 0
            if b > n:
                chains[b] += 1
                if kind == "chain":
                    nested.add((b, chains[b]))
            ev.append(e)
            if kind == "chain":                 # at least one part at once
                ev.append(dict(op="build", b=len(builders), kind="re", own=some(r, objs, 2), key=nokey, over=[],
                               srcs=[list(r.choice(EXPRS))], letter="", rep="", lo=1, hi=1, hid=False, asdict=False))
                chains[len(builders)] = 1
        at = [(b, i) for b in builders[n:] for i in range(1, chains[b] + 1) if (b, i) not in nested]
        if at and r.random() < told:
            b, i = r.choice(at)
            rep, lo, hi = r.choice(CHAIN_OK[1:] if i > 1 else CHAIN_OK[1:2])
            ev.append(dict(op=r.choice(["repeat", "repeat", "hide"]), b=b, part=i, rep=rep, lo=lo, hi=hi, hid=r.random() < 0.5,
                           said=r.random() < 0.5, kind="all", own=[], key=nokey))
        if len(builders) > n and r.random() < 0.1:
            ev.append(dict(op="close", b=r.choice(builders[n:]), kind="all", own=[], key=nokey, on=r.random() < 0.7))
        if r.random() < 0.04:
            ev.append(dict(op="reset", b=r.randint(1, n), kind="all", own=[], key=nokey))
        if r.random() < found:
            ev.append(dict(op="found", b=r.randint(1, n)))
    for b in range(1, n + 1):
        ev.append(dict(op="found", b=b))
    return dict(id=sid, X=X, n=n, objs=objs, keys=keys, abbr=ABBR, ev=ev)


def merge_script(sid, r):
    return script(sid, r, keyed=0.1)


def restate_script(sid, r):
    """The same few options declared and given again and again, at every level."""
    focus = r.sample(["name", "tags", "formatter", "value", "validator", "children", "every", "private", "private_names", "ignore_names",
                      "ignore_case", "abbreviations", "private_parent", "disabled", "pre_match_processor", "post_match_processor",
                      "post_processor", "chain_breaker"], r.choice([1, 1, 2]))
    return script(sid, r, nobj=r.randint(3, 6), keyed=0.1, nest=0.2, found=0.1, defaults=0.65, focus=focus,
                  levels=r.choice([["all"], ["all", "re"], ["all", "string", "re", "func", "chain"], ["re"], ["string"], ["func"], ["chain"]]))


def share_script(sid, r):
    """Few objects passed again and again, read back often."""
    return script(sid, r, nobj=r.randint(2, 4), keyed=0.3, found=0.5,
                  focus=["formatter", "formatter", "value", "validator", "tags", "tags", "abbreviations", "private_names",
                         "ignore_names", "children", "every"])


def told_script(sid, r):
    """Chains and chains in them, assembled from whatever the declaration before returned."""
    return script(sid, r, nobj=r.randint(1, 3), keyed=0.05, nest=0.5, found=0.3, defaults=0.15, told=0.5,
                  focus=["children", "every", "tags", "name", "private_parent", "formatter"])


def key_script(sid, r):
    return script(sid, r, nobj=r.randint(2, 5), keyed=0.7, focus=["formatter", "formatter", "children", "every", "name", "format_all",
                                                                 "value", "validator", "private", "flags"], defaults=0.35)


def corrupt(s, r):
    fs = [e for e in s["ev"] if e["op"] == "found" and e["r"]["k"] == "ok"]
    e = r.choice(fs) if fs else None
    if not e:
        return False
    f = r.choice(["got", "marks", "pure", "reads", "to"])
    if f == "to":
        e = r.choice([e for e in s["ev"] if e["op"] != "found" and e["r"]["k"] == "ok"] or [{}])
        e["to"] = e.get("to", 0) + 1
        return len(e) > 1
    if f == "pure":
        e["pure"] = False
    elif f == "reads":
        e["reads"][0]["all"] = e["reads"][0]["all"] + [["!"]]
    else:
        e[f] = e[f] + [dict(s=9, e=9, n="", val=[], t=[], priv=False, mark=False, raw=[], par=[], kids=[])]
    return True
