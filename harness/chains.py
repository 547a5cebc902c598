"""Driver for chains: modules Chain / ChainTrace."""
from common import NONE, R, guarded
from patterns import (KEYS, arguments, blank, checks, dec, dress, encval, func, mapping, options, re_exprs, spec_pattern, word)

# ------------------------------------------------------------------ the real code


def breaker(brk):
    if not brk["k"]:
        return None

    def refuses(ms):
        if not ms:
            return False
        if brk["k"] == "many":
            return len(ms) > len(brk["a"])
        if brk["k"] == "wide":
            return max(m.end for m in ms) - min(m.start for m in ms) > len(brk["a"])
        return (ms[-1].name or "") in brk["a"]
    return refuses


def chain_options(c, form):
    kw = options(c, form)
    b = breaker(c["brk"])
    if b:
        kw["chain_breaker"] = b
    return kw


def assemble(cb, c, text, form):
    for part in c["parts"]:
        p = part["p"]
        if p["kind"] == "chain":
            assemble(cb.chain(**chain_options(p, form)), p, text, form)
            continue
        args, extra, _ = arguments(p, text)
        made = {"string": cb.string, "re": cb.regex, "func": cb.functional}[p["kind"]](*args, **dict(options(p, form), **extra))
        if part["rep"] != "":
            made.repeater(part["rep"])
        if part["hid"]:
            made.hidden()


def observe(ms, text):
    def brief(m):
        return dict(s=m.start, e=m.end, n=m.name or "", val=encval(m.value))

    def up(m):
        return [brief(m.parent)] if m.parent is not None else []

    def kid(m):
        return dict(brief(m), t=list(m.tags), raw=encval(m.raw), par=up(m), kids=[brief(k) for k in m.children])

    return [dict(brief(m), t=list(m.tags), priv=bool(m.private), mark=bool(m.marker), raw=encval(m.raw), par=up(m),
                 kids=[kid(k) for k in m.children]) for m in ms]


def spec_chain(c, text, offsets, count):
    out = spec_pattern(c, text, offsets)
    count[0] += 1
    out["pid"] = count[0]
    if c["kind"] == "chain":
        out["brk"] = c["brk"]
        out["parts"] = [dict(p=spec_chain(x["p"], text, offsets, count), lo=x["lo"], hi=x["hi"], hid=x["hid"])
                        for x in c["parts"]]
    return out


def drive(script):
    from rebulk import Rebulk
    text, c = dec(script["X"]), script["c"]

    def run():
        rb = Rebulk(default_rules=False)
        assemble(rb.chain(**chain_options(c, script["form"])), c, text, script["form"])
        out = []
        for _ in range(2):
            if script["via"] == "direct":
                out.append((observe(rb.effective_patterns({})[0].matches(text), text), []))
            else:
                got = rb.matches(text)
                out.append((observe(got, text), observe(got.markers, text)))
        return out
    k, v = guarded(run)
    if k == "err" and script.get("debug"):
        raise v
    evs = [dict(op="found", r=R(k), got=a, marks=b) for a, b in (v if k == "ok" else [([], [])])]
    return {"id": script["id"], "X": script["X"], "p": spec_chain(c, text, range(len(text) + 1), [0]), "via": script["via"],
            "ev": evs}


# ------------------------------------------------------------------ scripts

STRINGS = ["a", "b", "ab", "-", "ba", "aa"]
PART_EXPRS = ["a", "[ab]", "(a)(b)?", "(?P<x>a)-?", "(?P<x>[ab])", "-(?P<y>[ab])", "a|b", "(?P<x>a)(?P<y>b)?", "b+", "(?<!a)b",
              r"\b[ab]", "(?P<x>a+)", "-?", "((?P<x>a)b)", "a(?=b)"]
EASY_EXPRS = ["[ab]", "(?P<x>[ab])", "(a)|b", ".", "(?P<y>.)", "(?P<x>a)(?P<y>b)?"]
SAMPLES = {"a": ["a"], "[ab]": ["a", "b"], "(a)(b)?": ["a", "ab"], "(?P<x>a)-?": ["a", "a-"], "(?P<x>[ab])": ["a", "b"],
           "-(?P<y>[ab])": ["-a", "-b"], "a|b": ["a", "b"], "(?P<x>a)(?P<y>b)?": ["a", "ab"], "b+": ["b", "bb"],
           "(?<!a)b": ["b"], r"\b[ab]": ["a", "b", "-a"], "(?P<x>a+)": ["a", "aa"], "-?": ["-", ""], "((?P<x>a)b)": ["ab"],
           "a(?=b)": ["a", "ab"], "(a)|b": ["a", "b"], ".": ["a", "b", "-"], "(?P<y>.)": ["a", "b", "-"]}
REPEATS = [("", 1, 1)] * 3 + [("+", 1, NONE), ("*", 0, NONE), ("?", 0, 1), (2, 2, 2), ("{1,2}", 1, 2), ("{2,}", 2, NONE),
                              ("{,2}", 0, 2), ("{2}", 2, 2), ("{ 1 , 3 }", 1, 3), (1, 1, 1), ("2", 2, 2), (0, 0, 0), ("{2,3}", 2, 3)]


def part_pattern(r, X, depth, vd, shape, easy=False):
    kind = r.choice(["string", "string", "re", "re", "re", "func"]) if not easy else r.choice(["string", "re", "re"])
    p = blank(kind)
    dress(p, r, emission=shape, fm=0.15, va=0.05, vd=vd, proc=0.15 if shape else 0, pp=0.07 if shape else 0)
    p["mark"] = False
    if kind == "string":
        p["ic"] = r.random() < 0.2
        p["srcs"] = [list(r.choice(STRINGS[:3] if easy else STRINGS))]
    elif kind == "re":
        p["exprs"] = [dict(form=r.choice(["str", "str", "compiled"]), x=r.choice(EASY_EXPRS if easy else PART_EXPRS), flags="")]
        p["rep"] = r.choice([None, False])
    else:
        p["_letter"] = r.choice("ab-") if r.random() < 0.7 else ""
    return p


def settle(c, r, X):
    """Functions are tables over the text left: made once the text is known."""
    for part in c["parts"]:
        p = part["p"]
        if p["kind"] == "chain":
            settle(p, r, X)
        elif p["kind"] == "func":
            f = func(r, X, range(len(X) + 1))
            y = p.pop("_letter")
            if y:                         # a function that looks for a letter
                f["rets"] = [[dict(s=i, e=i + 1, o=[], form="tuple", junk=False) for i, z in enumerate(X[o:]) if z == y]
                             for o in range(len(X) + 1)]
                f["shapes"] = ["list"] * (len(X) + 1)
            p["funcs"] = [f]


def sample(c, r):
    """A text the chain is likely to be found in."""
    out = []
    for part in c["parts"]:
        p = part["p"]
        hi = part["hi"] if part["hi"] != NONE else part["lo"] + 2
        for _ in range(r.randint(part["lo"], hi)):
            if p["kind"] == "chain":
                out += sample(p, r)
            elif p["kind"] == "string":
                out += p["srcs"][0]
            elif p["kind"] == "re":
                out += list(r.choice(SAMPLES[p["exprs"][0]["x"]]))
            else:
                out += [p["_letter"] or r.choice("ab")]
    return out


def make_chain(r, X, depth=0, vd=0.1, cvd=0.2, shape=0.4, cshape=0.4, brk=0.1, hid=0.1, zero_first=True, nest=0.12):
    c = blank("chain")
    dress(c, r, emission=cshape, fm=0.2, va=0.1, vd=cvd, proc=0.05, pp=0.03)
    for f in ("pre", "post"):
        if c[f] in ("trim", "less", "later"):
            c[f] = ""
    c["brk"] = dict(k="", a=[])
    if r.random() < brk:
        k = r.choice(["many", "wide", "name"])
        c["brk"] = dict(k=k, a=r.sample(["x", "y", "xy"], 1) if k == "name" else ["."] * r.randint(0, 4))
    c["parts"] = []
    n = r.choice([1, 2, 2, 3, 3, 4]) if depth == 0 else r.choice([1, 1, 2])
    for i in range(n):
        if depth < 2 and i > 0 and r.random() < nest:
            c["parts"].append(dict(p=make_chain(r, X, depth + 1, vd, cvd, shape, cshape, brk, hid, nest=nest), rep="", lo=1, hi=1, hid=False))
            continue
        rep, lo, hi = r.choice(REPEATS)
        if i == 0 and lo == 0 and not (zero_first and r.random() < 0.2):
            rep, lo, hi = "+", 1, NONE
        c["parts"].append(dict(p=part_pattern(r, X, depth, vd, shape, depth > 0 and i == 0), rep=rep, lo=lo, hi=hi, hid=r.random() < hid))
    return c


def nesting(c):
    """Levels of chains below this one."""
    return max([1 + nesting(x["p"]) for x in c["parts"] if x["p"]["kind"] == "chain"] + [0])


def script(sid, r, maxlen=None, **kw):
    maxlen = maxlen or r.choice([4, 6, 8, 10])
    letters = r.choice([["a", "b"], ["a", "a", "b", "-"], ["a", "b", "-"], ["a", "b", " "], ["a", "a", "b", " ", "\n"]])
    c = make_chain(r, [], **kw)
    if nesting(c) > 1:                    # TLC takes exponential time in the text with chains in chains in chains
        maxlen = min(maxlen, 6)
    X = []
    while len(X) < maxlen and r.random() < 0.85:
        X += word(r, letters, 0, 2) if r.random() < 0.4 else sample(c, r)
        if r.random() < 0.1:
            X.append(r.choice(letters))
    X = (X or word(r, letters, 1, maxlen))[:maxlen + 2]
    settle(c, r, X)
    c["mark"] = r.random() < 0.05
    return dict(id=sid, X=X, c=c, via=r.choice(["direct", "engine"]), form=r.choice(["one", "dict"]))


def run_script(sid, r):
    return script(sid, r, vd=0.05, cvd=0.05)


def scan_script(sid, r):
    return script(sid, r, vd=0, cvd=0, shape=0.15, cshape=0.15, brk=0, hid=0.15, maxlen=r.choice([6, 8, 10, 12]))


def fallback_script(sid, r):
    nest = r.choice([0.1, 0.1, 0.5])
    s = script(sid, r, vd=0.1 if nest < 0.3 else 0, cvd=0.95 if nest < 0.3 else 0.5, brk=0.35 if nest < 0.3 else 0, nest=nest)
    return s


def alternative_scripts(r, n):
    """A part given several expressions stands for any of them."""
    out = []
    for srcs, rep, lo, X in ((["a", "b"], "+", 1, "abab"), (["b", "a"], "", 1, "ab")):
        c = blank("chain")
        p = blank("string")
        p["srcs"] = [list(x) for x in srcs]
        c.update(name="n", brk=dict(k="", a=[]), parts=[dict(p=p, rep=rep, lo=lo, hi=NONE if rep else 1, hid=False)])
        out.append(dict(id=len(out), X=list(X), c=c, via="direct", form="one"))
    return out


def corrupt(s, r):
    fs = [e for e in s["ev"] if e["op"] == "found" and e["got"]]
    if not fs:
        return False
    m = r.choice(r.choice(fs)["got"])
    f = r.choice(["s", "n", "val", "kids"])
    m[f] = {"s": lambda: m["s"] + 1, "n": lambda: m["n"] + "!", "val": lambda: m["val"] + ["!"],
            "kids": lambda: m["kids"] + m["kids"][:1] if m["kids"] else [dict(s=0, e=0, n="", val=[])]}[f]()
    return True
