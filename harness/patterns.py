"""Driver for patterns: modules Patterns / PatternTrace."""
import copy
import functools
import os
import warnings
import re as stdre

from common import Own, R, guarded, own

warnings.simplefilter("ignore", FutureWarning)

FOREIGN = {"I.": "\u0130", "SIGMA": "\u03a3", "sigma": "\u03c3", "E'": "\u00c9", "e'": "\u00e9"}
TOKENS = {v: k for k, v in FOREIGN.items()}


def dec(seq):
    return "".join(FOREIGN.get(c, c) for c in seq)


def enc(s):
    return [TOKENS.get(c, c) for c in s]


def encval(v):
    if isinstance(v, str):
        return enc(v)
    return ["#" + type(v).__name__ + ":" + repr(v)]


# ------------------------------------------------------------------ symbolic functions


def prefix(c):
    return own(lambda raw: dec([c]) + ("" if raw is None else raw))


def formatter_of(seq):
    from rebulk.formatters import formatters
    if len(seq) == 1:
        return prefix(seq[0])
    return formatters(*[prefix(c) for c in reversed(seq)])


def validator_of(checks):
    from rebulk import validators as rv

    def one(chk):
        k, a = chk["k"], dec(chk["a"])
        if k == "before":
            return functools.partial(rv.chars_before, a)
        if k == "after":
            return functools.partial(rv.chars_after, a)
        if k == "around":
            return functools.partial(rv.chars_surround, a)
        if k == "yes":
            return rv.allways_true
        return {
            "no": lambda m: False,
            "rawno": lambda m: not any(c in a for c in m.raw),
            "valno": lambda m: not any(c in a for c in m.value),
            "short": lambda m: m.end - m.start < len(chk["a"]),
            "long": lambda m: m.end - m.start > len(chk["a"]),
            "kids": lambda m: len(m.children) <= len(chk["a"]),
        }[k]
    fns = [f if isinstance(f, functools.partial) else Own(f, lambda m: len(m.raw) % 2 == 0) for f in map(one, checks)]
    return fns[0] if len(fns) == 1 else rv.validators(*fns)


def as_option(seq, make, form):
    """A mapping of the specification as the user writes it: one thing, or a dict by name."""
    if not seq:
        return None
    if form == "one" and len(seq) == 1 and seq[0]["k"] == "*":
        return make(seq[0]["v"])
    return {(None if x["k"] == "*" else x["k"]): make(x["v"]) if x["v"] else None for x in seq}


def processor_of(kind):
    from rebulk.match import Match

    def proc(m):
        if kind == "keep":
            return None
        if kind == "drop":
            return False
        if kind == "trim":
            return Match(m.start, m.end - 1, name="q", input_string=m.input_string, pattern=m.pattern)
        if kind == "edit":
            m.name = "q"
        if kind == "less" and m.end - m.start > 1:
            m.raw_end = m.raw_end
            m.end -= 1
        if kind == "later" and m.end - m.start > 1:
            m.raw_start = m.raw_start
            m.start += 1
        return m
    return proc if kind else None


def post_of(kind):
    def proc(ms, pattern):
        return {"rev": lambda: ms[::-1], "tail": lambda: ms[1:], "none": lambda: [], "same": lambda: ms}[kind]()
    return proc if kind else None


def options(p, form):
    """Keyword arguments of a pattern."""
    kw = {}
    if p["name"]:
        kw["name"] = p["name"]
    if p["tags"]:
        kw["tags"] = list(p["tags"])
    for field, opt in (("priv", "private"), ("mark", "marker"), ("children", "children"), ("every", "every"),
                       ("pparent", "private_parent"), ("pchildren", "private_children"), ("fall", "format_all"),
                       ("vall", "validate_all")):
        if p[field]:
            kw[opt] = True
    if p["pnames"]:
        kw["private_names"] = list(p["pnames"])
    if p["inames"]:
        kw["ignore_names"] = list(p["inames"])
    for field, opt, make in (("fm", "formatter", formatter_of), ("va", "value", lambda v: dec(v)),
                             ("vd", "validator", validator_of)):
        o = as_option(p[field], make, form)
        if o is not None:
            kw[opt] = o
    for field, opt, make in (("pre", "pre_match_processor", processor_of), ("post", "post_match_processor", processor_of),
                             ("pp", "post_processor", post_of)):
        o = make(p[field])
        if o is not None:
            kw[opt] = o
    if p.get("level") is not None:
        kw["log_level"] = p["level"]
    if p.get("props"):
        kw["properties"] = {x["n"]: [VALUES[v] for v in x["v"]] for x in p["props"]}
    return kw


VALUES = ["a", "b", "ab", 1, 2, None, ["a"], []]         # of declared properties


# ------------------------------------------------------------------ the environment: the regex engine


def engine():
    from rebulk.remodule import REGEX_ENABLED
    if REGEX_ENABLED:
        import regex
        return regex, True
    return stdre, False


def substituted(expr, abbr):
    for k, v in abbr:
        expr = expr.replace(k, v)
    return expr


def occurrences(compiled, text, repeated):
    out = []
    for m in compiled.finditer(text):
        g = []
        for i in range(1, compiled.groups + 1):
            if repeated:
                g.append([list(x) for x in m.spans(i)])
            else:
                g.append([list(m.span(i))] if m.span(i) != (-1, -1) else [])
        out.append(dict(s=m.start(), e=m.end(), g=g))
    return out


def compile_expr(x, abbr, kwflags, mod):
    """What the expression means, independently of rebulk."""
    form, text, flags = x["form"], x["x"], x["flags"]
    if form in ("str", "dict"):
        text = substituted(text, abbr)
    f = 0
    if (kwflags if form == "str" else flags) == "i":
        f = mod.IGNORECASE
    return mod.compile(text, f)


def as_written(x, mod):
    f = mod.IGNORECASE if x["flags"] == "i" else 0
    if x["form"] == "dict":
        return {"pattern": x["x"], "flags": f} if f else {"pattern": x["x"]}
    if x["form"] == "tuple":
        return (x["x"], f)
    if x["form"] == "compiled":
        return mod.compile(x["x"], f)
    return x["x"]


def re_parts(script_p, text, offsets):
    """occ and gn of a regex pattern, for every offset of the text."""
    mod, en = engine()
    if os.environ.get("VERIF_STANDARD"):      # what the standard engine reports, whichever runs
        mod, en = stdre, False
    rep = en if script_p.get("rep") is None else script_p["rep"]
    comp = [compile_expr(x, script_p["abbr"], script_p["flags"], mod) for x in script_p["exprs"]]
    gn = []
    for c in comp:
        names = {v: k for k, v in c.groupindex.items()}
        gn.append([names.get(i, "") for i in range(1, c.groups + 1)])
    return [[occurrences(c, text[o:], rep) for c in comp] for o in offsets], gn


# ------------------------------------------------------------------ functional patterns


def returned(shape, rets):
    """Python object describing the matches rets in the given shape."""
    def opts(o):
        d = {}
        for x in o:
            v = x["v"]
            d[x["k"]] = {"name": lambda: v[0] or None, "tags": lambda: list(v), "private": lambda: v[0] == "1",
                         "marker": lambda: v[0] == "1", "value": lambda: dec(v)}[x["k"]]()
        return d

    def one(r):
        if r["form"] == "dict":
            d = dict(start=r["s"], end=r["e"], **opts(r["o"]))
            if r["junk"]:
                d["input_string"] = "junk"
                d["pattern"] = "junk"
            return d
        t = (r["s"], r["e"])
        if r["o"]:
            t += (opts(r["o"]),)
        return list(t) if r["form"] == "list" else t
    items = [one(r) for r in rets]
    if shape == "one":
        return items[0]
    if shape == "nothing":
        return None
    if shape == "tuple":
        return tuple(items)
    if shape == "gen":
        return (x for x in items)
    if shape == "iter":
        return iter(items)
    return items


ALONE = ("text", "method", "class", "object", "static", "partial")        # given the text only
SIGNATURES = ALONE + ("both", "both-method", "both-object", "both-partial", "all", "opts", "default")


def as_callable(sig, work):
    """What a user writes: anything that can be called, taking the text, and the context or not."""
    class Some:
        def method(self, text):
            return work(text, None)

        def both(self, text, context):
            return work(text, context)

        @classmethod
        def of_class(cls, text):
            return work(text, None)

        @staticmethod
        def static(text):
            return work(text, None)

    class One:
        def __call__(self, text):
            return work(text, None)

    class Two:
        def __call__(self, text, context=None):
            return work(text, context)
    return {"text": lambda: lambda text: work(text, None), "method": lambda: Some().method, "class": lambda: Some.of_class,
            "object": One, "static": lambda: Some().static, "partial": lambda: functools.partial(lambda x, text: work(text, None), 0),
            "both": lambda: lambda text, context: work(text, context), "both-method": lambda: Some().both, "both-object": Two,
            "both-partial": lambda: functools.partial(lambda x, text, context: work(text, context), 0),
            "all": lambda: lambda *a, **k: work(*a), "default": lambda: lambda text, context=None: work(text, context),
            "opts": lambda: lambda text, context=None, name="zz", **rest: work(text, context)}[sig]()


class Function:
    """A function of the user: by offset of the text it is given (found by its length)."""

    def __init__(self, x, text, sig):
        self.x, self.text = x, text
        self.calls = []
        self.given = []

        def work(t, c):
            self.calls.append((t, c))
            o = len(self.text) - len(t)
            v = returned(x["shapes"][o], x["rets"][o])
            if not hasattr(v, "__next__"):
                self.given.append((v, copy.deepcopy(v)))
            return v
        self.fn = as_callable(sig, work)

    def pure(self):
        return all(a == b for a, b in self.given)


# ------------------------------------------------------------------ building


def spec_pattern(p, text, offsets):
    out = {f: p[f] for f in ("kind", "name", "tags", "priv", "mark", "children", "every", "pparent", "pchildren", "pnames",
                             "inames", "fall", "vall", "fm", "va", "vd", "pre", "post", "pp", "ic")}
    out.update(srcs=p.get("srcs", []), occ=[], gn=[], rets=[])
    if p["kind"] == "re":
        out["occ"], out["gn"] = re_parts(p, text, offsets)
    if p["kind"] == "func":
        out["rets"] = [[[dict(s=r["s"], e=r["e"], o=r["o"]) for r in x["rets"][o]] for x in p["funcs"]] for o in offsets]
    return out


def arguments(p, text):
    """Positional arguments, extra options and functions of a pattern."""
    if p["kind"] == "string":
        return [dec(s) for s in p["srcs"]], (dict(ignore_case=True) if p["ic"] else {}), []
    if p["kind"] == "re":
        mod, _ = engine()
        kw = {}
        if p["flags"] == "i":
            kw["flags"] = mod.IGNORECASE
        if p["abbr"]:
            kw["abbreviations"] = [tuple(x) for x in p["abbr"]]
        if p.get("rep") is not None:
            kw["repeated_captures"] = p["rep"]
        return [as_written(x, mod) for x in p["exprs"]], kw, []
    fs = [Function(x, text, x["sig"]) for x in p["funcs"]]
    return [f.fn for f in fs], {}, fs


def observe(ms, owner, text):
    """What a user sees of emitted matches."""
    def brief(m):
        return dict(s=m.start, e=m.end, n=m.name or "", val=encval(m.value))
    out = []
    for m in ms:
        up = m.parent
        own = (m.pattern is owner or m.name == "q") and m.input_string == text
        if up is not None:
            own = own and any(k is m for k in up.children)
        out.append(dict(s=m.start, e=m.end, n=m.name or "", t=list(m.tags), priv=bool(m.private), mark=bool(m.marker),
                        val=encval(m.value), raw=encval(m.raw), par=[brief(up)] if up is not None else [],
                        kids=[brief(k) for k in m.children], own=bool(own)))
    return out


def drive(script):
    from rebulk import Rebulk
    from rebulk.pattern import FunctionalPattern, RePattern, StringPattern
    text, p = dec(script["X"]), script["p"]
    args, extra, fs = arguments(p, text)
    kw = dict(options(p, script["form"]), **extra)
    ctx = {"c": 1}
    evs = []
    if p["kind"] == "re":
        evs.append(dict(op="subst", exprs=[list(x["x"]) for x in p["exprs"] if x["form"] in ("str", "dict")],
                        abbr=[dict(k=list(a), v=list(b)) for a, b in p["abbr"]],
                        subst=[list(substituted(x["x"], p["abbr"])) for x in p["exprs"] if x["form"] in ("str", "dict")]))
    last = []

    def run(rb, pattern):
        if script["via"] == "direct":
            got = pattern.matches(text, ctx)
            return observe(got, pattern, text), [], got
        got = rb.matches(text, ctx)
        return observe(got, pattern, text), observe(got.markers, pattern, text), got

    def make():
        if script["via"] == "direct":
            cls = {"string": StringPattern, "re": RePattern, "func": FunctionalPattern}[p["kind"]]
            return None, cls(*args, **kw)
        rb = Rebulk(default_rules=False)
        {"string": rb.string, "re": rb.regex, "func": rb.functional}[p["kind"]](*args, **kw)
        return rb, rb.effective_patterns({})[0]

    def seen(f):
        return all(t == text and (c is ctx or f.x["sig"] in ALONE) for t, c in f.calls) and len(f.calls) == 1

    k, made = guarded(make)
    for _ in range(2 if k == "ok" else 0):
        for f in fs:
            f.calls.clear()
            f.given.clear()
        k, v = guarded(lambda: run(*made))
        ok = k == "ok"
        evs.append(dict(op="found", r=R(k), got=v[0] if ok else [], marks=v[1] if ok else [],
                        pure=all(f.pure() for f in fs), ctx=all(seen(f) for f in fs) if ok else True))
        last = v[2] if ok else []
        if not ok:
            break
    if k != "ok" and not any(e["op"] == "found" for e in evs):
        evs.append(dict(op="found", r=R(k), got=[], marks=[], pure=True, ctx=True))
    for i, v in script["sets"]:
        if i <= len(last):
            last[i - 1].value = dec(v)
            evs.append(dict(op="set", i=i, v=v, vals=[encval(m.value) for m in last]))
    return {"id": script["id"], "X": script["X"], "p": spec_pattern(p, text, [0]), "via": script["via"], "ev": evs}


# ------------------------------------------------------------------ scripts


def blank(kind):
    return dict(kind=kind, name="", tags=[], priv=False, mark=False, children=False, every=False, pparent=False, pchildren=False,
                pnames=[], inames=[], fall=False, vall=False, fm=[], va=[], vd=[], pre="", post="", pp="", ic=False, srcs=[],
                exprs=[], abbr=[], flags="", rep=None, funcs=[])


def word(r, alphabet, lo, hi):
    return [r.choice(alphabet) for _ in range(r.randint(lo, hi))]


SIMPLE = ["a", "b", "-"]
MIXED = ["a", "b", "A", "B", "-"]
BLANKS = ["a", "b", "A", " ", " ", "\n", "-"]
WIDE = ["a", "A", "I.", "SIGMA", "sigma", "E'", "e'"]

EXPRS = ["a", "ab", "a+", "a*", "(a)(b)?", "(?P<x>a+)(?P<y>b)?", "(?P<x>a)|(b)", "(a*)b", "((?P<x>a)b)+", "(?P<x>a)(b)(?P<y>a)",
         "a(?=b)", "(?<=a)b", r"\b\w", "(?:(a)|(?P<x>b))-?", "(?P<x>(?P<y>a)b)", "(?P<x>a)?(?P<y>b)?", "([ab])-([ab])", "(?P<y>b)-a?",
         "(?P<x>[ab])+", "(?i:(?P<x>A))b", "(?P<x>a)(?P<y>-)(?P<z>b)", "-(?P<y>.)", "a(?=(?P<x>b))", "(?<=(a))b", "(?=(b)(?P<y>a)?)b", "_", "a_b", "w(b)?", "_w_", "(_)-(?P<x>w)", "w-w-w|w", "(?P<x>a)-?b-?(a)-?b-?", "-?_-?a-?b_?"]
ABBR = [("-", "[-_]"), ("_", "(?P<u>[ab])"), ("w", "a|b"), ("_", "w"), ("a", "b"), ("-", "_"), ("ab", "-")]


def re_exprs(r, abbr):
    """Expressions that compile, alone or together, with these abbreviations."""
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        while True:
            x = dict(form=r.choice(["str", "str", "str", "dict", "tuple", "compiled"]), x=r.choice(EXPRS),
                     flags=r.choice(["", "", "i"]))
            if x["form"] == "str":
                x["flags"] = ""
            if abbr and x["form"] in ("tuple", "compiled"):
                continue
            try:
                stdre.compile(substituted(x["x"], abbr) if x["form"] in ("str", "dict") else x["x"])
                break
            except stdre.error:
                continue
        out.append(x)
    return out


KEYS = ["x", "y", "xy", "__parent__", "__children__", "*"]


def mapping(r, value, p=0.5, keys=KEYS, general=0.4):
    if r.random() > p:
        return []
    if r.random() < general:
        return [dict(k="*", v=value(r))]
    # a key may be given nothing: it decides all the same
    return [dict(k=k, v=[] if r.random() < 0.12 else value(r)) for k in r.sample(keys, r.randint(1, 3))]


def check(r):
    k = r.choice(["yes", "no", "rawno", "rawno", "valno", "short", "long", "before", "after", "around", "kids"])
    a = word(r, MIXED + ["F", "G"], 1, 3) if k not in ("short", "long", "kids") else ["."] * r.randint(0, 2)
    return dict(k=k, a=a)


def checks(r):
    return [check(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]


def dress(p, r, emission=0.5, fm=0.4, va=0.2, vd=0.3, proc=0.1, pp=0.1):
    p["name"] = r.choice(["", "xy", "xy", "x"])
    p["tags"] = word(r, ["t", "tu"], 0, 2) if r.random() < 0.4 else []
    if r.random() < emission:
        for f, q in (("children", 0.5), ("every", 0.3), ("pparent", 0.25), ("pchildren", 0.25), ("priv", 0.15)):
            p[f] = r.random() < q
        if r.random() < 0.3:
            p["pnames"] = r.sample(["x", "y", "xy"], r.randint(1, 2))
        if r.random() < 0.3:
            p["inames"] = r.sample(["x", "y", "xy"], r.randint(1, 2))
    p["fall"], p["vall"] = r.random() < 0.3, r.random() < 0.3
    p["fm"] = mapping(r, lambda r: word(r, ["F", "G", "H"], 1, 2), fm)
    p["va"] = mapping(r, lambda r: word(r, ["V", "W"], 0 if r.random() < 0.3 else 1, 1), va)
    p["va"] = [x for x in p["va"] if x["v"] or len(p["va"]) > 1]
    p["vd"] = mapping(r, checks, vd)
    if r.random() < proc:
        p["pre"] = r.choice(["keep", "drop", "trim", "edit", "same", "less", "later"])
    if r.random() < proc:
        p["post"] = r.choice(["keep", "drop", "trim", "edit", "same", "less", "later"])
    if r.random() < pp:
        p["pp"] = r.choice(["rev", "tail", "none", "same"])
    return p


def option(r):
    k = r.choice(["name", "tags", "private", "marker", "value"])
    return dict(k=k, v={"name": lambda: [r.choice(["x", "y", ""])], "tags": lambda: word(r, ["t", "tw"], 0, 2),
                        "private": lambda: [r.choice("01")], "marker": lambda: [r.choice("01")],
                        "value": lambda: word(r, ["V", "W"], 0, 1)}[k]())


def one_ret(r, n):
    s = r.randint(0, n)
    e = r.randint(s, n) if r.random() < 0.8 else s
    opts = []
    if r.random() < 0.5:
        for o in [option(r) for _ in range(r.randint(1, 3))]:
            if o["k"] not in [x["k"] for x in opts]:
                opts.append(o)
    form = r.choice(["tuple", "tuple", "list", "dict"])
    return dict(s=s, e=e, o=opts, form=form, junk=r.random() < 0.3)


def func(r, text, offsets):
    shapes, rets = {}, {}
    for o in offsets:
        n = len(text) - o
        shape = r.choice(["one", "list", "list", "tuple", "gen", "iter", "nothing"])
        q = [] if shape == "nothing" else [one_ret(r, n) for _ in range(1 if shape == "one" else r.randint(0, 4))]
        if shape == "tuple" and len(q) in (2, 3) and False:
            shape = "list"
        shapes[o], rets[o] = shape, q
    return dict(shapes=[shapes[o] for o in offsets], rets=[rets[o] for o in offsets], sig=r.choice(SIGNATURES))


def fill(p, r, X, offsets=(0,), wide=False):
    k = p["kind"]
    if k == "string":
        alpha = WIDE if wide else BLANKS if " " in X else r.choice([SIMPLE, MIXED])
        p["ic"] = r.random() < 0.5
        p["srcs"] = [word(r, alpha, 0 if r.random() < 0.08 else 1, r.choice([1, 2, 3])) for _ in range(r.choice([1, 1, 2, 3]))]
        if X and r.random() < 0.5:
            a = r.randint(0, len(X) - 1)
            p["srcs"][0] = X[a:a + r.randint(1, 3)]
    elif k == "re":
        if r.random() < 0.35:
            p["abbr"] = r.sample(ABBR, r.randint(1, 2))
        p["exprs"] = re_exprs(r, p["abbr"])
        p["flags"] = r.choice(["", "", "i"])
        p["rep"] = r.choice([None, None, False])
    else:
        p["funcs"] = [func(r, X, offsets) for _ in range(r.choice([1, 1, 2]))]
    return p


def script(sid, r, kind=None, wide=False, maxlen=None, regex=False, **dressing):
    kind = kind or r.choice(["string", "re", "re", "func"])
    alpha = WIDE if wide else r.choice([SIMPLE, MIXED, MIXED, BLANKS])
    X = word(r, alpha, 0 if r.random() < 0.05 else 1, maxlen or r.choice([4, 6, 9]))
    p = fill(dress(blank(kind), r, **dressing), r, X, wide=wide)
    if regex and kind == "re":
        p["rep"] = r.choice([None, True, False])
    p["mark"] = r.random() < 0.1
    sets = [[r.randint(1, 3), word(r, ["Z"], 1, 1)]] if r.random() < 0.4 else []
    return dict(id=sid, X=X, p=p, via=r.choice(["direct", "engine"]), form=r.choice(["one", "one", "dict"]), sets=sets)


def string_script(sid, r):
    return script(sid, r, "string", wide=r.random() < 0.3, maxlen=r.choice([5, 8, 14]), emission=0.1, fm=0.1, va=0.05, vd=0.1,
                  proc=0.02, pp=0.02)


def tree_script(sid, r):
    return script(sid, r, "re", emission=0.9, fm=0.2, va=0.05, vd=0.05, proc=0.02, pp=0.02)


def regex_script(sid, r):
    return script(sid, r, "re", regex=True, emission=0.9, fm=0.2, va=0.05, vd=0.05, proc=0.02, pp=0.02)


def emission_script(sid, r):
    return script(sid, r, emission=1, proc=0.1, pp=0.25)


def validation_script(sid, r):
    return script(sid, r, emission=0.6, vd=0.95, proc=0.35, va=0.2)


def value_script(sid, r):
    return script(sid, r, emission=0.6, fm=0.9, va=0.6, vd=0.15)


def func_script(sid, r):
    return script(sid, r, "func", emission=0.3)


def corrupt(s, r):
    fs = [e for e in s["ev"] if e["op"] == "found" and e["got"]]
    if not fs:
        return False
    m = r.choice(r.choice(fs)["got"])
    f = r.choice(["s", "n", "t", "val", "priv"])
    m[f] = {"s": lambda: m["s"] + 1, "n": lambda: m["n"] + "!", "t": lambda: m["t"] + ["!"], "val": lambda: m["val"] + ["!"],
            "priv": lambda: not m["priv"]}[f]()
    return True
