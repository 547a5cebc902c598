"""Driver for single matches: module MatchOps / MatchTrace."""
from common import NONE, R, guarded, valchars
from store import NAMES, TAGS, build, world


def portrait(m):
    return valchars(m.value) + ["|", m.name or "", "|"] + list(m.tags) + ["|", "1" if m.private else "0"]


def spanw(ms, kind):
    spans = [[m.start, m.end] for m in ms]
    if not all(isinstance(x, int) for s in spans for x in s):
        return R("other")
    return R(kind, spans, [portrait(m) for m in ms])


def drive(script):
    text, objs = build(script)
    ids = {id(o): i + 1 for i, o in enumerate(objs)}
    pyset, pydict = set(), {}
    evs = []
    for e in script["ev"]:
        m = [objs[i - 1] for i in e["m"]]
        op = e["op"]

        def run():
            if op == "cmp":
                a, b = m
                return R("int", [int(x) for x in (a == b, a != b, b == a, b != a, a < b, a <= b, a > b, a >= b,
                                                  hash(a) == hash(b))])
            if op == "foreign":
                other = ["x", 3, None, (m[0].start, m[0].end)][e["a"][0]]
                lt = 2
                for less in (lambda: m[0] < other, lambda: m[0] <= other, lambda: m[0] > other, lambda: m[0] >= other):
                    try:
                        less()
                        lt = 1
                    except TypeError:
                        pass
                return R("int", [int(m[0] == other), int(m[0] != other), lt])
            if op == "setval":
                m[0].value = "".join(e["cs"]) or None
                return R("ok")
            if op == "setname":
                m[0].name = e["cs"][0] or None
                return R("ok")
            if op == "settags":
                m[0].tags = list(e["cs"])
                return R("ok")
            if op == "put":
                pyset.add(m[0])
                pydict.setdefault(m[0], m[0])
                return R("ok")
            if op == "inset":
                got = {m[0] in pyset, m[0] in pydict}
                return R("int", [int(got.pop())]) if len(got) == 1 else R("other")
            if op == "sort":
                return R("list", [ids[id(x)] for x in sorted(m)])
            if op == "family":
                x = m[0]
                up = [ids.get(id(x.initiator), -1), ids[id(x.parent)] if x.parent is not None else 0, len(x)]
                return R("one", up + [x.raw_start, x.raw_end] + [ids.get(id(k), -1) for k in x.children],
                         [valchars(x.value), valchars(x.raw)])
            if op == "leaves":
                return R("set", w=sorted(n or "" for n in m[0].names))
            if op == "named":
                return R("int", [int(m[0].named(*[c or None for c in e["cs"]]))])
            if op == "tagged":
                return R("int", [int(m[0].tagged(*e["cs"]))])
            if op == "ask":
                return ask(m[0], e["vs"], e["form"])
            if op == "format":
                from rebulk.formatters import default_formatter, formatters
                fs = [{"0": lambda s: "", "N": lambda s: None}.get(c, (lambda c: lambda s: c + (s or ""))(c)) for c in e["cs"]]
                return R("one", w=[valchars(default_formatter(formatters(*fs)("")))])
            if op == "setpar":
                m[0].parent = objs[e["a"][0] - 1] if e["a"][0] else None
                return R("ok")
            if op == "setspan":
                if e["form"]:
                    m[0].start, m[0].end = e["a"]
                else:
                    m[0].end = e["a"][1]
                    m[0].start = e["a"][0]
                return R("ok")
            if op == "setraw":
                m[0].raw_start, m[0].raw_end = [None if x == NONE else x for x in e["a"]]
                return R("ok")
            if op == "addkid":
                m[0].children.append(m[1])
                return R("ok")
            if op == "setkids":
                from rebulk.match import Children
                m[0].children = Children(m[1:])
                return R("ok")
            if op == "look":
                return spanw(m, "one")
            pred = (lambda h: len(h) >= e["a"][0]) if e["hp"] else None
            ix = None if e["ix"] == NONE else e["ix"]
            if op == "split":
                r = m[0].split("".join(e["cs"]), predicate=pred, index=ix)
            else:
                crops = e["crops"]
                if e["form"] == 1:
                    from rebulk.match import Match
                    arg = [Match(a, b, input_string=text) for a, b in crops]
                elif e["form"] == 2 and len(crops) == 1:
                    arg = tuple(crops[0])
                elif e["form"] == 3 and len(crops) == 1:
                    from rebulk.match import Match
                    arg = Match(crops[0][0], crops[0][1], input_string=text)
                else:
                    arg = [tuple(c) for c in crops]
                r = m[0].crop(arg, predicate=pred)
            if r is None:
                return R("none")
            if isinstance(r, list):
                got = spanw(r, "list")
                for piece in r:          # pieces are independent of the original
                    piece.tags.append("junk")
                return got
            return spanw([r], "one")

        k, v = guarded(run)
        evs.append(dict({f: e[f] for f in ("op", "a", "m", "cs", "hp", "ix", "crops", "vs")}, r=v if k == "ok" else R(k)))
    return {"id": script["id"], "X": script["X"], "O": script["O"], "ev": evs}


def ask(m, vs, form):
    """The answer of validators asked one after the other, and how many were."""
    import functools
    from rebulk import validators as rv
    asked = []

    def one(k, c):
        chars = "".join(c) if form < 2 else set(c) if form == 2 else tuple(c)
        f = {"before": functools.partial(rv.chars_before, chars), "after": functools.partial(rv.chars_after, chars),
             "around": functools.partial(rv.chars_surround, chars), "yes": rv.allways_true, "no": lambda x: False}[k]

        def count(x):
            asked.append(k)
            return f(x)
        return count
    fs = [one(v["k"], v["c"]) for v in vs]
    if form == 1 and len(fs) > 1:                    # a chain in a chain
        fs = fs[:1] + [rv.validators(*fs[1:])]
    got = rv.validators(*fs)(m)
    return R("int", [int(bool(got)), len(asked)])


def E(op, m, a=(), cs=(), hp=False, ix=NONE, crops=(), form=0, vs=()):
    return dict(vs=[dict(k=k, c=list(c)) for k, c in vs], op=op, m=list(m), a=list(a), cs=list(cs), hp=hp, ix=ix, crops=[list(c) for c in crops], form=form)


def compare_script(sid, r):
    X, O, size = world(r, dup=0.6, fmt=0.2, raws=0)
    ids = list(range(1, len(O) + 1))
    evs = []
    for _ in range(r.randint(6, 25)):
        op = r.choice(["cmp"] * 6 + ["foreign", "setval", "setval", "setraw", "setname", "settags", "put", "put", "inset", "inset", "sort"])
        a = r.choice(ids)
        if op == "cmp":
            evs.append(E(op, [a, r.choice(ids)]))
        elif op == "foreign":
            evs.append(E(op, [a], [r.randint(0, 3)]))
        elif op == "setval":
            evs.append(E(op, [a], cs=r.choice([[], ["p"], ["q"], ["p", "p"]])))
        elif op == "setraw":
            evs.append(E(op, [a], [r.choice([NONE, r.randint(0, size)]), r.choice([NONE, r.randint(0, size)])]))
        elif op == "setname":
            evs.append(E(op, [a], cs=[r.choice(NAMES)]))
        elif op == "settags":
            evs.append(E(op, [a], cs=[t for t in TAGS if r.random() < 0.5]))
        elif op == "sort":
            q = ids[:]
            r.shuffle(q)
            evs.append(E(op, q))
        else:
            evs.append(E(op, [a]))
    return dict(id=sid, X=X, O=O, ev=evs)


def family_script(sid, r):
    """Parents, children, names, tags and text of matches, while they are rearranged."""
    X, O, size = world(r, n=r.randint(3, 7), fmt=0.3, raws=0)
    ids = list(range(1, len(O) + 1))
    kids = {i: [] for i in ids}
    evs = []
    for i in ids:
        j = O[i - 1]["par"]
        if j and r.random() < 0.8:
            kids[j].append(i)
            evs.append(E("addkid", [j, i]))
    for _ in range(r.randint(8, 25)):
        op = r.choice(["family"] * 5 + ["leaves"] * 3 + ["named", "tagged"] * 2 + ["setpar", "addkid", "setkids", "setspan", "setraw",
                                                                                   "setname", "settags", "setval"])
        a = r.choice(ids)
        later = [i for i in ids if i > a]
        if op in ("family", "leaves"):
            evs.append(E(op, [a]))
        elif op == "named":
            evs.append(E(op, [a], cs=[r.choice(NAMES) for _ in range(r.randint(0, 2))]))
        elif op == "tagged":
            evs.append(E(op, [a], cs=[r.choice(TAGS) for _ in range(r.randint(0, 2))]))
        elif op == "setpar":
            evs.append(E(op, [a], [r.randint(0, a - 1)]))
        elif op == "addkid" and later:
            b = r.choice(later)
            evs.append(E(op, [a, b]))
        elif op == "setkids":
            evs.append(E(op, [a] + r.sample(later, r.randint(0, min(3, len(later))))))
        elif op == "setspan":
            s = r.randint(0, size)
            evs.append(E(op, [a], [s, r.randint(s, size)], form=r.randint(0, 1)))
        elif op == "setraw":
            s = r.randint(0, size)
            evs.append(E(op, [a], [r.choice([s, NONE]), r.choice([r.randint(s, size), NONE])]))
        elif op == "setname":
            evs.append(E(op, [a], cs=[r.choice(NAMES)]))
        elif op == "settags":
            evs.append(E(op, [a], cs=[t for t in TAGS if r.random() < 0.5]))
        elif op == "setval":
            evs.append(E(op, [a], cs=r.choice([[], ["p"], ["q"]])))
    return dict(id=sid, X=X, O=O, ev=evs)


def border_script(sid, r):
    """The supplied validators and formatters, alone and combined."""
    X, O, size = world(r, text=True, fmt=0, raws=0)
    ids = list(range(1, len(O) + 1))
    evs = []
    for _ in range(r.randint(4, 12)):
        if r.random() < 0.15:
            evs.append(E("format", [], cs=[r.choice("pqrs0N") for _ in range(r.randint(0, 4))]))
            continue
        if r.random() < 0.1:
            s = r.randint(0, size)
            evs.append(E("setspan", [r.choice(ids)], [s, r.randint(s, size)]))
        vs = [(r.choice(["before", "after", "around", "around", "before", "after", "yes", "no"]), r.sample("ab-_ ", r.randint(0, 3)))
              for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4]))]
        evs.append(E("ask", [r.choice(ids)], vs=vs, form=r.randint(0, 3)))
    return dict(id=sid, X=X, O=O, ev=evs)


def pieces_script(sid, r):
    X, O, size = world(r, text=True, maxlen=14, fmt=0.3, raws=0)
    ids = list(range(1, len(O) + 1))
    evs = []
    for _ in range(r.randint(3, 10)):
        a = r.choice(ids)
        o = O[a - 1]
        if r.random() < 0.4:
            evs.append(E("split", [a], [r.randint(1, 3)], cs=r.choice([["-"], ["_"], ["-", "_"], ["a"], ["-", "_", "a"]]),
                         hp=r.random() < 0.3, ix=r.choice([NONE, NONE, 0, 1, -1, 4])))
        else:
            crops = []
            for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
                how = r.random()
                if how < 0.6:
                    s = r.randint(max(0, o["s"] - 2), o["e"])
                    crops.append([s, r.randint(s + 1, max(s + 1, o["e"] + 2))])
                elif how < 0.8 and crops:
                    s = crops[-1][1]
                    crops.append([s, s + r.randint(1, 2)])
                else:
                    s = r.randint(0, size)
                    crops.append([s, r.randint(s + 1, size + 2)])
            if len(crops) == 2 and r.random() < 0.2:
                crops[1] = crops[0][:]
            evs.append(E("crop", [a], [r.randint(1, 3)], hp=r.random() < 0.2, crops=crops, form=r.randint(0, 3)))
        evs.append(E("look", [a]))
    return dict(id=sid, X=X, O=O, ev=evs)


def corrupt(s, r):
    es = [e for e in s["ev"] if e["r"]["v"]]
    if not es:
        return False
    e = r.choice(es)
    v = e["r"]["v"]
    if e["op"] == "sort":
        v.append(v[0])
    elif isinstance(v[0], list):
        v[0][1] += 1
    else:
        v[0] = 7
    return True
