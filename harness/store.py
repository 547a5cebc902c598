"""Driver for the collection of matches: module Store / StoreTrace."""
from common import NONE, R, chars, guarded, own, rng, valchars

NAMES = ["", "x", "y", "xy"]
TAGS = ["t", "u", "tu"]

# ------------------------------------------------------------------ the real code


def prefixer(fmt):
    return own(lambda raw: fmt + ("N" if raw is None else raw))


def apart(m, o):
    """Text of a match elsewhere than its span."""
    if o.get("rs", NONE) != NONE:
        m.raw_start, m.raw_end = o["rs"], o["re"]


def build(script):
    from rebulk.match import Match
    text = "".join(script["X"])
    objs = []
    for o in script["O"]:
        parent = objs[o["par"] - 1] if o["par"] else None
        fmt = "".join(o["fm"])
        objs.append(Match(o["s"], o["e"], value="".join(o["lit"]) or None, name=o["n"] or None, tags=list(o["t"]),
                          marker=o["mark"], parent=parent, private=o["priv"] or None, input_string=text or None,
                          formatter=prefixer(fmt) if fmt else None))
        apart(objs[-1], o)
    return text, objs


class Live:
    """A real collection driven by a script, and the observations made on it."""

    def __init__(self, script):
        from rebulk.match import Markers, Matches
        self.text, self.objs = build(script)
        self.ids = {id(o): i + 1 for i, o in enumerate(self.objs)}
        self.cls = Markers if script["cls"] == "Markers" else Matches
        self.c = self.cls(None, self.text or None)
        for i in script["init"]:
            self.c.append(self.objs[i - 1])

    def obj(self, i):
        return self.objs[i - 1]

    def enc(self, res):
        """Result of a lookup that answers with matches."""
        if res is None:
            return R("none")
        if isinstance(res, (list, tuple)) or hasattr(res, "_delegate") or hasattr(res, "insert"):
            got = [self.ids.get(id(m), 0) for m in res]
            return R("list", got) if all(got) else R("other")
        i = self.ids.get(id(res), 0)
        return R("one", [i]) if i else R("other")

    def after(self):
        k, v = guarded(lambda: [self.ids.get(id(m), 0) for m in self.c])
        return v if k == "ok" else [-1]

    # -- edits
    def edit(self, e):
        c, a, m, op = self.c, e["a"], [self.obj(i) for i in e["m"]], e["op"]

        def run():
            if op == "none":
                return None
            if op == "append":
                return c.append(m[0])
            if op == "insert":
                return c.insert(a[0], m[0])
            if op == "extend":
                return c.extend(m)
            if op == "iadd":
                self.c += m
                return None
            if op == "extself":
                return c.extend(c)
            if op == "setitem":
                c[a[0]] = m[0]
                return None
            if op == "delitem":
                del c[a[0]]
                return None
            if op == "pop":
                return c.pop(a[0])
            if op == "remove":
                return c.remove(m[0])
            if op == "setslice":
                c[slice(*[None if x == NONE else x for x in a])] = iter(m) if e.get("it") else m
                return None
            if op == "delslice":
                del c[slice(*[None if x == NONE else x for x in a])]
                return None
            if op == "reverse":
                return c.reverse()
            if op == "clear":
                return c.clear()
            if op == "keepslice":
                self.c = c[slice(*[None if x == NONE else x for x in a])]
                if type(self.c) is not type(c):
                    raise TypeError("slice of another kind")
                return None
            if op == "misput":
                x = {"half": 0.5, "none": None, "text": "0", "zero": slice(None, None, 0)}[e["x"]]
                return {"insert": lambda: c.insert(x, m[0]), "setitem": lambda: c.__setitem__(x, m if e["x"] == "zero" else m[0]),
                        "delitem": lambda: c.__delitem__(x), "pop": lambda: c.pop(x), "value": lambda: c.__setitem__(slice(0, 1), m[0]),
                        "single": lambda: c.extend(m[0])}[e["how"]]()
            if op == "reject":
                how = e["how"]
                if how == "append":
                    return c.append(m[0])
                if how == "insert":
                    return c.insert(a[0], m[0])
                if how == "extend":
                    return c.extend(m)
                c[a[0]] = m[0]
                return None
            raise ValueError(op)

        k, v = guarded(run)
        if k != "ok":
            return R(k)
        if op == "pop":
            return self.enc(v)
        return R("ok")

    # -- lookups
    def lookup(self, q):
        c, a, op = self.c, q["a"], q["op"]
        m = [self.obj(i) for i in q["m"]]
        index = None if q["ix"] == NONE else q["ix"]
        accepted = {id(self.obj(i)) for i in q["p"]}
        if op == "holes":
            pred = (lambda h: len(h) >= a[2]) if q["hp"] else None
        else:
            pred = (lambda x: id(x) in accepted) if q["hp"] else None
        kw = {}
        form = q.get("form", 0)
        if pred is not None:
            kw["predicate"] = pred
        if index is not None:
            kw["index"] = index
            if form and pred is None and not op.startswith("chain") and op not in ("named",):
                kw = {"predicate": index}        # an int predicate is an index
        more = ()
        if form and pred is not None and op not in ("named", "range", "holes", "chain_before", "chain_after"):
            more, kw = ((pred,) if index is None else (pred, index)), {}      # in their places
        end = lambda x: None if x == NONE else x
        if form and op in ("range", "holes", "chain_before", "chain_after"):    # what is by default may be left out
            if op != "chain_after" and a[0 if op != "chain_before" else 1] != 0:
                kw["start"] = a[0 if op != "chain_before" else 1]
            if op != "chain_before" and end(a[1]) is not None:
                kw["end"] = a[1]
        elif op in ("range", "holes"):
            kw.update(start=a[0], end=end(a[1]))
        elif op == "chain_before":
            kw["start"] = a[1]
        elif op == "chain_after":
            kw["end"] = end(a[1])

        def run():
            if op == "named":
                if form and (pred or index is not None):
                    extra = [pred if pred else index]
                    if pred and index is not None:
                        extra.append(index)
                    return c.named(*q["ss"], *extra)
                return c.named(*q["ss"], **kw)
            if op == "tagged":
                return c.tagged(q["ss"][0], *more, **kw)
            if op in ("starting", "ending", "at_index"):
                return getattr(c, op)(a[0], *more, **kw)
            if op == "at_span":
                return c.at_span((a[0], a[1]), *more, **kw)
            if op in ("at_match", "previous", "next", "conflicting"):
                return getattr(c, op)(m[0], *more, **kw)
            if op == "range":
                return c.range(**kw)
            if op == "chain_before":
                return c.chain_before(m[0] if m else a[0], "".join(q["cs"]), **kw)
            if op == "chain_after":
                return c.chain_after(m[0] if m else a[0], "".join(q["cs"]), **kw)
            if op == "holes":
                skip = {id(x) for x in m}
                fmt = "".join(q["ss"])
                opts = dict(formatter=(lambda s: fmt + s) if fmt else None, ignore=(lambda x: id(x) in skip) if m else None,
                            seps="".join(q["cs"]) or None)
                return c.holes(**{k: v for k, v in opts.items() if v is not None or not form}, **kw)
            if op in ("names", "tags"):
                return sorted(str(x) for x in getattr(c, op))
            if op == "max_end":
                return c.max_end
            if op == "len":
                return len(c)
            if op == "contains":
                return int(m[0] in c)
            if op == "count":
                return c.count(m[0])
            if op == "index":
                return c.index(m[0])
            if op == "getitem":
                return c[a[0]]
            if op == "getslice":
                return c[slice(*[None if x == NONE else x for x in a])]
            if op == "iter":
                return list(iter(c))
            if op == "reversed":
                return list(reversed(c))
            from rebulk.key import Key
            if op == "keyget":
                return c[Key(q["ss"][0], str)]
            if op == "keyall":
                return c.all(Key(q["ss"][0], str))
            raise ValueError(op)

        k, v = guarded(run)
        if k != "ok":
            return R(k)
        if op == "holes":
            k2, r = guarded(lambda: self.enc_holes(v))
            return r if k2 == "ok" else R("other")
        if op in ("names", "tags"):
            return R("set", w=v)
        if op in ("max_end", "len", "contains", "count", "index"):
            return R("int", [v]) if isinstance(v, int) else R("other")
        if op == "keyget":
            return R("none") if v is None else R("one", w=[valchars(v)])
        if op == "keyall":
            return R("list", w=[valchars(x) for x in v])
        r = self.enc(v)
        if q.get("abuse") and isinstance(v, list):
            # the list a lookup returns belongs to the caller
            v.reverse()
            del v[:]
            v.append("junk")
        return r

    @staticmethod
    def enc_holes(v):
        if v is None:
            return R("none")
        hs = v if isinstance(v, list) else [v]
        spans = [[h.start, h.end] for h in hs]
        if not all(isinstance(x, int) for s in spans for x in s):
            return R("other")
        return R("list" if isinstance(v, list) else "one", spans, [valchars(h.value) for h in hs])


def drive(script):
    live = Live(script)
    evs = []
    for e in script["ev"]:
        r = live.edit(e)
        after = live.after()
        qs = [dict(op=q["op"], a=q["a"], m=q["m"], hp=q["hp"], p=q["p"], ix=q["ix"], ss=q["ss"], cs=q["cs"],
                   r=live.lookup(q)) for q in e["q"]]
        if e["q"]:
            again = live.after()
            if again != after and r["k"] != "hang":
                qs.append(dict(Q("iter"), r=R("list", again)))
        evs.append({"op": e["op"], "a": e["a"], "m": e["m"], "r": r, "after": after, "q": qs})
    return {"id": script["id"], "X": script["X"], "O": script["O"], "init": script["init"], "ev": evs}


# ------------------------------------------------------------------ scripts


def Q(op, a=(), m=(), hp=False, p=(), ix=NONE, ss=(), cs=(), **kw):
    return dict(op=op, a=list(a), m=list(m), hp=hp, p=list(p), ix=ix, ss=list(ss), cs=list(cs), **kw)


def E(op, a=(), m=(), q=(), **kw):
    return dict(op=op, a=list(a), m=list(m), q=list(q), **kw)


def world(r, n=None, text=None, marker=False, dup=0.35, maxlen=10, fmt=0.1, raws=0.12):
    """A text and a table of matches over it."""
    size = r.randint(4, maxlen)
    has = r.random() < 0.85 if text is None else text
    tx = [r.choice("ab-_ ") for _ in range(size)]
    n = n or r.randint(2, 7)
    objs = []
    for i in range(n):
        if objs and r.random() < dup:
            o = dict(r.choice(objs))
            o["t"] = list(o["t"])
            if r.random() < 0.4:
                o["t"] = [t for t in TAGS if r.random() < 0.4]
            if r.random() < 0.2:
                o["n"] = r.choice(NAMES)
            if r.random() < 0.2:
                o["e"] = r.randint(o["s"] + 1, size)
            if r.random() < 0.15:
                o["lit"] = [r.choice("pq")]
            if r.random() < 0.2:
                o["par"] = r.randint(0, i)
        else:
            s = r.randint(0, size - 1)
            e = r.randint(s + 1, size) if r.random() < 0.4 else min(size, s + r.randint(1, 3))
            o = dict(s=s, e=e, n=r.choice(NAMES), t=[t for t in TAGS if r.random() < 0.35],
                     lit=[r.choice("pq")] if r.random() < 0.25 else [], par=r.randint(0, i) if r.random() < 0.2 else 0)
        o["mark"] = marker
        o["fm"] = ["*"] if r.random() < fmt else []
        o["priv"] = r.random() < 0.2
        if raws:                                # where its text lies, if elsewhere than its span
            o["rs"], o["re"] = NONE, NONE
            if r.random() < raws:
                a = r.randint(0, size - 1)
                o["rs"], o["re"] = r.choice([(a, r.randint(a + 1, size)), (o["s"], r.randint(o["s"] + 1, size)),
                                             (r.randint(0, o["e"] - 1), o["e"])])
        objs.append(o)
    return (tx if has else []), objs, size


def pick_sel(r, ids):
    """predicate and index"""
    hp = r.random() < 0.35
    p = [i for i in ids if r.random() < 0.6] if hp else []
    ix = r.choice([0, -1, 1, -2, 2, 5, -7]) if r.random() < 0.4 else NONE
    return dict(hp=hp, p=p, ix=ix, form=r.randint(0, 1))


def rand_lookup(r, X, O, ids, size, ops=None):
    allids = list(range(1, len(O) + 1))
    op = r.choice(ops or ["named", "named", "tagged", "tagged", "starting", "ending", "at_index", "at_span", "at_match",
                          "range", "previous", "next", "conflicting", "chain_before", "chain_after", "names", "tags",
                          "max_end", "len", "contains", "count", "index", "getitem", "getslice", "iter", "reversed",
                          "keyget", "keyall"])
    sel = pick_sel(r, allids)
    pos = r.randint(0, size + 2)
    mid = r.choice(ids) if ids and r.random() < 0.85 else r.choice(allids)
    if op == "named":
        return Q(op, ss=[r.choice(["x", "y", "xy", "absent"]) for _ in range(r.choice([1, 1, 2, 3]))], **sel)
    if op == "tagged":
        return Q(op, ss=[r.choice(TAGS + ["absent"])], **sel)
    if op in ("starting", "ending", "at_index"):
        return Q(op, [pos], **sel)
    if op == "at_span":
        b = r.randint(pos, size + 3)
        return Q(op, [pos, b], **sel)
    if op in ("at_match", "previous", "next", "conflicting"):
        return Q(op, m=[mid], **sel)
    if op == "range":
        return Q(op, [pos, r.choice([NONE, r.randint(0, size + 3), r.randint(0, size)])], **sel)
    if op in ("chain_before", "chain_after"):
        if not X:
            return Q("at_index", [pos], **sel)
        use = r.random() < 0.5
        lim = (r.choice([0, 0, r.randint(0, size)]) if op == "chain_before" else r.choice([NONE, NONE, r.randint(0, size + 1)]))
        return Q(op, [min(pos, size), lim], m=[mid] if use else [], cs=r.choice([["-"], ["_"], ["-", "_"], ["-", "_", "a"]]), **sel)
    if op in ("contains", "count", "index"):
        return Q(op, m=[r.choice(allids)])
    if op == "getitem":
        return Q(op, [r.randint(-len(O) - 1, len(O))])
    if op == "getslice":
        return Q(op, rand_slice(r, len(O)))
    if op in ("keyget", "keyall"):
        return Q(op, ss=[r.choice(["x", "y", "xy", "absent"])])
    if op == "holes":
        seps = r.choice([[], [], ["-"], ["-", "_"], ["a"]]) if X else []
        fmt = ["*"] if X and r.random() < 0.3 else []
        a = r.choice([0, 0, r.randint(0, size + 1)])
        b = r.choice([NONE, NONE, r.randint(0, size + 2)])
        ign = [i for i in ids if r.random() < 0.4] if r.random() < 0.4 else []
        return Q(op, [a, b, r.randint(1, 3)], m=ign, hp=r.random() < 0.3, ix=sel["ix"], ss=fmt, cs=seps, form=0)
    return Q(op)


def rand_slice(r, n):
    st = r.choice([1, 1, 1, 2, -1])
    a = r.choice([NONE, r.randint(-n - 1, n + 1)])
    b = r.choice([NONE, r.randint(-n - 1, n + 1)])
    return [a, b, st]


def probe(X, O, size):
    """Every lookup, at every place: the whole observable state of a collection."""
    qs = [Q("names"), Q("tags"), Q("max_end"), Q("len")]
    for n in ("x", "y", "xy"):
        qs += [Q("named", ss=[n]), Q("keyget", ss=[n]), Q("keyall", ss=[n])]
    qs += [Q("tagged", ss=[t]) for t in TAGS]
    for p in range(size + 1):
        qs += [Q("starting", [p]), Q("ending", [p]), Q("at_index", [p])]
    qs += [Q("at_span", [0, size]), Q("range", [0, NONE]), Q("holes", [0, NONE, 1])]
    for i in range(1, len(O) + 1):
        qs += [Q("previous", m=[i]), Q("next", m=[i]), Q("conflicting", m=[i])]
    return qs


def rand_edit(r, n, objs):
    """A random edit of a collection that holds about n matches."""
    ids = list(range(1, objs + 1))
    op = r.choice(["append", "append", "insert", "insert", "extend", "iadd", "setitem", "setitem", "delitem", "delitem",
                   "pop", "remove", "remove", "remove", "setslice", "delslice", "keepslice", "reverse", "clear", "extself", "none", "misput"])
    if op in ("clear", "extself") and r.random() < 0.7:
        op = "remove"
    if op == "append":
        return E(op, m=[r.choice(ids)])
    if op in ("insert", "setitem"):
        return E(op, [r.randint(-n - 2, n + 1)], [r.choice(ids)])
    if op == "misput":
        how = r.choice(["insert", "insert", "setitem", "delitem", "pop", "value", "single"])
        return E(op, m=[r.choice(ids)], how=how, x=r.choice(["half", "none", "text", "half", "none", "text", "zero"]))
    if op in ("extend", "iadd"):
        return E(op, m=[r.choice(ids) for _ in range(r.randint(0, 3))])
    if op in ("delitem", "pop"):
        return E(op, [r.choice([-1, 0, r.randint(-n - 1, n + 1)])])
    if op == "remove":
        return E(op, m=[r.choice(ids)])
    if op == "setslice":
        sl = rand_slice(r, n)
        return E(op, sl, [r.choice(ids) for _ in range(r.randint(0, 3))], it=r.random() < 0.3)
    if op in ("delslice", "keepslice"):
        return E(op, rand_slice(r, n))
    return E(op)


def rejections(r, O, n):
    """Offering a match of the wrong kind (object 1 of the table is of the other kind)."""
    how = r.choice(["append", "insert", "extend", "setitem"])
    a = [r.randint(0, n)] if how == "insert" else [0]
    if how == "setitem" and n == 0:
        how = "append"
    return E("reject", a, [1], how=how)


def edit_script(sid, r, lookups=True):
    marker = r.random() < 0.15
    X, O, size = world(r, marker=marker)
    ids = list(range(1, len(O) + 1))
    init = [r.choice(ids) for _ in range(r.randint(0, 5))]
    evs = []
    if r.random() < 0.7:
        evs.append(E("none", q=[rand_lookup(r, X, O, init, size) for _ in range(r.randint(1, 4))]))
    for _ in range(r.randint(1, 6)):
        e = rand_edit(r, len(init), len(O))
        if r.random() < 0.4:
            e["q"] = [rand_lookup(r, X, O, init, size) for _ in range(r.randint(1, 3))]
        evs.append(e)
    evs[-1]["q"] = evs[-1]["q"] + probe(X, O, size)
    return dict(id=sid, cls="Markers" if marker else "Matches", X=X, O=O, init=init, ev=evs)


def pure_script(sid, r):
    """Only lookups, existing and absent keys, the returned lists emptied by the caller."""
    X, O, size = world(r)
    ids = list(range(1, len(O) + 1))
    init = r.sample(ids, r.randint(1, len(ids)))
    qs = []
    for _ in range(r.randint(2, 10)):
        q = rand_lookup(r, X, O, init, size, None if r.random() < 0.8 else ["holes"])
        q["abuse"] = r.random() < 0.7
        if r.random() < 0.5:
            q["hp"], q["p"], q["ix"] = False, [], NONE
        qs.append(q)
        if r.random() < 0.3:
            qs.append(dict(q))
    return dict(id=sid, cls="Matches", X=X, O=O, init=init, ev=[E("none", q=qs), E("none", q=probe(X, O, size))])


def geometry_script(sid, r, ops=None, nq=30):
    X, O, size = world(r, maxlen=12)
    ids = list(range(1, len(O) + 1))
    init = r.sample(ids, r.randint(1, len(ids))) if r.random() < 0.97 else []
    qs = [rand_lookup(r, X, O, init, size, ops) for _ in range(nq)]
    return dict(id=sid, cls="Matches", X=X, O=O, init=init, ev=[E("none", q=qs)])


def hole_script(sid, r):
    s = geometry_script(sid, r, ["holes"], 25)
    return s


def reject_script(sid, r):
    marker = r.random() < 0.5
    X, O, size = world(r, marker=marker)
    O[0]["mark"] = not marker
    ids = list(range(2, len(O) + 1))
    init = [r.choice(ids) for _ in range(r.randint(0, 4))]
    evs = [E("none", q=[rand_lookup(r, X, O, init, size) for _ in range(2)])] if r.random() < 0.5 else []
    for _ in range(r.randint(1, 3)):
        evs.append(rejections(r, O, len(init)))
    evs[-1]["q"] = probe(X, O, size)
    return dict(id=sid, cls="Markers" if marker else "Matches", X=X, O=O, init=init, ev=evs)
