"""Driver for the rule engine and conflict solving: modules Rules, Conflict / RulesTrace."""
import types

from common import NONE, R, guarded
from store import NAMES, TAGS, apart, prefixer, world

# ------------------------------------------------------------------ the real code


def solver(kind):
    if not kind:
        return None

    def solve(own, other):
        if kind == "default":
            return "__default__"
        if kind == "self":
            return own
        if kind == "other":
            return other
        if kind == "keep":
            return None
        return other if len(other) > len(own) else own
    return solve


def spotter(o):
    return lambda text: (o["s"], o["e"])


def conflict_solver(r):
    """The rule of the library, or one with another default solver."""
    from rebulk.processors import ConflictSolver
    if not r["arg"]:
        return ConflictSolver
    return type("ConflictSolver", (ConflictSolver,), {"default_conflict_solver": property(lambda self: solver(r["arg"][0]))})


class Run:
    def __init__(self, script):
        self.s = script
        self.text = "".join(script["X"])
        self.evs = []
        self.objs = []
        self.ids = {}
        self.ctx = {"on": script["ctx"]}

    def saw(self, context):
        return context is self.ctx

    def enc(self, ms):
        return [self.ids.get(id(m), 0) for m in ms]

    def snap(self):
        return [[o.name or ""] + list(o.tags) for o in self.objs]

    # -- rules
    def make_class(self, i, r, known):
        from rebulk.rules import (AppendMatch, AppendTags, CustomRule, RemoveMatch, RemoveTags, RenameMatch, Rule)
        run = self

        def cons(c):
            k = c["k"]
            if k == "remove":
                return RemoveMatch if c["cls"] else RemoveMatch()
            if k == "append":
                return AppendMatch(c["name"]) if c["name"] else (AppendMatch if c["cls"] else AppendMatch())
            if k == "rename":
                return RenameMatch(c["name"])
            if k == "tag":
                return AppendTags(list(c["tags"]))
            return RemoveTags(list(c["tags"]))

        plain = r["cons"][0]["k"] == "none"
        attrs = {"priority": r["prio"]} if r["prio"] else {}      # 0 is the default
        if r.get("level") is not None:
            attrs["log_level"] = r["level"]
        if not plain:
            made = [cons(c) for c in r["cons"]]
            attrs["consequence"] = made if r["multi"] else made[0]
        if r["deps"]:
            deps = [known[d] for d in r["deps"]]
            if r["depform"] == 1:
                deps = [d() for d in deps]
            attrs["dependency"] = deps[0] if len(deps) == 1 and r["depform"] != 2 else deps

        def enabled(self, context):
            return {"yes": True, "no": False}.get(r["on"], bool(context.get("on")) if context else False)

        def select(matches):
            sel, arg = r["sel"], r["arg"]
            if sel == "named":
                return matches.named(arg[0])
            if sel == "tagged":
                out = []
                for m in matches.tagged(arg[0]):
                    if not any(m is x for x in out):
                        out.append(m)
                return out
            if sel == "all":
                return list(matches)
            if sel == "private":
                return [m for m in matches if m.private]
            if sel == "sorted":
                return matches.range(0)
            if sel == "ids":
                return [run.objs[x - 1] for x in r["ids"]]
            if sel == "start":
                return matches.starting(r["at"])
            if sel == "index":
                return matches.at_index(r["at"])
            if sel == "over":
                return matches.at_match(matches.markers[0]) if matches.markers else []
            return []

        def when(self, matches, context):
            if r["cls"] == "Spy" and run.s["how"] == "engine":
                run.adopt(matches)
            seen = run.enc(matches)
            marks = run.enc(matches.markers)
            snap = run.snap()
            got = select(matches)
            ms = run.enc(got)
            shape = r["shape"]
            if r["one"]:
                got, ms = (got[0] if got else None), ms[:1]
            elif shape == "tuple":
                got = tuple(got)
            elif shape == "live" and r["sel"] == "all" and not r["multi"]:
                got = matches                   # the collection itself
            elif shape == "gen" and got:
                got = (m for m in list(got))
            elif shape == "none" and not got:
                got = None
            run.response[id(self)] = got
            run.evs.append(dict(op="when", i=run.index[id(self)], C=seen, K=marks, snap=snap, ms=ms,
                                ctx=run.saw(context)))
            run.answers[id(self)] = ms
            if r["sets"]:
                context["on"] = r["sets"] == "on"
            return got

        def then(self, matches, when_response, context):
            run.evs.append(dict(op="then", i=run.index[id(self)], same=when_response is run.response[id(self)],
                                ctx=run.saw(context)))
            if not plain:
                return Rule.then(self, matches, when_response, context)
            return None

        attrs.update(enabled=enabled, when=when, then=then)
        base = CustomRule if plain else Rule
        return type(r["cls"], (base,), attrs)

    def rules(self):
        """What is given to Rules / Rebulk.rules, in registration order (built-in ones left out)."""
        import abc

        from rebulk.rules import Rule
        self.index, self.response, self.answers = {}, {}, {}
        known = {}
        # dependencies may be on classes registered later or never: create them all first
        user = [(i + 1, r) for i, r in enumerate(self.s["rules"]) if r["cls"] not in ("ConflictSolver", "PrivateRemover")]
        absent = {d for _, r in user for d in r["deps"]} - {r["cls"] for _, r in user}
        for d in absent:
            known[d] = type(d, (Rule,), {"when": lambda self, m, c: None, "priority": 0})
        todo = {}
        for i, r in user:
            if r["cls"] not in known:
                known[r["cls"]] = None
        # two passes: classes first, dependencies patched in afterwards
        for i, r in user:
            if known[r["cls"]] is None:
                bare = dict(r, deps=[])
                known[r["cls"]] = self.make_class(i, bare, known)
                todo[r["cls"]] = r
        for name, r in todo.items():
            if r["deps"]:
                deps = [known[d] for d in r["deps"]]
                if r["depform"] == 1:
                    deps = [d() for d in deps]
                known[name].dependency = deps[0] if len(deps) == 1 and r["depform"] != 2 else (
                    tuple(deps) if r["depform"] == 3 else deps)
        out = []
        for i, r in user:
            cls = known[r["cls"]]
            if r["reg"] == "inst" or r["prio"] != cls.priority:
                inst = cls()
                if r["prio"] != cls.priority:
                    inst.priority = r["prio"]
                out.append(inst)
            elif r["reg"] == "module":
                mod = types.ModuleType("rules_%d" % i)
                cls.__module__ = mod.__name__
                setattr(mod, r["cls"], cls)
                mod.Rule = Rule                       # an imported name
                mod.ABCMeta = abc.ABCMeta

                def helper(matches):                  # a function of the module
                    raise AssertionError("not a rule")
                helper.__module__ = mod.__name__
                mod.helper = helper
                out.append(mod)
            else:
                out.append(cls)
        return out

    def number(self, rules):
        """Instances actually registered, in order: their position is their id."""
        for i, inst in enumerate(rules):
            self.index[id(inst)] = i + 1

    # -- manual collection
    def manual(self):
        from rebulk.match import Match, Matches
        from rebulk.processors import PrivateRemover
        from rebulk.rules import Rules
        for o in self.s["O"]:
            fmt = "".join(o["fm"])
            self.objs.append(Match(
                o["s"], o["e"], value="".join(o["lit"]) or None, name=o["n"] or None, tags=list(o["t"]),
                marker=o["mark"], parent=self.objs[o["par"] - 1] if o["par"] else None, private=o["priv"] or None,
                input_string=self.text or None, formatter=prefixer(fmt) if fmt else None,
                conflict_solver=solver(o["sv"])))
            apart(self.objs[-1], o)
        self.ids = {id(o): i + 1 for i, o in enumerate(self.objs)}
        c = Matches([self.objs[i - 1] for i in self.s["init"]], self.text or None)
        for k in self.s["K"]:
            c.markers.append(self.objs[k - 1])
        if self.s["init"] and self.s["touch"]:        # indexes already in use
            c.named("x"), c.tagged("t"), c.starting(0), c.ending(1), c.at_index(0)
        rules = Rules()
        rest = self.rules()
        for r in self.s["rules"]:
            if r["cls"] == "ConflictSolver":
                rules.load(conflict_solver(r))
            elif r["cls"] == "PrivateRemover":
                rules.load(PrivateRemover)
            else:
                rules.load(rest.pop(0))
        self.number(rules)
        got = rules.execute_all_rules(c, self.ctx)
        ret = [[self.index[id(rule)] if resp is self.response.get(id(rule)) else 0] + (self.answers.get(id(rule)) or [])
               for rule, resp in got if type(rule).__name__ not in ("ConflictSolver", "PrivateRemover")]
        return c, ret, True

    # -- a whole engine
    def engine(self):
        from rebulk import Rebulk
        from rebulk.processors import PrivateRemover
        own = [conflict_solver(r) for r in self.s["rules"] if r["cls"] == "ConflictSolver" and r["arg"]]
        rb = Rebulk(default_rules=False).rules(own[0], PrivateRemover) if own else Rebulk()
        for i in self.s["init0"]:
            o = self.s["O"][i - 1]
            kw = {}
            if o["n"]:
                kw["name"] = o["n"]
            if o["t"]:
                kw["tags"] = list(o["t"])
            if o["lit"]:
                kw["value"] = "".join(o["lit"])
            if o["fm"]:
                kw["formatter"] = prefixer("".join(o["fm"]))
            if o["priv"]:
                kw["private"] = True
            if o["mark"]:
                kw["marker"] = True
            if o["sv"]:
                kw["conflict_solver"] = solver(o["sv"])
            if o["rs"] != NONE:
                kw[o["told"] + "_match_processor"] = mover(o)
            rb.functional(spotter(o), **kw)
        rb.rules(*self.rules())
        self.number(rb.effective_rules({}))
        c = rb.matches(self.text, self.ctx)
        return c, [], False

    def adopt(self, matches):
        """Give the matches found by the engine their ids (they come in registration order)."""
        table = {}
        for group, ids in ((matches, self.s["init"]), (matches.markers, self.s["K"])):
            for m, i in zip(group, ids):
                table[i] = m
        if len(table) == len(self.s["O"]):
            self.objs = [table[i + 1] for i in range(len(self.s["O"]))]
        self.ids = {id(m): i for i, m in table.items()}


def drive(script):
    run = Run(script)
    k, v = guarded(run.manual if script["how"] == "manual" else run.engine)
    if k == "ok":
        c, ret, has = v
        end = dict(op="end", r=R("ok"), C=run.enc(c), K=run.enc(c.markers), snap=run.snap(), ret=ret, hasret=has)
    else:
        end = dict(op="end", r=R(k), C=[], K=[], snap=[], ret=[], hasret=False)
        if script.get("debug"):
            print(v)
    table = [{k: v for k, v in o.items() if k != "told"} for o in script["O"]]
    return {"id": script["id"], "X": script["X"], "O": table, "K": script["K"], "init": script["init"],
            "ctx": script["ctx"], "rules": [spec_rule(r) for r in script["rules"]], "ev": run.evs + [end]}


def spec_rule(r):
    return {f: r[f] for f in ("sets", "cls", "prio", "deps", "on", "sel", "arg", "ids", "at", "one", "multi", "cons")}


# ------------------------------------------------------------------ scripts


def mover(o):
    def move(m):
        apart(m, o)
    return move


def rule(cls, prio=0, deps=(), on="yes", sel="nothing", arg=(), ids=(), at=0, one=False, multi=False, cons=None, shape="list",
         reg="class", depform=0, sets=""):
    return dict(cls=cls, prio=prio, deps=list(deps), on=on, sel=sel, arg=list(arg), ids=list(ids), at=at, one=one, multi=multi,
                cons=cons or [dict(k="none", name="", tags=[], cls=False)], shape=shape, reg=reg, depform=depform, sets=sets)


CONFLICT = rule("ConflictSolver", 2048)
PRIVATE = rule("PrivateRemover", -2048)
SPY = rule("Spy", 100000)


def conflict_world(r, solvers, parents, n=None):
    X, O, size = world(r, n=n or r.randint(2, 7), text=True, dup=0.35, maxlen=r.choice([4, 6, 8]), fmt=0.05)
    for o in O:
        o["sv"] = r.choice(["", "", "default", "self", "other", "keep", "long"]) if solvers and r.random() < 0.7 else ""
        if not parents:
            o["par"] = 0
        o["priv"] = r.random() < 0.2
        o["told"] = r.choice(["pre", "post"])
    return X, O, size


def conflict_script(sid, r, solvers=False):
    engine = r.random() < 0.4
    X, O, size = conflict_world(r, solvers, not engine and r.random() < 0.5)
    ids = list(range(1, len(O) + 1))
    base = dict(CONFLICT)
    if solvers and r.random() < 0.3:
        base["arg"] = [r.choice(["self", "other", "keep", "long", "default"])]
    return finish(sid, r, engine, X, O, ids, [base, PRIVATE, SPY])


def finish(sid, r, engine, X, O, ids, rules, ctx=None):
    """ids: order of the matches; markers are those flagged so."""
    mine = [i for i in ids if not O[i - 1]["mark"]]
    marks = [i for i in ids if O[i - 1]["mark"]]
    if not engine:
        r.shuffle(mine)
        if r.random() < 0.4 and not any(x["cls"] == "PrivateRemover" for x in rules):
            mine = mine[:r.randint(1, len(mine))] if mine else mine
    return dict(id=sid, how="engine" if engine else "manual", X=X, O=O, init=mine, init0=ids, K=marks,
                rules=[dict(x) for x in rules], ctx=bool(r.random() < 0.5) if ctx is None else ctx, touch=r.random() < 0.6)


CLS = ["Ra", "Rb", "Rc", "Rd", "Re", "Rf"]


def order_script(sid, r):
    n = r.randint(1, 6)
    names = r.sample(CLS, n)
    prios = r.choice([[0], [0], [0, 1], [0, 1, -5], [0, 5000, -3000], [0, 2048, 2049, -2048, 1500, -1500]])
    # mostly acyclic: depend on names that come earlier in a hidden order
    hidden = names[:]
    r.shuffle(hidden)
    cyc = r.random() < 0.12
    rules = []
    for c in names:
        pool = hidden[:hidden.index(c)] if not cyc else hidden
        deps = [d for d in pool if r.random() < 0.4]
        if r.random() < 0.1:
            deps.append("Absent")
        if r.random() < 0.05:
            deps.append(c)
        rules.append(rule(c, r.choice(prios), deps, on=r.choice(["yes"] * 6 + ["no", "ctx"]),
                          reg=r.choice(["class", "inst", "module"]), depform=r.randint(0, 3)))
    if r.random() < 0.12:
        twin = dict(r.choice(rules), reg="inst")
        if r.random() < 0.5:
            twin["prio"] = r.choice(prios + [7])
        rules.insert(r.randint(0, len(rules)), twin)
        # a class registered twice keeps the class-level priority of its first occurrence
        rules = normal(rules)
    engine = r.random() < 0.4
    X, O, size = conflict_world(r, False, False, n=2)
    for o in O:
        o["priv"] = False
    base = [CONFLICT, PRIVATE, SPY] if engine else ([CONFLICT] if r.random() < 0.3 else [])
    return finish(sid, r, engine, X, O, [1, 2], base + rules)


def normal(rules):
    """Rules of one class share everything but the priority."""
    first = {}
    out = []
    for x in rules:
        f = first.setdefault(x["cls"], x)
        out.append(dict(f, prio=x["prio"], reg="inst" if x is not f else f["reg"]))
    return out


def consequence(r, names=("x", "y", "xy", "n")):
    k = r.choice(["remove", "remove", "append", "append", "rename", "rename", "tag", "untag"])
    return dict(k=k, name=r.choice(list(names)) if k == "rename" or (k == "append" and r.random() < 0.5) else "",
                tags=[r.choice(TAGS + ["new"]) for _ in range(r.randint(1, 2))] if k in ("tag", "untag") else [],
                cls=r.random() < 0.5)


def acting_rule(r, cls, ids, size):
    sel = r.choice(["named", "named", "tagged", "all", "ids", "ids", "ids", "private", "sorted", "start", "index", "over", "nothing"])
    one = r.random() < 0.35
    x = rule(cls, r.choice([0, 0, 0, 1, -1, 3000]), on=r.choice(["yes"] * 5 + ["no", "ctx"]), sel=sel,
             arg=[r.choice(["x", "y", "xy", "n"]) if sel == "named" else r.choice(TAGS + ["new"])],
             ids=[r.choice(ids) for _ in range(r.randint(1, 3))], at=r.randint(0, size), one=one,
             cons=[consequence(r)] if r.random() < 0.9 else None,
             shape=r.choice(["list", "tuple", "gen", "none", "live", "live"]), reg=r.choice(["class", "inst", "module"]))
    if r.random() < 0.2:
        n = r.randint(1, 3)
        x.update(sel="ids", ids=[r.choice(ids) for _ in range(n + r.randint(0, 1))], one=False, multi=True,
                 cons=[consequence(r) for _ in range(n)])
        if n == 1 and r.random() < 0.5:
            x["one"] = True
    return x


def acting_script(sid, r, engine=None, private=0.1, nrules=None):
    engine = r.random() < 0.35 if engine is None else engine
    X, O, size = conflict_world(r, r.random() < 0.2, not engine)
    for o in O:
        o["priv"] = r.random() < private
    ids = list(range(1, len(O) + 1))
    if r.random() < 0.5:
        for i in ids:
            if r.random() < 0.2:
                O[i - 1]["mark"] = True
    own = [i for i in ids if not O[i - 1]["mark"]]
    if not own:
        O[0]["mark"] = False
        own = [1]
    for o in O:                     # a parent is an ordinary match
        if o["par"] and O[o["par"] - 1]["mark"]:
            o["par"] = 0
    rules = [acting_rule(r, c, own, size) for c in r.sample(CLS, nrules or r.randint(1, 4))]
    base = [CONFLICT, PRIVATE, SPY] if engine else r.choice([[], [], [CONFLICT], [PRIVATE], [CONFLICT, PRIVATE]])
    return finish(sid, r, engine, X, O, ids, base + rules)


def privacy_script(sid, r):
    s = acting_script(sid, r, engine=r.random() < 0.75, private=0.4, nrules=r.randint(1, 3))
    for x in s["rules"]:
        if x["cls"].startswith("R") and r.random() < 0.6:
            x.update(sel=r.choice(["private", "over", "all", "index"]), cons=rule("q")["cons"], multi=False)
        if x["cls"].startswith("R") and r.random() < 0.4:
            x["prio"] = r.choice([2049, 2048, 2047, 1500, 1000, -1000, -1500, -2047, -2048, -2049])
    if s["how"] == "manual" and not any(x["cls"] == "PrivateRemover" for x in s["rules"]):
        s["rules"] = [dict(CONFLICT), dict(PRIVATE)] + [x for x in s["rules"] if x["cls"] != "ConflictSolver"]
    return s


def trigger_script(sid, r):
    s = acting_script(sid, r, nrules=r.randint(2, 5))
    for x in s["rules"]:
        if x["cls"].startswith("R"):
            x["on"] = r.choice(["yes", "yes", "no", "ctx", "ctx"])
            if r.random() < 0.3:
                x["sets"] = r.choice(["on", "off"])
            if r.random() < 0.4:
                x["cons"], x["multi"] = rule("q")["cons"], False
    return s


def corrupt(s, r):
    e = r.choice(s["ev"])
    if e["op"] == "when":
        e["C"].append(1)
    elif e["op"] == "then":
        e["same"] = False
    elif e["r"]["k"] == "ok":
        e["C"].append(1)
    else:
        return False
    return True


# ------------------------------------------------------------------ toposort


def topo_drive(script):
    from rebulk.toposort import CyclicDependency, toposort, toposort_flatten
    data = {k: set(v) for k, v in script["g"]}
    before = {k: set(v) for k, v in data.items()}
    layers, cyc = [], False

    def run():
        for layer in toposort(data):
            layers.append(sorted(layer))
    k, v = guarded(run)
    if k == "err" and isinstance(v, CyclicDependency):
        k = "cyclic"
    k2, flat = guarded(lambda: toposort_flatten(data))
    ev = dict(op="topo", layers=layers, k=k, flat=flat if k2 == "ok" else [], pure=data == before)
    return {"id": script["id"], "g": [[a, b] for a, b in script["g"]], "ev": [ev]}


def topo_script(sid, r):
    n = r.randint(0, 6)
    nodes = list(range(1, n + 1))
    hidden = nodes[:]
    r.shuffle(hidden)
    cyc = r.random() < 0.3
    g = []
    for x in nodes:
        pool = hidden if cyc else hidden[:hidden.index(x)] + [x, 8, 9]
        g.append([x, sorted({d for d in pool if r.random() < 0.3})])
    return dict(id=sid, g=g)
