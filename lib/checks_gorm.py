"""Checks of the gorm adapter: C06 to C09."""
import json

import gen
from gen import Rand
from vlib import cp, text

ITEM_COLS = {"n": ["i", "j", "b", "c", "id", "I", "J"], "s": ["s", "t", "S", "T"], "d": ["d", "D"]}
HOWS = ["apply", "scope", "wire", "scope2"]


def readable(e):
    out = {"kind": e.get("k"), "result": e.get("r"), "message": e.get("m2"), "model": e.get("m")}
    if "s" in e:
        out["query"] = text(e["s"])
    if "w" in e:
        out["where"] = text(e["w"])
    for k in ("tb", "how", "m"):
        if k in e:
            out[k] = e[k]
    if "ids" in e:
        out["ids"] = [text(i) for i in e["ids"]]
    return out


def write_tables(c, tables):
    p = c.path("tables.ndjson")
    with open(p, "w") as fh:
        for t in tables:
            fh.write(json.dumps(t) + "\n")
    return p


def crash(k, o):
    e = dict(k)
    e.update(r=o, ids=[])
    return e


def row_derivations(c):
    """All small queries that make sense on numeric columns."""
    return (c.model("MQGenRows", constants={"MaxFuel": 2, "Emit": "TRUE"}) +
            c.model("MQGenRowsDeep", constants={"MaxFuel": c.pick(3, 4), "Emit": "TRUE"}))


DIALECTS = ["sqlite", "mysql", "postgres"]


def c06(c):
    b = c.build("mqgorm")
    r = Rand(c.seed * 1000 + 61)
    names = ["i", "j", "s", "t", "b", "c", "d", "ID", "I", "S"]
    person = ["id", "name", "title", "Name", "NickName", "code_a", "Label", "city"]
    paths = ["Dept.name", "Boss.name", "Badge.Name", "Dept.title", "Boss.NickName"]
    cases = []
    g = gen.Gen(r, names=names, fns=["date"], paths=[], oddlists=0.01)
    gp = gen.Gen(r, names=person, fns=["date"], paths=paths, oddlists=0.01)
    gn = gen.Gen(r, names=["i", "j", "s", "t", "ID", "deleted_at"], fns=["date"], paths=[], oddlists=0.01)
    hostile = gen.STRINGS + ["' or 1=1 --", "\\' or 1=1 --", "?' or '?'='?", "a?b", "@s", "@name and @id", ":s", "$2", "`i`",
                             "%!s(MISSING)", "?, ?", "(?)", "x' UNION SELECT 1", "NULL", "\x00'", "'; --", "{{.}}", "%v"]
    for s in hostile:
        for form in g.string_tok(s):
            for q in ("s = %s", "%s = s", "s in [%s]", "s in [%s, 'x', %s]", "s between %s and %s", "s like %s and t = %s",
                      "date(s) = %s", "date(%s) = d", "not s = %s or i = 1", "%s", "s not like %s"):
                cases.append({"m": "items", "s": cp(q.replace("%s", form)), "how": r.choice(HOWS)})
    for x in gen.blocks("'"):
        cases.append({"m": "items", "s": cp(r.choice(("s = '%s'", "s in ['%s']", "s like '%s'")).replace("%s", x)), "how": r.choice(HOWS)})
    for i in gen.INTS:
        for q in ("i = %s", "i in [%s,1,%s]", "i between %s and %s", "%s < j"):
            cases.append({"m": "items", "s": cp(q.replace("%s", i)), "how": r.choice(HOWS)})
    ops = [x for k in gen.KEYS.values() for x in k] + ["not like"]
    for o in ops:
        for l, rr in (("i", "1"), ("1", "i"), ("true", "false"), ("null", "b"), ("s", "'x'"), ("'i'", "'j'"), ("(i)", "(2)")):
            cases.append({"m": "items", "s": cp("%s %s %s" % (l, o, rr)), "how": "apply"})
    fixed = len(cases)
    while len(cases) < fixed + c.pick(4000, 42000):
        gg, m = r.choice([(g, "items")] * 7 + [(gp, "persons")] * 2 + [(gn, "notes")])
        s = gen.render(r, gg.query(), wild=r.chance(0.7))
        if len(s) > 300:
            continue
        cases.append({"m": m, "s": cp(s), "how": r.choice(HOWS)})
    # every case in the dialect it fell on, the short ones in all of them
    cases = [dict(k, d=d) for k in cases for d in (DIALECTS if len(k["s"]) < 25 else [r.choice(DIALECTS)])]
    t = write_tables(c, [{}])
    evs = c.run_cases(b, "cond", cases, extra=[t], crash_event=lambda k, o: dict(k, k="cond", r=o))
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in cases))
    c.sample(*[text(k["s"]) for k in cases[-5:]])
    c.judge(c.validate("MQGormTrace", evs, tables=t), readable)


def c07(c):
    b = c.build("mqgorm")
    r = Rand(c.seed * 1000 + 71)
    tables = gen.item_tables(c.seed * 1000 + 72, c.pick(12, 40))
    t = write_tables(c, tables)
    nt = len(tables)
    cases = []
    for x in row_derivations(c):
        for _ in range(c.pick(1, 3)):
            cases.append({"m": "items", "s": x["s"], "tb": r.randrange(2, nt + 1), "how": r.choice(HOWS)})
    c.sample(*[text(k["s"]) for k in cases[-3:]])
    for q in gen.typed(c.seed * 1000 + 73, c.pick(5000, 60000), ITEM_COLS):
        cases.append({"m": "items", "s": cp(q), "tb": r.randrange(2, nt + 1) if r.chance(0.98) else 1, "how": r.choice(HOWS)})
    c.sample(*[text(k["s"]) for k in cases[-5:]])
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in cases))
    evs = c.run_cases(b, "rows", cases, extra=[t], crash_event=lambda k, o: dict(k, k="rows", r=o, ids=[]))
    c.judge(c.validate("MQGormTrace", evs, tables=t), readable)


def quote(v):
    return str(v) if isinstance(v, int) else "'%s'" % v


def person_names():
    """Every way to name something of the models, and many names that are nothing."""
    own = set()
    for f in gen.PERSON_FIELDS + gen.PERSON_COLS:
        own.update(gen.case_forms(f))
    own.update(["nickname", "nickName", "addr", "Addr", "city_addr", "people", "persons", "rowid", "oid", "deptname",
                "Base", "base", "dept_title", "person_id", "secret", "Dept__name", "boss", "x", "i", "count"])
    rel = set()
    for rn, fields in (("Boss", gen.PERSON_FIELDS + gen.PERSON_COLS), ("Dept", gen.DEPT_FIELDS + gen.DEPT_COLS),
                       ("Badge", gen.BADGE_FIELDS + gen.BADGE_COLS), ("Town", gen.DEPT_FIELDS + gen.DEPT_COLS),
                       ("Seal", gen.SEAL_FIELDS + gen.SEAL_COLS),
                       ("Awards", gen.BADGE_FIELDS[:3] + ["title", "city"]), ("Staff", ["ID", "name", "BossID", "town_id"]),
                       ("Clubs", ["id", "Name", "city"])):
        for f in fields + ["x", "rowid"]:
            rel.update(rn + "." + x for x in gen.case_forms(f))
        rel.update(v + ".name" for v in gen.case_forms(rn))
    rel.update(["people.name", "depts.name", "Name.x", "Hidden.x", "Addr.City", "Base.CreatedBy", "Nope.id", "Boss.Dept.name",
                "Dept.head.name", "Boss.Boss.id", "Boss.Dept", "Dept.Dept", "main.people.id", "Badge.Dept",
                "Home.TownID", "Home.Town", "awards.name", "clubs.id", "Dept.Staff", "Staff.Awards.id", "Town.Clubs", "Land.id"])
    # a name that begins with a keyword is not a name
    return [[x for x in sorted(ns) if not any(p.lower().startswith("not") for p in x.split("."))] for ns in (own, rel)]


def c08(c):
    b = c.build("mqgorm")
    r = Rand(c.seed * 1000 + 81)
    tables = gen.person_tables(c.seed * 1000 + 82, c.pick(6, 16))
    raw = [{m: t[m].pop("raw") for m in t} for t in tables]
    for x in tables:
        x["others"] = x["persons"]
    t = write_tables(c, tables)
    own, rel = person_names()
    cases = []
    hows = HOWS + ["joined", "joinedafter", "first", "alias", "schema"]

    def values(k, name):
        """Values the name should match, and values of other columns it should not."""
        out = []
        rows = raw[k]["persons"]
        for row in r.sample(rows, 2):
            out += [v for v in row if v is not None]
        for m in ("depts", "badges", "awards", "seals"):
            out += [v for v in r.choice(raw[k][m]) if v is not None]
        return out

    def add(q, k, model=None, how=None):
        model = model or r.choice(["persons", "persons", "others"])
        cases.append({"m": model, "s": cp(q), "tb": k + 1, "how": how or r.choice(hows)})

    for name in own + rel:
        for _ in range(c.pick(1, 4)):
            k = r.randrange(len(tables))
            vs = values(k, name)
            ts = [quote(v) for v in vs if isinstance(v, str)]
            ns = [quote(v) for v in vs if isinstance(v, int)]
            add("%s in [%s]" % (name, ",".join(ts + ns)), k)
            add("%s = %s" % (name, r.choice(ts)), k)
            add("%s in [%s] or Dept.name = %s" % (name, ",".join(r.sample(ts, 3)), r.choice(ts)), k)
            add("Badge.id is not null and %s in [%s]" % (name, ",".join(ts + ns)), k)
            add("%s is null" % name, k)
            add("not %s is null and Boss.%s is null" % (name, r.choice(["name", "title", "id", "dept_id"])), k)
            add("%s is not null" % name, k, how="first")
    # names below operators, functions and lists
    for name in ["x", "Hidden", "Dept.x", "Boss.Dept.name", "Nope.id", "name", "Dept.name", "Boss"]:
        for q in ("id = 1 or %s = 1", "not (id = 1 and %s = 1)", "date(%s) = 'x'", "1 = %s", "%s between 1 and 2", "date(date(%s)) is null",
                  "id in [1] and (%s in [1] or id = 2)", "%s", "not %s", "(%s) is null", "(id = 1) = (%s = 1)", "lower(%s) = 'x'",
                  "id = 1 or f()", "DATE(%s) = 1"):
            add(q.replace("%s", name), r.randrange(len(tables)))
    # the related models by themselves
    for model, mine in (("depts", gen.DEPT_COLS + gen.DEPT_FIELDS), ("badges", gen.BADGE_COLS + gen.BADGE_FIELDS)):
        for name in mine + ["title", "HEADID", "dept_id", "Dept.id", "Person", "Person.id", "persons.id", model + ".id", "city"]:
            k = r.randrange(len(tables))
            vs = [quote(v) for row in raw[k][model] for v in row if v is not None]
            add("%s in [%s]" % (name, ",".join(r.sample(vs, 4))), k, model, r.choice(HOWS + ["unscoped"]))
            add("%s is null or id = 1" % name, k, model, r.choice(HOWS + ["unscoped"]))
            add("not %s is null or id > 2" % name, k, model, r.choice(HOWS + ["unscoped"]))
    cols = {"n": ["id", "BossID", "boss_id", "Dept.id", "Boss.id", "Dept.HeadID", "Badge.PersonID", "Boss.DeptID", "DeptID",
                  "town_id", "Boss.town_id", "Seal.id", "Badge.id"],
            "s": ["name", "Title", "NickName", "nick_name", "Label", "Code", "CODE", "Dept", "City", "Dept.name", "Dept.title",
                  "Dept.City", "Boss.name", "Boss.Name", "Boss.Dept", "Boss.NickName", "Badge.name", "createdBy", "Town.name", "Seal.name", "Seal.OwnerType"]}
    pool = sorted(set(v for x in raw for m in x for row in x[m] for v in row if isinstance(v, str)))
    for q in gen.typed(c.seed * 1000 + 83, c.pick(2500, 30000), cols, ints=["1", "2", "3", "4"], strs=pool):
        add(q, r.randrange(len(tables)))
    c.sample(*[text(k["s"]) for k in cases[:3] + cases[-3:]])
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in cases))
    evs = c.run_cases(b, "rows", cases, extra=[t], crash_event=lambda k, o: dict(k, k="rows", r=o, ids=[]))
    # the names alone, and names that differ a little, without asking the database
    names = []
    for name in own + rel:
        for v in {name, name.lower(), name.upper(), name.swapcase(), name.capitalize(), name + "x", name[:-1] or "x", name + "." + name,
                  name.replace("_", ""), name.replace(".", "_")}:
            q = "%s = 1" % v if r.chance(0.5) else "not (id = 2 or %s is null)" % v
            for m in ["persons", "others"] + r.sample(["depts", "badges", "items"], 1):
                names.append({"m": m, "s": cp(q), "how": r.choice(HOWS), "d": r.choice(DIALECTS)})
    evs += c.run_cases(b, "names", names, extra=[t], crash_event=lambda k, o: dict(k, k="names", r=o))
    c.judge(c.validate("MQGormTrace", evs, tables=t), readable)


ENDS = ["find", "find", "find", "count", "first", "pluck", "update", "update", "delete"]
DIRECT = ["raw", "and", "map", "not", "group", "in", "struct", "false", "clause"]


def session_readable(e):
    out = []
    for i, (st, o) in enumerate(zip(e["steps"], e["outs"])):
        x = {k: v for k, v in st.items() if v not in ("", 0, [])}
        if "qs" in x:
            x["qs"] = [text(q) for q in x["qs"]]
        if st["op"] == "end" or o["panic"]:
            x["outcome"] = dict(o, ids=[text(v) for v in o["ids"]])
        out.append(x)
    return {"tb": e["tb"], "steps": out}


class History:
    """A history that is built step by step; keeps track of what may be used."""

    def __init__(self, r, model, kind=""):
        self.r = r
        self.steps = []
        self.live = {}          # handle -> shared
        self.add({"op": "open", "m": model, "c": kind})

    def add(self, st):
        self.steps.append(st)
        n = len(self.steps)
        if st["op"] != "open" and not self.live[st["h"]]:
            del self.live[st["h"]]
        if st["op"] != "end":
            self.live[n] = st["op"] == "fork"
        return n

    def pick(self, newest=0.6):
        hs = sorted(self.live)
        return hs[-1] if self.r.chance(newest) else self.r.choice(hs)

    def finish(self):
        hs = sorted(self.live)
        self.r.shuffle(hs)
        for h in hs:
            for _ in range(2 if self.live[h] else 1):
                self.add({"op": "end", "h": h, "c": self.r.choice(ENDS)})
        return self.steps


class Queries:
    """Queries of a model for histories: mostly right, some wrong, some hostile."""

    def __init__(self, c, r):
        self.r = r
        cols = {"n": ["i", "j", "I", "id"], "s": ["s", "T"]}
        pcols = {"n": ["id", "BossID", "dept_id", "Dept.id", "Boss.id", "Badge.PersonID", "Badge.id", "Seal.id"],
                 "s": ["name", "Title", "Label", "code_a", "Dept.name", "Boss.Name", "Badge.name", "Seal.name"]}
        strs = ["name1", "name2", "title1", "title3", "name-d1", "name-d2", "name-b1", "code_a2"]
        own = {"n": ["id", "BossID", "dept_id"], "s": ["name", "Title", "Label"]}
        n = c.pick(600, 4000)
        sizes = dict(limit=90, variants=True)
        self.good = {"items": gen.typed(c.seed * 1000 + 91, n, cols, ints=["0", "1", "2"], **sizes),
                     "persons": gen.typed(c.seed * 1000 + 92, n, pcols, ints=["1", "2", "3"], strs=strs, **sizes)}
        self.own = {"items": self.good["items"],
                    "persons": gen.typed(c.seed * 1000 + 93, n // 2, own, ints=["1", "2", "3"], strs=strs, **sizes)}
        self.true = {"items": ["1=1", "i = 1 or 1 = 1", "not 1 = 2", "i is null or i is not null"],
                     "persons": ["1=1", "id > 0", "Dept.id is null or Dept.id is not null", "not 1 = 2"]}
        self.wrong = ["id = ", "(id = 1", "id = 1)", "id = 1 or", "or id = 1", "nope = 1", "Nope.id = 1", "id = 1 and nope = 2",
                      "id = 1) or (1 = 1", "1 = 1) --", "id = 'a", "f(id) = 1", "id = 1 or f()", "a.b.c = 1", "Hidden = 1",
                      "id between 1 and", "id = 1; 1 = 1", "id = 1 -- x", "1 = 1 /*", "id in 1", "is null", "'", "and",
                      "not", "Dept = 1 = ", "Dept.nope = 1", "id = 1 or Dept.nope = 1", "lower(s) = 'a'", "id ; drop",
                      "Awards.id = 1", "Staff.id is null", "id = 1 or Clubs.id = 1", "not Staff.name = 'name1'"]

    def one(self, m, good=False):
        r = self.r
        k = "persons" if m == "persons" else "items"
        x = r.random()
        if x < 0.7 or good:
            return r.choice(self.own[k] if r.chance(0.5) else self.good[k])
        if x < 0.8:
            return r.choice(self.true[k])
        if x < 0.88:
            return r.choice(["", "", " ", "\n\t "])
        q = r.choice(self.wrong)
        return q


def random_history(c, r, qs):
    m = r.choice(["items", "notes", "persons", "persons"])
    h = History(r, m, "none" if m != "notes" and r.chance(0.06) else "")
    for _ in range(r.choice([2, 3, 4, 5, 6, 8, 12])):
        x = r.random()
        at = h.pick()
        if x < 0.42:
            via = r.choice(["apply", "wire", "call", "scope", "scope", "direct"])
            n = r.choice([0, 1, 2, 2, 3]) if via in ("scope", "direct") else r.choice([1, 1, 1, 2])
            h.add({"op": "query", "h": at, "via": via, "qs": [cp(qs.one(m)) for _ in range(n)]})
        elif x < 0.62:
            h.add({"op": "where", "h": at, "c": r.choice(DIRECT)})
        elif x < 0.67:
            q = r.choice(qs.own["persons" if m == "persons" else "items"])
            h.add({"op": "group", "h": at, "via": r.choice(["apply", "wire"]), "qs": [cp(q)]})
        elif x < 0.72:
            other = r.choice(["order", "join", "debug"])
            if other == "join" and h.steps[0]["c"] == "none":
                other = "debug"         # gorm itself can not join relations without a model
            h.add({"op": "other", "h": at, "c": other})
        elif x < 0.9:
            if not h.live[at]:
                h.add({"op": "fork", "h": at})
            else:
                h.add({"op": "end", "h": at, "c": r.choice(ENDS)})
        else:
            shared = [x for x in h.live if h.live[x]]
            if shared:
                h.add({"op": "end", "h": r.choice(sorted(shared)), "c": r.choice(ENDS)})
            elif r.chance(0.3):
                h.add({"op": "open", "m": m})
    return h.finish()


def c09(c):
    b = c.build("mqgorm")
    r = Rand(c.seed * 1000 + 95)
    tables = gen.session_tables(c.seed * 1000 + 96, c.pick(5, 16))
    t = write_tables(c, tables)
    cases = []
    for m, kinds, depth, n in (("items", '{""}', 3, 3500), ("persons", '{""}', 3, 3500), ("notes", '{""}', c.pick(2, 3), 3500),
                               ("items", '{"none", "bad"}', 2, 900), ("persons", '{"none"}', 2, 700)):
        hs = c.model("MQSessionGen", constants={"Model": '"%s"' % m, "Kinds": kinds, "Depth": depth})
        for x in (hs if c.thorough else r.sample(hs, min(len(hs), n))):
            h = History(r, m, x["steps"][0]["c"])
            for st in x["steps"][1:]:
                h.add(st)
            cases.append({"tb": r.randrange(1, len(tables) + 1), "steps": h.finish()})
    qs = Queries(c, r)
    for _ in range(c.pick(3500, 40000)):
        cases.append({"tb": r.randrange(1, len(tables) + 1), "steps": random_history(c, r, qs)})
    c.cov["distinct_nontrivial"] = len(set(json.dumps(k["steps"]) for k in cases))
    evs = c.run_cases(b, "session", cases, extra=[t], crash_event=lambda k, o: dict(
        k="session", tb=k["tb"], steps=[dict({"m": "", "h": 0, "via": "", "c": "", "qs": []}, **s) for s in k["steps"]],
        outs=[{"panic": True, "err": True, "ids": [], "n": 0} for _ in k["steps"]]))
    c.sample(*[session_readable(e) for e in evs[-3:]])
    c.judge(c.validate("MQSessionTrace", evs, tables=t), session_readable)


CHECKS = {
    "C06": ("model_checking", c06),
    "C07": ("model_checking", c07),
    "C08": ("model_checking", c08),
    "C09": ("model_checking", c09),
}
