"""Checks of the ent adapters: C10 to C15."""
import gen
from checks_gorm import ITEM_COLS, row_derivations, write_tables
from gen import G0, G1, Rand, kw
from vlib import cp, text

DIALECTS = ["sqlite", "mysql", "postgres"]
AROUND = ["and", "andfirst", "or", "orfirst", "not", "notor", "notand", "mixed", "pair"]
NAMES = ["a", "b", "c2", "utf8mb4", "user_name", "createdAt", "ID", "HTTPServer", "userID", "order", "select", "x__y", "from",
         "ActivityType", "user_ID", "count", "a1b2", "distinct", "group", "aB", "parseURLs", "i", "j", "Is", "Name"]
HOSTILE = gen.STRINGS + ["' or 1=1 --", "?' or '?'='?", "a?b", "$2", "$1::int", "`i`", '"a"', "x' UNION SELECT 1", "NULL", "'; --",
                         "%!s(MISSING)", "(?)", "@p1", ":1", "\\"]


def readable(e):
    out = {"kind": e.get("k"), "result": e.get("r"), "message": e.get("m2")}
    if "s" in e:
        out["query"] = text(e["s"])
    if "qs" in e:
        out["queries"] = [text(q) for q in e["qs"]]
    if "w" in e:
        out["condition"] = text(e["w"])
    for k in ("tb", "how", "d", "pre", "off", "node", "vs", "p", "ps"):
        if k in e:
            out[k] = e[k]
    if "ids" in e:
        out["ids"] = [text(i) for i in e["ids"]]
    if "outs" in e:
        out["outs"] = [dict(o, w=text(o["w"])) for o in e["outs"]]
    return out


def record(c, b, mode, cases, tables=None, k=None):
    t = write_tables(c, tables or [{"items": {"columns": ["id"], "rows": []}}])
    evs = c.run_cases(b, mode, cases, extra=[t],
                      crash_event=lambda case, o: dict(case, k=mode, r=o, ids=[], w=[], vs=[], base=0, ps=[], outs=[], p={"t": "none"}))
    for e in evs:
        e["k"] = k or mode
    return evs, t


def edge_cond(r, d, node, lit, depth=None):
    """A query on a table of the graph."""
    cols = {"users": ["id", "age", "dept_id", "boss_id", "Age", "deptID"], "depts": ["id", "size", "lead_id", "leadID"],
            "groups": ["id", "age", "ID"], "cars": ["id", "age", "owner_id"], "cards": ["id", "size", "user_id"],
            "towns": ["id", "code", "age", "mayor_id", "Code", "nearCode"]}[node]
    edges = EDGES[node]
    x = r.random()
    if d > 0 and x < 0.5:
        name, to = r.choice(edges)
        if r.chance(0.25):
            return "has_edge(%s)" % name
        inner = edge_expr(r, d - 1, to, lit)
        return r.choice(["has_edge(%s, %s)", "has_edge( %s ,%s )", "has_edge(%s,%s,)"]) % (name, inner)
    if x < 0.6:
        op = r.choice(["=", "!=", "like", "not like", ">"])
        return "name %s %s" % (op, lit("s"))
    c = r.choice(cols)
    x = r.random()
    if x < 0.15:
        return "%s is %s" % (c, r.choice(["null", "not null"]))
    if x < 0.3:
        return "%s %s [%s]" % (c, r.choice(["in", "not in"]), ", ".join(lit("n") for _ in range(r.choice([0, 1, 2, 3]))))
    if x < 0.4:
        return "%s between %s and %s" % (c, lit("n"), lit("n"))
    if x < 0.5:
        return "%s %s %s" % (c, r.choice(["=", "<", ">="]), r.choice(cols))
    return "%s %s %s" % (c, r.choice(["=", "!=", "<", "<=", ">", ">="]), lit("n"))


def edge_expr(r, d, node, lit):
    n = r.choice([1, 1, 1, 2, 2, 3])
    out = ""
    for i in range(n):
        if i:
            out += r.choice([" and ", " or "])
        x = edge_cond(r, d, node, lit)
        y = r.random()
        if y < 0.15:
            x = "not " + x
        elif y < 0.25:
            x = "(%s)" % x
        elif y < 0.32:
            x = "not (%s)" % x
        elif d > 0 and y < 0.42:
            x = "(%s)" % edge_expr(r, d - 1, node, lit)
        elif x.startswith("has_edge") and y < 0.5:
            x = r.choice(["%s = true", "true = %s", "false != %s", "%s is null", "%s is not null", "%s in [false]", "%s >= 1"]) % x
        out += x
    return out


EDGES = {
    "users": [("dept", "depts"), ("staff", "users"), ("boss", "users"), ("groups", "groups"), ("friends", "users"), ("fans", "users"),
              ("cars", "cars"), ("card", "cards"), ("leads", "depts"), ("Boss", "depts"), ("bestFriends", "users"), ("car2", "cars"),
              ("Other_Groups", "groups"), ("town", "towns"), ("visited", "towns"), ("rules", "towns")],
    "towns": [("users", "users"), ("visitors", "users"), ("mayor", "users"), ("near", "towns"), ("nears", "towns"), ("roads", "towns")],
    "depts": [("users", "users"), ("lead", "users")],
    "groups": [("users", "users")],
    "cars": [("owner", "users")],
    "cards": [("user", "users")],
}
NODES = list(EDGES)


def edge_lit(r):
    return lambda t: r.choice(["0", "1", "2", "3", "4", "7"]) if t == "n" else r.choice(
        ["'u1'", "'u2'", "'d1'", "'g%'", "'%1'", "'c_'", '"x"', "''", "'%'"])


def any_lit(r, g):
    def lit(t):
        toks = g.literal()
        return gen.render(r, toks, wild=False)
    return lit


# ----------------------------------------------------------------------- C10
def c10(c):
    b = c.build("mqent")
    r = Rand(c.seed * 1000 + 101)
    g = gen.Gen(r, names=NAMES, fns=["date"], paths=NAMES, oddlists=0.02, entsql=True)
    cases = []

    def add(q, how=None, d=None, node="", off=None, pre=None):
        how = how or r.choice(["alone", "alone", "again", "join", "join", "builder", "update", "delete", "having"] + AROUND)
        cases.append({"s": cp(q), "how": how, "d": d or r.choice(DIALECTS), "node": node, "off": r.chance(0.4) if off is None else off,
                      "pre": (r.choice([0, 0, 1, 2, 3, 9, 10]) if pre is None else pre)
                      if how in ("alone", "again", "join", "builder") else 0})

    for s in HOSTILE:
        for form in g.string_tok(s):
            for q in ("s = %s", "%s = s", "s in [%s]", "s in [%s, 'x', %s]", "s between %s and %s", "s like %s and t = %s",
                      "date(s) = %s", "date(%s) = d", "not s = %s or i = 1", "%s", "s not like %s"):
                add(q.replace("%s", form), d=r.choice(DIALECTS))
    for x in gen.blocks("'"):
        add(r.choice(("s = '%s'", "s in ['%s']", "s like '%s'")).replace("%s", x), d=r.choice(DIALECTS))
    for i in gen.INTS:
        for q in ("i = %s", "i in [%s,1,%s]", "i between %s and %s", "%s < j"):
            for d in DIALECTS:
                for off in (True, False):
                    add(q.replace("%s", i), how="alone", d=d, off=off)
    for n in NAMES:
        for d in DIALECTS:
            add(n + " = 1", d=d, how="alone")
            add("date(%s) = '2020-01-01' or %s is null" % (n, n), d=d)
    ops = [x for k in gen.KEYS.values() for x in k] + ["not like"]
    for o in ops:
        for l, rr in (("i", "1"), ("1", "i"), ("true", "false"), ("null", "b"), ("s", "'x'"), ("'i'", "'j'"), ("(i)", "(2)")):
            for d in DIALECTS:
                add("%s %s %s" % (l, o, rr), d=d)
    for d in DIALECTS:
        for pre in range(0, 12):
            for how in ("alone", "join", "builder", "again"):
                for off in (True, False):
                    add("a = 1 and b in [2,'x',null] or c between 3 and 4 or date('5') = true", d=d, pre=pre, how=how, off=off)
                    add("has_edge(dept, size = 1 and name = 'y') and age in [2, 3] or name = 'z'", d=d, pre=pre, how=how, off=off,
                        node="users")
    lit = any_lit(r, g)
    for _ in range(c.pick(800, 6000)):
        node = r.choice(NODES)
        q = edge_expr(r, r.choice([1, 2, 3]), node, lit)
        if len(q) <= 400:
            add(q, node=node, how=r.choice(["alone", "join", "builder", "again", "update", "delete", "having"]))
    n = len(cases) + c.pick(3000, 50000)
    while len(cases) < n:
        s = gen.render(r, g.query(), wild=r.chance(0.5))
        if len(s) <= 260:
            add(s)
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in cases))
    c.sample(*[text(k["s"]) for k in cases[-5:]])
    evs, t = record(c, b, "text", cases, k="bind")
    c.judge(c.validate("MQEntTrace", evs, tables=t), readable)


# ----------------------------------------------------------------------- C11
def c11(c):
    b = c.build("mqent")
    r = Rand(c.seed * 1000 + 111)
    tables = gen.item_tables(c.seed * 1000 + 112, c.pick(12, 40))
    nt = len(tables)
    hows = ["alone", "alone", "clone", "builder", "update", "delete"] + AROUND
    texts, rows = [], []

    def row(s, how=None):
        rows.append({"s": s, "node": r.choice(["", "items"]), "off": r.chance(0.5), "pre": 0, "tb": r.randrange(2, nt + 1),
                     "how": how or r.choice(hows)})

    def txt(s, d=None):
        how = r.choice(["alone", "again", "join", "builder", "update", "delete", "having"] + AROUND)
        texts.append({"s": s, "node": "", "off": r.chance(0.5), "d": d or r.choice(["mysql", "postgres"]), "how": how,
                      "pre": r.choice([0, 1, 2]) if how in ("alone", "again", "join", "builder") else 0})

    for x in row_derivations(c):
        if b"is true" in bytes(x["s"]) or b"is false" in bytes(x["s"]) or b"not true" in bytes(x["s"]) or b"not false" in bytes(x["s"]):
            if r.chance(0.95):
                continue
        row(x["s"])
        txt(x["s"])
    for q in gen.typed(c.seed * 1000 + 113, c.pick(2500, 40000), ITEM_COLS, truth=False):
        row(cp(q))
    for q in gen.typed(c.seed * 1000 + 114, c.pick(1500, 25000), ITEM_COLS, truth=False):
        txt(cp(q), r.choice(DIALECTS))
    c.sample(*[text(k["s"]) for k in rows[-5:]])
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in rows + texts))
    evs, t = record(c, b, "rows", rows, tables)
    c.judge(c.validate("MQEntTrace", evs, tables=t), readable)
    evs, t = record(c, b, "text", texts, tables)
    c.judge(c.validate("MQEntTrace", evs, tables=t), readable)


# ----------------------------------------------------------------------- C12
def edge_tables(seed, n):
    """Contents of the tables of the graph; ids of different tables overlap."""
    r = Rand(seed)
    out = []
    for _ in range(n):
        nu, nd, ng, nc = r.choice([4, 5, 6]), r.choice([2, 3]), r.choice([2, 3]), r.choice([2, 4])
        small = [None, 0, 1, 2, 3, 4]

        def ref(k, p=0.3):
            return None if r.chance(p) else r.randrange(1, k + 1)

        def uniq(k, m):
            """Owners of m rows among k, nobody twice."""
            xs = list(range(1, k + 1)) + [None] * m
            r.shuffle(xs)
            return xs[:m]
        leads, cards = uniq(nu, nd), uniq(nu, 3)
        codes = list(range(1, 5))
        r.shuffle(codes)
        t = {
            "users": (["id", "name", "age", "dept_id", "boss_id", "town_code"],
                      [[i, "u%d" % i if r.chance(0.9) else None, r.choice(small), ref(nd), ref(nu), ref(4)] for i in range(1, nu + 1)]),
            "towns": (["id", "code", "name", "age", "mayor_id", "near_code"],
                      [[i, codes[i - 1], "t%d" % i, r.choice(small), ref(nu), ref(4)] for i in range(1, 5)]),
            "visits": (["id", "name", "code", "user_id", "town_code"],
                       [[r.choice(small), r.choice(["t1", "u1", "x"]), r.choice(small), r.randrange(1, nu + 1), r.randrange(1, 5)]
                        for _ in range(r.choice([0, 3, 5]))]),
            "roads": (["id", "code", "a_code", "b_code"],
                      [[r.choice(small), r.choice(small), r.randrange(1, 5), r.randrange(1, 5)] for _ in range(r.choice([0, 3, 5]))]),
            "depts": (["id", "name", "size", "lead_id"], [[i, "d%d" % i, r.choice(small), leads[i - 1]] for i in range(1, nd + 1)]),
            "groups": (["id", "name", "age"], [[i, "g%d" % i, r.choice(small)] for i in range(1, ng + 1)]),
            "cars": (["id", "name", "age", "owner_id"], [[i, "c%d" % i, r.choice(small), ref(nu)] for i in range(1, nc + 1)]),
            "cards": (["id", "name", "size", "user_id"], [[i, "k%d" % i, r.choice(small), cards[i - 1]] for i in range(1, 4)]),
            "user_groups": (["id", "name", "user_id", "group_id"],
                            [[r.choice(small), r.choice(["g1", "u1", "x"]), r.randrange(1, nu + 1), r.randrange(1, ng + 1)]
                             for _ in range(r.choice([0, 3, 5]))]),
            "friends": (["id", "age", "a_id", "b_id"],
                        [[r.choice(small), r.choice(small), r.randrange(1, nu + 1), r.randrange(1, nu + 1)]
                         for _ in range(r.choice([0, 4, 7]))]),
        }
        out.append({m: {"columns": cols, "rows": [[gen.cell(v) for v in row] for row in rs]} for m, (cols, rs) in t.items()})
    return out


def c12(c):
    b = c.build("mqent")
    r = Rand(c.seed * 1000 + 121)
    tables = edge_tables(c.seed * 1000 + 122, c.pick(14, 40))
    lit = edge_lit(r)
    cases = []
    hows = ["alone", "alone", "alone", "clone", "builder", "update", "delete", "and", "or", "not", "notor", "pair"]

    def add(q, node, how=None):
        cases.append({"s": cp(q), "node": node, "off": r.chance(0.3), "pre": 0, "tb": r.randrange(1, len(tables) + 1),
                      "how": how or r.choice(hows), "sch": r.chance(0.35)})

    def paths(node, depth):
        """All chains of edges, with the table they end at."""
        yield "%s", node
        if depth:
            for name, to in EDGES[node]:
                for p, end in paths(to, depth - 1):
                    yield "has_edge(" + name + ", " + p + ")", end
    for node in NODES:
        for p, end in paths(node, 3):
            if p == "%s":
                continue
            for inner in ("id = %s" % r.choice("123"), edge_expr(r, 0, end, lit)):
                if p.count("has_edge") < 3 or r.chance(c.pick(0.35, 1.0)):
                    add(p % inner, node)
        # tests without condition, also at the end of a chain
        for p, end in paths(node, 2):
            for name, _ in EDGES[end]:
                q = p % ("has_edge(%s)" % name)
                add(q, node)
                add("not " + q, node)
        # columns another table has, edges another table has
        for p, end in paths(node, 2):
            if p == "%s":
                continue
            for col in ("name", "age", "size", "dept_id", "user_id", "a_id", "group_id", "code", "unknown"):
                if r.chance(c.pick(0.2, 0.6)):
                    add(p % ("%s = 1" % col), node)
            for e in ("users", "dept", "lead", "owner", "friends", "roads", "nope"):
                if r.chance(c.pick(0.2, 0.6)):
                    add(p % ("has_edge(%s)" % e), node)
                    add(p % ("id = 1 and has_edge(%s, id = 1)" % e), node)
        # names that differ a little from those of edges
        for name, _ in EDGES[node]:
            for v in gen.case_forms(name) + [name + "x", name[:-1], name + "s", name.replace("_", ""), gen.snake(name), name + "_", name + "_id"]:
                add("has_edge(%s)" % v, node)
                add("id = 1 or has_edge(%s, id = 1)" % v, node)
    add("has_edge(fans, has_edge(groups, dept_id = 1))", "users", "alone")
    n = c.pick(3500, 30000) + len(cases)
    while len(cases) < n:
        node = r.choice(NODES + ["users", "users"])
        q = edge_expr(r, r.choice([1, 2, 3]), node, lit)
        if len(q) <= 300 and "has_edge" in q:
            add(q, node)
    c.sample(*[text(k["s"]) for k in cases[-6:]])
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in cases))
    evs, t = record(c, b, "edge", cases, tables)
    c.judge(c.validate("MQEntTrace", evs, tables=t), readable)


# ----------------------------------------------------------------------- C13
BAD = ["", " ", "a =", "a b", "(a = 1", "foo(a) = 1", "a = foo(1)", "date() = 1", "date(a, b) = 1", "date(a, b, c)", "has_edge()",
       "has_edge(nope)", "has_edge(dept, name)", "has_edge(dept, 1)", "has_edge(dept, name = 'x', 2)", "has_edge('dept')",
       "has_edge(dept(1))", "has_edge(dept.name)", "has_edge(1)", "has_edge(dept = 1)", "has_edge((dept))", "has_edge([dept])",
       "has_edge(not dept)", "has_edge(dept, [1])", "has_edge(dept, boss.name)", "has_edge(dept, null)",
       "has_edge(dept, foo(1))", "has_edge(dept, has_edge(nope))", "has_edge(dept, has_edge(users, x is true))",
       "has_edge(dept, has_edge(dept))", "has_edge(friends, a is false)", "has_edge(groups, date())", "has_edge(Dept)", "HAS_EDGE(dept)",
       "Date(a) = 1", "DATE(a) = 1", "a is true", "a is false", "a is not true", "a is not false", "a.b = 1", "a = b.c", "a.b.c is null",
       "a.b in [1]", "a.b between 1 and 2", "a.b like 'x'", "date(a.b) = 1", "foo(1) in []", "a.b not in []", "has_edge(nope) in []",
       "a = 1 and b is true", "a is true or b = 1", "not a is true", "(a is true)", "a = (b is false)", "a = 1 or foo()",
       "foo() and a = 1", "not foo(1)", "a in [1] and b.c = 2", "(a.b) = 1", "now() > a", "lower(a) = 'x'", "count(a)", "a = 'x",
       "a = 99999999999999999999", "has_edge(dept, a = )", "has_edge(dept, foo(1) in [])", "date(foo(1)) = 1", "date(date(a,b))",
       "foo(1) is null", "foo(1) between 1 and 2", "foo(1) like 'x'", "has_edge(logs)", "has_edge(logs, text = 'x')",
       "has_edge(boss, has_edge(logs))", "has_edge(user)", "has_edge(user, age = 1)"]
GOOD = ["a = 1", "a", "1", "true", "a = 1 or b = 2", "not a = 1", "a in []", "a in [1,2,null]", "a between 1 and 2", "not a between 1 and 2",
        "a not between 1 and 2", "date(a) = '2020-01-01'", "date('2020-01-01') = 1", "a is null", "a is not null", "a like 'x'",
        "a not like 'x'", "(a = 1)", "has_edge(dept)", "has_edge(dept, name = 'x')", "has_edge(dept, name = 'x' or size = 1)",
        "has_edge(friends, has_edge(boss, age = 1) and name = 'y') or age = 3", "has_edge(boss) = true", "has_edge(groups) and a = 1",
        "a = null", "createdAt > 3000000000", "a = b and (c = 'x' or d != 2)", "1 in [1]", "has_edge(dept, (name))",
        "has_edge(dept, date(name))", "has_edge(dept, name in [] or id = 1)", "not has_edge(staff, not has_edge(cars))", "[1,2] = a"]


def c13(c):
    b = c.build("mqent")
    r = Rand(c.seed * 1000 + 131)
    hist = c.model("MQBuilderGen", constants={"Depth": c.pick(2, 3), "Emit": "TRUE"})
    hist = [h["calls"] for h in hist]
    cases = []

    def add(q, calls, node="users", off=None):
        cases.append({"s": cp(q), "node": node, "off": r.chance(0.5) if off is None else off, "calls": calls})
    k = 0
    for q in BAD + GOOD:
        for h in hist if c.thorough else r.sample(hist, 20):
            add(q, h)
            k += 1
        add(q, r.choice(hist), node="")
        add(q, r.choice(hist), node="logs")
    g = gen.Gen(r, names=["age", "name", "dept_id", "x", "createdAt"], fns=["date", "date", "has_edge", "foo"], paths=["a.b", "age", "name"],
                oddlists=0.02)
    lit = edge_lit(r)

    def calls():
        return [{"how": r.choice(["alone", "join", "clone"]), "d": r.choice(DIALECTS), "pre": r.choice([0, 0, 1, 3, 11])}
                for _ in range(r.choice([1, 2, 3, 4, 6]))]
    n = len(cases) + c.pick(2500, 30000)
    while len(cases) < n:
        x = r.random()
        if x < 0.4:
            q = gen.render(r, g.query(), wild=r.chance(0.3))
        elif x < 0.7:
            q = edge_expr(r, r.choice([1, 2]), "users", lit)
        else:
            # something wrong at a random place of something right
            q = edge_expr(r, r.choice([1, 2]), "users", lit)
            bad = r.choice(["foo(1)", "age is true", "a.b = 1", "date()", "has_edge(nope)", "has_edge(dept, 1)", "date(1,2) = 3"])
            for old in r.sample(["age = ", "id = ", "name = ", "id in", "age <", "size", "has_edge(boss"], 7):
                if old in q:
                    q = q.replace(old, bad + " and " + old, 1)
                    break
            else:
                q = q + " and " + bad
        if len(q) <= 260:
            add(q, calls(), node="users" if r.chance(0.93) else r.choice(NODES + ["logs", ""]))
    c.sample(*[text(k["s"]) for k in cases[-6:]])
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in cases))
    evs, t = record(c, b, "calls", cases)
    c.judge(c.validate("MQEntTrace", evs, tables=t), readable)


# ----------------------------------------------------------------- C14 and C15
class Ql(gen.Typed):
    """Queries ent can evaluate: a column compared with a literal or a column."""

    def compare(self, d):
        r = self.r
        if d > 0 and r.chance(0.3):
            return [["("], G0] + self.expr(d - 1) + [G0, [")"]]
        t = "s" if r.chance(0.4) else "n"
        col = [[r.choice(self.cols[t])]]
        x = r.random()
        if x < 0.2:
            op = [[kw("not")], G1, ["between"]] if r.chance(0.3) else [["between"]]
            return col + [G1] + op + [G1] + self.lit(t) + [G1, [kw("and")], G1] + self.lit(t)
        if x < 0.4:
            op = [[kw("in")]] if r.chance(0.5) else [[kw("not")], G1, [kw("in")]]
            return col + [G1] + op + [G0] + self.lits(t)
        rhs = [[r.choice(self.cols[t])]] if r.chance(0.3) else self.lit(t)
        return col + [G0] + [gen.opkey(r.choice(gen.COMPARES[:6]))] + [G0] + rhs


QL_COLS = {"n": ["i", "j", "b", "c", "id"], "s": ["s", "t"]}


def ql_condition(n):
    """Has the tree an entql form?  Only chooses cases, the specification decides."""
    while n["t"] == "par":
        n = n["e"]
    if n["t"] == "not":
        return ql_condition(n["e"])
    if n["t"] == "log":
        return all(ql_condition(x) or x["t"] == "bool" for x in (n["l"], n["r"]))
    if n["t"] in ("cmp", "btw"):
        return all(x["t"] in ("id", "int", "str", "bool", "null", "arr", "par") or ql_condition(x) for x in (n["l"], n.get("r", n["l"])))
    return False


def ql_derivations(c):
    """Small queries, with and without an entql form."""
    for x in row_derivations(c):
        yield x["s"], ql_condition(x["ast"])


def c14(c):
    b = c.build("mqent")
    r = Rand(c.seed * 1000 + 141)
    tables = gen.item_tables(c.seed * 1000 + 142, c.pick(10, 30))
    cases = []
    for s, ok in ql_derivations(c):
        if ok:
            cases.append({"s": s, "how": r.choice(QL_HOWS)})
    g = gen.Gen(r, fns=["f"], paths=gen.NAMES, oddlists=0.02)
    n = len(cases) + c.pick(3500, 40000)
    hard = (" is", "isnull", "notnull", "like", "f(", "LIKE", "IS")
    while len(cases) < n:
        s = gen.render(r, g.query(), wild=r.chance(0.5))
        if len(s) <= 260 and (r.chance(0.1) or not any(h in s for h in hard)):
            cases.append({"s": cp(s), "how": r.choice(QL_HOWS)})
    for s in HOSTILE:
        for form in g.string_tok(s):
            for q in ("a = %s", "%s = a", "a in [%s, 'x']", "a between %s and %s"):
                cases.append({"s": cp(q.replace("%s", form)), "how": "build"})
    cases += [{"s": cp("a = '%s'" % x), "how": "build"} for x in gen.blocks("'")]
    for i in gen.INTS:
        for q in ("a = %s", "a in [%s,1]", "a between %s and %s", "%s < a"):
            cases.append({"s": cp(q.replace("%s", i)), "how": "build"})
    for o in [x for k in gen.KEYS.values() for x in k if k != ["like"]]:
        for q in ("a %s 1", "1 %s a", "a %s b", "true %s false", "a = 1 %s b = 2", "not (a = 1 %s b = 2)"):
            cases.append({"s": cp(q % o), "how": "builder"})
    evs, t = record(c, b, "ql", cases)
    c.sample(*[text(k["s"]) for k in cases[-5:]])
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in cases))
    c.judge(c.validate("MQQlTrace", evs, tables=t), readable)
    rr = Rand(c.seed * 1000 + 143)
    gq = Ql(rr, QL_COLS)
    rows = []
    while len(rows) < c.pick(2500, 30000):
        s = gen.render(rr, gq.query(), wild=rr.chance(0.5))
        if len(s) <= 260:
            rows.append({"s": cp(s), "tb": rr.randrange(2, len(tables) + 1)})
    c.sample(*[text(k["s"]) for k in rows[-3:]])
    evs, t = record(c, b, "qlrows", rows, tables)
    c.judge(c.validate("MQQlTrace", evs, tables=t), readable)


QL_HOWS = ["build", "builder", "again"]
QL_BAD = ["a", "1", "'x'", "null", "true", "[1]", "(a)", "not a", "not 1", "not true", "not (a)", "a.b = 1", "a = b.c", "a.b", "f(a)", "f(a) = 1",
          "a = f(1)", "date(a) = '2020-01-01'", "has_edge(dept)", "has_edge(dept, a = 1)", "a is null", "a is not null", "a isnull", "a notnull",
          "a is true", "a is false", "a is not true", "a is not false", "a like 'x'", "a not like 'x'", "not a like 'x'", "a and b", "a and b = 1",
          "b = 1 and a", "a or b", "1 or a = 1", "a = 1 and 'x'", "a = 1 or null", "a = 1 and [1,2]", "(a) and b = 1", "a = 1 and (b)",
          "a = 1 and not b", "a = 1 and b is null", "a is null or b = 1", "not a is null", "(a is null) = true", "true = (a like 'x')",
          "a.b in [1]", "a.b between 1 and 2", "f() in [1]", "f() between 1 and 2", "a = 1 and (b = 2 or c like 'x')", "a =", "a b", "(", ")",
          "a = 'x", "a = 99999999999999999999", "a between 1 and", "a in 1", "a in [b]", "a = 1 and", "and a = 1", "not", "a = 1;", "--",
          "a = 1 and f(1)", "f(1) or a = 1", "((a))", "not not", "a->b = 1"]
QL_GOOD = ["a = 1", "a = b", "1 = 1", "a in [1,2]", "a not in ['x']", "a in []", "a between 1 and 2", "a not between 1 and 2", "not a = 1",
           "not (a = 1 or b = 2)", "a = 1 and b = 2", "a = 1 or b = 2 and c = 3", "true and false", "a = 1 and true", "(false) or (a = 1)",
           "a = null", "(a = 1) = true", "not true and a = 1"[4:], "a > 1 && b <= 2 || c != 'x'", "((a = 1))", "a = [1,2]"]


def c15(c):
    b = c.build("mqent")
    r = Rand(c.seed * 1000 + 151)
    cases = [{"s": cp(q), "how": h} for q in QL_BAD + QL_GOOD + ["", " ", "\n"] for h in QL_HOWS]
    for s, ok in ql_derivations(c):
        if not ok and r.chance(c.pick(0.4, 1.0)):
            cases.append({"s": s, "how": r.choice(QL_HOWS)})
    # one wrong part in a right query
    for good in QL_GOOD:
        for bad in QL_BAD[:48]:
            for q in ("%s and (%s)" % (good, bad), "(%s) or %s" % (bad, good), "not (%s and (%s))" % (good, bad)):
                cases.append({"s": cp(q), "how": r.choice(QL_HOWS)})
    g = gen.Gen(r, oddlists=0.02)
    for _ in range(c.pick(3000, 40000)):
        s = gen.render(r, g.query(), wild=r.chance(0.4))
        if len(s) <= 260:
            cases.append({"s": cp(s if r.chance(0.8) else gen.mutate(r, s)), "how": r.choice(QL_HOWS)})
    for _ in range(c.pick(1000, 10000)):
        cases.append({"s": cp(gen.soup(r)), "how": r.choice(QL_HOWS)})
    c.sample(*[text(k["s"]) for k in cases[-5:]])
    evs, t = record(c, b, "ql", cases, k="qlerr")
    c.judge(c.validate("MQQlTrace", evs, tables=t), readable)
    # lists: all short ones over classes of queries, and random long ones
    lists = []
    classes = ["", "a = 1", "b = 2 or c = 3", "a is null", "d ="]
    for n in range(0, c.pick(4, 6)):
        todo = [[]]
        for _ in range(n):
            todo = [x + [q] for x in todo for q in classes]
        lists += todo
    for _ in range(c.pick(1500, 20000)):
        bad = r.choice([0, 0, 0.05, 0.2])
        lists.append([r.choice(QL_BAD) if r.chance(bad) else ("" if r.chance(0.1) else r.choice(QL_GOOD))
                      for _ in range(r.choice([1, 2, 3, 5, 8, 13]))])
    c.sample(*lists[-3:])
    c.cov["distinct_nontrivial"] = len(set(tuple(k["s"]) for k in cases)) + len(set(map(tuple, lists)))
    evs, t = record(c, b, "qls", [{"qs": [cp(q) for q in l]} for l in lists])
    c.judge(c.validate("MQQlTrace", evs, tables=t), readable)


CHECKS = {"C10": ("model_checking", c10), "C11": ("model_checking", c11), "C12": ("model_checking", c12), "C13": ("model_checking", c13),
          "C14": ("model_checking", c14), "C15": ("model_checking", c15)}
