"""C01 to C05: parser, printer, joiner."""
import json

import gen
from gen import Rand
from vlib import cp, text


def readable(e):
    h = {}
    if "s" in e:
        h["text"] = text(e["s"])[:300]
    if "ss" in e:
        h["texts"] = [text(x)[:200] for x in e["ss"]]
    for k in ("b", "j", "b2"):
        if k in e:
            h[{"b": "printed", "j": "joined", "b2": "printed again"}[k]] = text(e[k])[:300]
    for k in ("r", "m", "f", "n", "o", "again"):
        if k in e:
            h[k] = e[k]
    return h


def derived(c, join=False):
    """Every query of the small grammars with its tree, from the specification."""
    out = []
    for module, quick, thorough in (("MQGenShape", 4, 5), ("MQGenLeaf", 1, 1), ("MQGenList", 2, 3)):
        out.append((module, c.model(module, constants={"MaxFuel": c.pick(quick, thorough), "Emit": "TRUE"},
                                    timeout=c.pick(400, 3000))))
    return out


def canonical(x):
    return json.dumps(x, sort_keys=True)


def replay(c, binary, cases):
    """Specification to code: the tree of each derivation against the real parser."""
    evs = c.run_cases(binary, "parse", [{"s": x["s"]} for x in cases],
                      crash_event=lambda k, o: {"k": "parse", "s": k["s"], "r": o})
    c.cov["traces_validated_against_impl"] += len(evs)
    for x, e in zip(cases, evs):
        if e["r"] != "ok" or canonical(e["ast"]) != canonical(x["ast"]):
            c.violate("derived query: " + ("different tree" if e["r"] == "ok" else e["r"]),
                      dict(e, expected=x["ast"]), readable(e))


def crash_parse(kind):
    return lambda k, o: {"k": kind, "s": k["s"], "r": o}


LENGTHS = [16, 17, 20, 30, 31, 32, 33, 40, 50, 59, 60, 61, 62, 63, 64, 65, 66, 80, 99, 100, 101, 127, 128, 129, 130, 199, 200, 201, 254, 255,
           256, 257, 258]


def c01(c):
    b = c.build("mqparse")
    for module, cases in derived(c):
        replay(c, b, cases)
        c.sample(*[text(x["s"]) for x in cases[-2:]])
    qs = gen.queries(c.seed * 1000 + 1, c.pick(16000, 120000))
    # long chains and lists that the size limit of the generator rarely lets through
    r = Rand(c.seed * 1000 + 2)
    for _ in range(c.pick(60, 400)):
        g = gen.Gen(r)
        parts = [gen.render(r, g.not_(0), wild=False) for _ in range(r.randrange(10, 40))]
        qs.append("".join(p + r.choice([" and ", " or "]) for p in parts) + "z=1")
        qs.append("a in [" + ",".join(gen.render(r, g.literal(), wild=False) for _ in range(r.randrange(20, 120))) + "]")
        k = r.randrange(8, 60)
        qs.append("(" * k + "a = 1" + ")" * k + " and b = 2")
        qs.append("f(" * k + "a" + ", 1)" * k + " = 3")
    g = gen.Gen(r)
    for s in gen.STRINGS:
        for form in g.string_tok(s):
            qs += ["a = " + form, "f(%s, [%s, 1])" % (form, form)]
    for quote in "'\"":
        qs += ["a = %s%s%s" % (quote, x, quote) for x in gen.blocks(quote)]
    # names and strings of lengths where something may end
    for k in LENGTHS:
        w = "".join(r.choice("abcdefXYZ_019") for _ in range(k - 1))
        for t in ("a%s = 1", "f(a%s)", "f%s(a, 1)", "a%s.b", "b.a%s.c", "'a%s' = b", "b in [1, \"a%s\", 'a']", "b = 1 --a%s\n", "b like 'a%s'"):
            qs.append(t % w)
    c.sample(*qs[:4])
    evs = c.run_cases(b, "parse", [{"s": cp(q)} for q in qs], crash_event=crash_parse("parse"))
    c.cov["distinct_nontrivial"] = len(set(qs))
    c.judge(c.validate("MQParseTrace", evs), readable)


FAMILIES = ["parens", "openonly", "closeonly", "brackets", "calls", "callsopen", "ands", "ors", "mixed", "list", "args",
            "string", "stropen", "name", "path", "blanks", "comment", "comments", "cmtopen", "digits", "compares", "nots",
            "garbage", "quotedparens", "cmtparens"]


def c02(c):
    b = c.build("mqparse")
    r = Rand(c.seed * 1000 + 11)
    n = c.pick(14000, 100000)
    texts = [gen.soup(r) for _ in range(n // 2)]
    base = gen.queries(c.seed * 1000 + 12, n // 2, limit=160)
    texts += [gen.mutate(r, q) for q in base]
    texts += base[:n // 8]
    texts += [r.choice(("%sa = 1", "a%s= 1", "a %s 1", "a =%s1", "a = 1%s", "a%sb = 1", "f(a%s1)", "a in [1%s 2]", "a = %sx%s", "a%s", "a is%snull",
                        "a = 'x'%s", "1%s", "%s")).replace("%s", x) for x in gen.outside() for _ in range(c.pick(1, 4))]
    # integers around the limit, in every position a literal can have
    for i in gen.INTS[-6:] + gen.BIGINTS:
        for t in ("a=%s", "%s=a", "a in [%s]", "a in [1,%s,2]", "a between %s and 1", "a between 1 and %s", "f(%s)",
                  "a between [%s,2]", "not (a=1 or b=%s)", "f(g(%s))", "[%s]=a"):
            texts.append(t % i)
    for j in ("a->b", "a->b->c", "a->b=1", "f(a->b)", "a=b->c", "a->b->c in [1]", "(a->b)", "not a->b", "f(1,a->b)=2",
              "a.b->c", "a->b.c", "a -> b", "a->", "->a", "a->1"):
        texts += [j, "x=1 and " + j, j + " or y=2"]
    c.sample(*texts[:4])
    c.cov["distinct_nontrivial"] = len(set(texts))
    evs = c.run_cases(b, "accept", [{"s": cp(t)} for t in texts], crash_event=crash_parse("accept"))
    c.judge(c.validate("MQParseTrace", evs), readable)
    # bytes that are no text
    raws = []
    for q in base[:c.pick(1500, 15000)] + texts[:c.pick(500, 5000)]:
        v = bytearray(q.encode())
        for _ in range(r.choice([1, 1, 2, 4])):
            k = r.randrange(len(v) + 1)
            bad = r.choice([b"\x80", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf8\x88\x80\x80\x80", b"\xfe"])
            v[k:k + r.choice([0, 0, 1])] = bad
        raws.append({"s": list(v)})
    evs = c.run_cases(b, "bytes", raws, crash_event=crash_parse("bytes"))
    c.judge(c.validate("MQParseTrace", evs), readable)
    # every text the specification derives is accepted
    for module, cases in derived(c):
        evs = c.run_cases(b, "accept", [{"s": x["s"]} for x in cases], crash_event=crash_parse("accept"))
        c.cov["traces_validated_against_impl"] += len(evs)
        for e in evs:
            if e["r"] != "ok":
                c.violate("derived query: " + e["r"], e, readable(e))
    # sizes
    sizes = [1, 2, 3, 18, 19, 20, 50, 300, 1000, 9999, 10000, 10001, 30000, 100000, 300000]
    big = [{"f": f, "n": k} for f in FAMILIES for k in sizes]
    big += [{"f": f, "n": k} for f in ("parens", "openonly", "calls", "callsopen", "brackets", "closeonly", "garbage",
                                       "string", "comment", "blanks", "quotedparens", "cmtparens", "nots")
            for k in (1000000, 4000000)]
    big = [x for x in big if not (x["f"] == "path" and x["n"] < 2)]
    evs = c.run_cases(b, "scale", big, crash_event=lambda k, o: {"k": "scale", "f": k["f"], "n": k["n"], "r": o})
    c.judge(c.validate("MQParseTrace", evs), readable)


def c03(c):
    b = c.build("mqparse")
    r = Rand(c.seed * 1000 + 21)
    cases = []
    # every operator in every spelling, letter case and separator
    words = {"eq": ["=", "==", "eq", "EQ", "Eq", "eQ"], "neq": ["!=", "<>", "neq", "NEQ", "nEq"],
             "gt": [">", "gt", "GT", "gT"], "gte": [">=", "gte", "GTE", "gTe"], "lt": ["<", "lt", "LT", "Lt"],
             "lte": ["<=", "lte", "LTE", "LtE"], "like": ["like", "LIKE", "LiKe"],
             "not like": ["not like", "NOT LIKE", "Not  like", "nOT\n\tlIKE", "not--x\nlike", "not //like\r\n like"],
             "and": ["and", "AND", "&&", "aNd"], "or": ["or", "OR", "||", "oR"]}
    seps = [" ", "\t", "\n", "\r", "\r\n", "  ", "--\n", "//\r\n", "-- or 1=1\n", " \t\r\n", "//'\r"]
    for ws in words.values():
        for x, y in (("a", "b"), ("(a)", "(b)"), ("1", "'x'"), ("a", "[1]")):
            cases.append([x + s1 + w + s2 + y for w in ws for s1 in seps for s2 in (" ", "\n", "--b\n")][:60])
            cases.append([x + g + w + g + y for w in ws for g in seps])
    for x in ("a", "(a)", "f(1)", "x.y", "(a=1)"):
        for forms in (["isnull", "is null"], ["notnull", "is not null"]):
            cases.append([x + s + f.replace(" ", t) for f in forms for s in seps for t in seps[:7]])
        for f in ("is true", "is false", "is not true", "is not false"):
            cases.append([x + s + f.replace(" ", t) for s in seps for t in seps])
        for f in ("in", "not in"):
            cases.append([x + " " + v.replace(" ", s) + s2 + l for v in (f, f.upper(), f.title()) for s in seps for s2 in ("", " ", "--\n")
                          for l in ("[1,'a']", "(1,'a')", "[ 1 ,\"a\" , ]", "(1\n,'a'\t,)")])
            cases.append([x + s + v + s + l for v in (f, f.upper()) for s in seps for l in ("[]", "()", "[ ]", "(--\n)")])
        for f in ("between", "not between"):
            vs = ["between"] if f == "between" else ["not between", "NOT between", "nOt between"]
            cases.append([x + s + v.replace(" ", s) + s + l for v in vs for s in seps
                          for l in ("1 and 2", "1 AND 2", "[1,2]", "[ 1 , 2 ]", "1--\naNd\t2")])
    cases.append([w + s + x for w in ("not", "NOT", "Not", "nOT") for s in seps for x in ("a=1", "a = 1", "a\teq\n1")])
    cases.append(["a=" + v for v in ("true", "TRUE")])
    cases.append(["a=" + v for v in ("null", "NULL")])
    cases.append(["a='x\"'".replace("\"", "y"), 'a="xy"'])
    cases.append(["f(1,a)", "f( 1 , a )", "f(1,a,)", "f(\n1--x\n,a\t, )"])
    chunk = 40
    cases = [x[i:i + chunk] if i == 0 else [x[0]] + x[i:i + chunk] for x in cases for i in range(0, len(x), chunk)]
    fixed = len(cases)
    n = c.pick(3500, 25000)
    while len(cases) < fixed + n:
        g = gen.Gen(r, variants=True)
        toks = g.query()
        vs = [gen.render(r, toks, wild=False)] + [gen.render(r, toks, wild=True, tight=r.random()) for _ in range(5)]
        if max(map(len, vs)) <= 350:
            cases.append(vs)
    c.sample(*cases[-2])
    c.cov["distinct_nontrivial"] = len(set(t for x in cases for t in x))
    evs = c.run_cases(b, "variants", [{"ss": [cp(t) for t in x]} for x in cases],
                      crash_event=lambda k, o: {"k": "variants", "ss": k["ss"], "rs": [{"r": o}]})
    c.judge(c.validate("MQParseTrace", evs), readable)
    # the names of operators alone
    forms = [(w, "b") for ws in words.values() for w in ws] + [(w.upper() if r.chance(0.5) else w, "[1]") for w in ("in", "not in") * 4]
    forms += [(w, "") for w in ("isnull", "notnull", "is null", "is not null", "is true", "is not true", "is false", "is not false")]
    forms += [(w, "1 and 2") for w in ("between", "not between", "NOT between", "nOt between")]
    norm = [(x.replace(" ", s), y) for x, y in forms for s in seps] + [(s + x + s, y) for x, y in forms for s in seps]
    evs = c.run_cases(b, "norm", [{"ss": [cp(x), cp(y)]} for x, y in norm],
                      crash_event=lambda k, o: {"k": "norm", "ss": k["ss"], "r": o, "o": "", "again": ""})
    c.judge(c.validate("MQParseTrace", evs), readable)
    # the derivations with all spellings, trees from the specification
    replay(c, b, c.model("MQGenLeaf", constants={"MaxFuel": 1, "Emit": "TRUE"}))


def c04(c):
    b = c.build("mqparse")
    for module, cases in derived(c):
        run_build(c, b, [text(x["s"]) for x in cases], validate=False)
    r = Rand(c.seed * 1000 + 31)
    qs = gen.queries(c.seed * 1000 + 32, c.pick(9000, 70000))
    g = gen.Gen(r)
    for quote in "'\"":
        qs += ["a = %s%s%s" % (quote, x, quote) for x in gen.blocks(quote)]
    for s in gen.STRINGS + [g.string() for _ in range(c.pick(400, 4000))]:
        for form in g.string_tok(s):
            qs.append("a = " + form)
            qs.append("f(%s) in [%s, 1, %s]" % (form, form, form))
    qs += ["a = '%s'" % x for x in gen.blocks("'")]
    for i in gen.INTS:
        qs += ["a=" + i, "a in [%s,%s]" % (i, i), "a between %s and %s" % (i, i)]
    qs += ["[]=a", "()=a", "a in []", "f()", "f(g(),h(1,[]))", "a in ()", "a.b.c.d=f(x.y)"]
    c.sample(*qs[:3])
    c.cov["distinct_nontrivial"] = len(set(qs))
    run_build(c, b, qs)


def run_build(c, b, qs, validate=True):
    evs = c.run_cases(b, "build", [{"s": cp(q)} for q in qs],
                      crash_event=lambda k, o: {"k": "build", "s": k["s"], "r": "ok", "br": o})
    if validate:
        c.judge(c.validate("MQParseTrace", evs), readable)
        return
    # derivations: the tree is known from the specification to be reproducible, see RoundTrip in MQGen
    c.cov["traces_validated_against_impl"] += len(evs)
    for e in evs:
        if e["r"] == "ok" and (e.get("br") != "ok" or e.get("r2") != "ok" or canonical(e["ast"]) != canonical(e["ast2"])
                               or e["b"] != e["b2"]):
            c.violate("derived query does not survive printing", e, readable(e))


def c05(c):
    b = c.build("mqparse")
    c.model("MQGenShape", cfg="MQGenJoin.cfg", constants={"MaxFuel": c.pick(3, 4)}, timeout=c.pick(300, 2000))
    r = Rand(c.seed * 1000 + 41)
    blanks = ["", " ", "\t", "\n", " \r\n\t "]
    classes = ["a=1", "b=1 or c=2", "not d", "(e)", "f=1 and g=2", "a=1 or b=2 and c=3", "--x\na=1", "a=1 --x\n", " a = ')' ",
               "date(x)=1 or not y isnull"]
    lists = [[]]
    small = classes[:6] + ["", " "]
    for x in small:
        lists.append([x])
        for y in small:
            lists.append([x, y])
            for z in small:
                lists.append([x, y, z])
    for x in classes:
        for y in classes + blanks:
            lists.append([x, y])
            lists.append([y, x, y])
    for x in blanks:
        lists += [[x], [x, x], [x, "a=1", x], [x, x, "a=1 or b=2", x, "c=3", x]]
    g = gen.Gen(r)
    n = c.pick(3000, 25000)
    fixed = len(lists)
    while len(lists) < fixed + n:
        k = r.choice([1, 2, 2, 3, 3, 4, 5, 8])
        x = [r.choice(blanks) if r.chance(0.2) else gen.render(r, g.query(), wild=r.chance(0.6)) for _ in range(k)]
        if sum(map(len, x)) < 500:
            lists.append(x)
    lists.append(["a=%d or b=1" % i for i in range(60)])
    c.sample(*lists[-4:-1])
    c.cov["distinct_nontrivial"] = len(set(map(tuple, lists)))
    evs = c.run_cases(b, "join", [{"ss": [cp(t) for t in x]} for x in lists],
                      crash_event=lambda k, o: {"k": "join", "ss": k["ss"], "jr": o})
    c.judge(c.validate("MQParseTrace", evs), readable)


def c19(c):
    b = c.build("mqparse")
    r = Rand(c.seed * 1000 + 191)
    qs = []
    for module, fuel in (("MQGenLeaf", 1), ("MQGenList", c.pick(1, 2))):
        derived = [text(x["s"]) for x in c.model(module, constants={"MaxFuel": fuel, "Emit": "TRUE"})]
        qs += derived if c.thorough else r.sample(derived, min(len(derived), 3000))
    qs += gen.queries(c.seed * 1000 + 192, c.pick(4000, 50000), limit=400)
    g = gen.Gen(r)
    for s in gen.STRINGS:
        for form in g.string_tok(s):
            qs += ["a = " + form, "f(%s, [%s]) in [%s, 1, %s]" % (form, form, form, form)]
    for i in gen.INTS:
        qs += ["a=" + i, "a in [%s,%s]" % (i, i), "a between %s and %s" % (i, i)]
    qs += ["a", "a.b.c", "1", "'x'", "[]=a", "()=a", "a in []", "f()", "f(g(),h(1,[]))", "a in ()", "a.b.c.d=f(x.y)", "[true,null,1,'x']",
           "not a", "(a)", "((a))", "not (a.b)", "(1)", "null", "a is null", "date(a)", "a=1=2", "a between 1 and 2"]
    c.sample(*qs[-12:-8])
    c.cov["distinct_nontrivial"] = len(set(qs))
    evs = c.run_cases(b, "nodes", [{"s": cp(t)} for t in qs],
                      crash_event=lambda k, o: {"k": "nodes", "s": k["s"], "r": o, "nodes": [], "same": True})
    c.judge(c.validate("MQCallTrace", evs), readable)


CHECKS = {
    "C01": ("model_checking", c01),
    "C02": ("model_checking", c02),
    "C03": ("model_checking", c03),
    "C04": ("model_checking", c04),
    "C05": ("model_checking", c05),
    "C19": ("model_checking", c19),
}
