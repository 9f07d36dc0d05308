"""Checks of the visitor and of concurrent use: C16 and C17."""
import json

import gen
from checks_ent import BAD, GOOD
from gen import Rand
from vlib import cp, text

KINDS = ["cmp", "log", "btw", "fn", "prd", "par", "not", "id", "ref", "op", "value"]


def readable(e):
    out = {k: e[k] for k in ("k", "h", "fails", "at", "root", "runs", "r", "op", "outs", "same", "m", "order", "ctx") if k in e}
    if "s" in e:
        out["query"] = text(e["s"])
    if "ss" in e:
        out["queries"] = [text(q) for q in e["ss"]]
    return out


# ----------------------------------------------------------------------- C16
ATS = [0, 0, -1, 1, 2, 3, 5, 8]  # when the context is cancelled


ODD_TYPES = ["", "window", "Value", "value ", "0", "null", "comparison", "logical", "op"]


def c16(c):
    b = c.build("mqcalls")
    r = Rand(c.seed * 1000 + 161)
    cases = []
    modes = c.pick('{"none", "stop", "go"}', '{"none", "stop", "go", "catch"}')
    for x in c.model("MQVisitGen", constants={"Modes": modes, "Emit": "TRUE"}):
        cases.append({"s": x["s"], "h": {k: m for k, m in x["h"].items() if m != "none"}, "fails": x["fails"], "root": 1, "at": r.choice(ATS),
                      "odd": x["odd"], "type": r.choice(ODD_TYPES),
                      "init": r.choice([1, 1, 2]), "runs": r.choice([1, 2])})
    g = gen.Gen(r, oddlists=0.03)
    n = len(cases) + c.pick(4000, 60000)
    while len(cases) < n:
        s = gen.render(r, g.query(), wild=False)
        if len(s) > 200:
            continue
        style = r.random()
        if style < 0.3:
            h = {k: "go" for k in KINDS}
        elif style < 0.5:
            h = {k: "go" for k in KINDS if r.chance(0.6)}
        else:
            h = {k: r.choice(["stop", "go", "go", "go", "catch"]) for k in KINDS if r.chance(0.6)}
        cases.append({"s": cp(s), "h": h, "odd": r.sample(range(1, 20), r.choice([1, 2])) if r.chance(0.1) else [], "type": r.choice(ODD_TYPES),
                      "fails": sorted(set(r.randrange(1, 25) for _ in range(r.choice([0, 0, 1, 1, 2, 5])))),
                      "at": r.choice(ATS), "root": 1 if r.chance(0.6) else r.randrange(1, 30), "init": r.choice([1, 1, 2]), "runs": r.choice([1, 1, 2, 3])})
    c.sample(*[text(k["s"]) for k in cases[-5:]])
    c.cov["distinct_nontrivial"] = len(set(json.dumps([k["s"], k["h"], k["fails"], k["root"]], sort_keys=True) for k in cases))
    evs = c.run_cases(b, "visit", cases, crash_event=lambda k, o: dict(k, k="visit", r=o, ctx=True, odd=[], runs=[], h={x: "none" for x in KINDS}))
    c.judge(c.validate("MQCallTrace", evs), readable)


# ----------------------------------------------------------------------- C17
OPS = ["parse", "print", "string", "visit", "join", "gorm", "wire", "person", "sqlite", "mysql", "postgres", "entql", "apply"]


def call_cases(c, r, n, g, rounds):
    qg = gen.Gen(r, names=["i", "j", "s", "t", "b", "id"], fns=["date", "f"], paths=["Dept.name", "Boss.title", "a.b"], oddlists=0.03)
    fixed = BAD + GOOD
    pool = []
    while len(pool) < 150:
        s = gen.render(r, qg.query(), wild=r.chance(0.3))
        if len(s) <= 160:
            pool.append(s)
    people = ["name = 'x'", "Dept.name = 'y'", "Boss.title = 'z' or id = 1", "Nope.x = 1", "city", "a b", "", " ", "Badge.name is null",
              "Dept.city = 'x' and Boss.name = 'y'"]
    for k in range(n):
        texts = [r.choice(pool) for _ in range(5)] + [r.choice(fixed) for _ in range(4)]
        if r.chance(0.3):
            texts = [gen.mutate(r, t) if r.chance(0.3) else t for t in texts]
        for _ in range(r.choice([0, 2, 4])):
            texts.append(gen.near(r, r.choice(texts)))
        lists = [[r.choice(pool + ["", " "]) for _ in range(r.choice([0, 1, 2, 4]))] for _ in range(2)]
        lists += [[r.choice(people) for _ in range(r.choice([1, 2, 3]))] for _ in range(2)]
        ops = OPS if r.chance(0.5) else r.sample(OPS, 6)
        yield {"texts": [cp(t) for t in texts], "lists": [[cp(q) for q in l] for l in lists], "ops": ops, "g": g, "rounds": rounds,
               "seed": r.randrange(1 << 30), "procs": 0 if r.chance(0.6) else r.choice([1, 2, 4])}


def c17(c):
    merged = {}

    def merge(evs):
        for e in evs:
            if "calls" not in e:
                merged[len(merged)] = dict(crash({"texts": []}, e["r"]), **dict(e, k="call"))
                continue
            for k in e["calls"]:
                key = json.dumps([k["op"], k.get("s", k.get("ss"))])
                m = merged.setdefault(key, {"k": "call", "op": k["op"], "r": "ok", "outs": [], "same": True, "s": k.get("s", []),
                                            "ss": k.get("ss", [])})
                m["same"] = m["same"] and k["same"]
                for o in k["outs"]:
                    if o not in m["outs"]:
                        m["outs"].append(o)

    def crash(k, o):
        return {"k": "call", "op": "all", "r": o, "outs": [], "same": True, "s": [], "ss": k["texts"]}
    r = Rand(c.seed * 1000 + 171)
    plain = c.build("mqcalls")
    race = c.build("mqcalls", race=True)
    cases = list(call_cases(c, r, c.pick(60, 500), 8, 2))
    # histories: everything one after the other, the same arguments again in other orders
    alone = [dict(k, g=1, rounds=2, seed=k["seed"] + 1) for k in cases]
    merge(c.run_cases(plain, "calls", alone, crash_event=crash))
    merge(c.run_cases(race, "calls", cases, crash_event=crash))
    rest = list(call_cases(c, r, c.pick(60, 600), 8, 3))
    merge(c.run_cases(plain, "calls", rest, crash_event=crash))
    merge(c.run_cases(plain, "calls", list(reversed([dict(k, g=1, rounds=1) for k in rest])), crash_event=crash))
    gates = c.model("MQGateGen", constants={"Emit": "TRUE"})
    if not c.thorough:
        gates = r.sample(gates, min(len(gates), 2500))
    gated = [{"ss": x["ss"], "h": {k: m for k, m in x["h"].items() if m != "none"}, "fails": x["fails"], "at": r.choice(ATS), "order": x["order"]} for x in gates]
    evs = c.run_cases(race, "gated", gated, crash_event=lambda k, o: dict(k, k="gated", r=o, ctx=True, runs=[], h={}))
    c.sample(*[readable(e) for e in list(merged.values())[-4:]])
    c.cov["distinct_nontrivial"] = len(merged) + len(gated)
    c.judge(c.validate("MQCallTrace", list(merged.values()) + evs), readable)


CHECKS = {"C16": ("model_checking", c16), "C17": ("model_checking", c17)}
