"""Check of queries of any size: C18."""
DIALECTS = ["sqlite", "mysql", "postgres"]
OPS = ["print", "visit", "join", "gorm", "sql", "ql"]
# text that grows with the square of the depth
NESTED = ("edges", "friends")


def c18(c):
    fams = {x["f"]: x for x in c.model("MQScaleGen", constants={"Last": c.pick(12, 40)})}
    b = c.build("mqscale")
    cases = []

    def add(f, n, op):
        cases.append(dict(fams[f], n=n, op=op, d=DIALECTS[(len(cases) + c.seed) % 3], copies=1 + (len(cases) + c.seed) % 3))
    small = list(range(1, c.pick(13, 41))) + [50, 100, 255, 256, 300, 511, 999, 1000]
    for f in sorted(fams):
        for op in OPS:
            for n in small:
                if f not in NESTED or n <= 300:
                    add(f, n, op)
            for n in c.pick((1001, 9999, 10001), (1001, 4096, 9999, 10000, 10001, 30000, 65536, 99998, 99999, 100001, 300000)):
                if f not in NESTED:
                    add(f, n, op)
    for op in OPS:
        for f in ("compares", "open", "close", "parens", "calls", "string", "blanks") + c.pick((), ("ands", "ors", "numbers", "comments")):
            add(f, 1200000, op)
        for f in ("ands", "nots", "sides"):
            add(f, 30000, op)
        for f in NESTED:
            add(f, 10001, op)
            add(f, 2000 if c.thorough else 600, op)
    c.sample(*["%s %d %s" % (k["f"], k["n"], k["op"]) for k in cases[::len(cases) // 6]])
    c.cov["distinct_nontrivial"] = len(cases)
    evs = c.run_lanes(5, b, "size", cases, crash_event=lambda k, o: {"k": "size", "f": k["f"], "n": k["n"], "op": k["op"], "d": k["d"],
                                                                      "copies": k["copies"], "r": o})
    c.log("ran %d members" % len(evs))
    c.judge(c.validate("MQScaleTrace", evs), lambda e: e)


CHECKS = {"C18": ("model_checking", c18)}
