"""Is the specification bound to what was recorded?  Runs checks with one recorded result of
each sampled event changed, and counts how many of them the specification rejects.

usage: python3 -B lib/selftest.py [id ...]      (needs /repo, changes nothing)
"""
import copy
import random
import shutil
import sys

import registry
import vlib

# the fields of an event that the real code produced
RESULTS = {"parse": ["ast", "r"], "accept": ["r"], "variants": ["rs"], "build": ["b", "ast2"], "scale": ["r"], "join": ["j"],
           "cond": ["w", "vs"], "names": ["w", "vs"], "rows": ["ids"], "session": ["outs"], "bind": ["w", "vs"], "text": ["w"], "edge": ["ids"],
           "calls": ["outs"], "ql": ["p"], "qlerr": ["r"], "qlrows": ["ids"], "qls": ["ps"], "visit": ["runs"], "gated": ["runs"],
           "call": ["outs"], "size": ["size", "height", "longest", "leaves", "args", "text", "places"], "nodes": ["nodes"]}
SWAP = {"ok": "err", "err": "ok", "eq": "neq", "and": "or", "or": "and", "&&": "||", "||": "&&"}


def places(v, path=()):
    """Every part of a result that can be changed."""
    if isinstance(v, dict):
        for k in sorted(v):
            if k not in ("m", "m2", "t"):
                yield from places(v[k], path + (k,))
    elif isinstance(v, list):
        if v and path[-1] not in ("outs", "rs", "runs"):      # one for each call
            yield path, "drop"
        for i, x in enumerate(v):
            yield from places(x, path + (i,))
    elif isinstance(v, bool) or isinstance(v, int):
        yield path, "change"
    elif isinstance(v, str) and v in SWAP:
        yield path, "change"


def produced(e, path):
    """Parts of a result that only repeat the call, or that no property speaks about."""
    if e["k"] == "session":
        return e["steps"][path[1]]["op"] == "end"
    if e["k"] == "calls":
        return path[2] in ("r", "vs", "w") or (path[2] == "st" and e["outs"][path[1]]["how"] != "alone")
    return True


def change(e, path, how, r):
    at = e
    for k in path[:-1]:
        at = at[k]
    k = path[-1]
    if how == "drop":
        at[k] = list(at[k])
        del at[k][r.randrange(len(at[k]))]
    elif isinstance(at[k], bool):
        at[k] = not at[k]
    elif isinstance(at[k], int):
        at[k] += 1
    else:
        at[k] = SWAP[at[k]]


def selftest(pid):
    r = random.Random(7)
    totals = {}
    validate = vlib.Check.validate

    def corrupted(self, module, events, **kw):
        kinds = {}
        for e in events:
            kinds.setdefault(e["k"], []).append(e)
        for kind, es in sorted(kinds.items()):
            # only events the specification accepts as they are
            es = r.sample(es, min(len(es), 300))
            bad = {id(e) for e, _ in validate(self, module, es, **kw)}
            es = [e for e in es if id(e) not in bad]
            wrong = []
            for e in es:
                x = copy.deepcopy(e)
                opts = [p for f in RESULTS[kind] if f in x for p in places(x[f], (f,)) if produced(x, p[0])]
                if opts:
                    change(x, *r.choice(opts), r)
                    wrong.append(x)
            if not wrong:
                continue
            got = {id(e) for e, v in validate(self, module, wrong, **kw)}
            t = totals.setdefault(kind, [0, 0, []])
            t[0] += len(got)
            t[1] += len(wrong)
            t[2] += [x for x in wrong if id(x) not in got]
        return []
    vlib.Check.validate = corrupted
    c = vlib.Check(pid, registry.CHECKS[pid][0])
    c.log = lambda *a: None
    try:
        registry.CHECKS[pid][1](c)
    finally:
        vlib.Check.validate = validate
        shutil.rmtree(c.work, ignore_errors=True)
    for kind, (n, of, missed) in sorted(totals.items()):
        print("%s %-9s %d of %d changed events rejected" % (pid, kind, n, of), flush=True)
        if "-v" in sys.argv:
            for x in missed[:6]:
                print("   ", str(x)[:1500])


if __name__ == "__main__":
    for p in [a for a in sys.argv[1:] if a != "-v"] or sorted(registry.CHECKS):
        selftest(p)
