"""Orchestration shared by the checks: build the harness from /repo's working tree,
run it on cases, let TLC validate what it recorded, report.

Verdicts come only from recorded behaviour of the real code.  Everything that keeps a
check from giving a verdict raises CheckError and ends in exit code 2.
"""
import concurrent.futures
import itertools
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LANES = 64
MODULE = "github.com/wenerme/go-miniquery"

# the runtime ends a program for lack of something, not for what it does
SCARCE = ("out of memory", "cannot allocate memory", "failed to create new OS thread", "signal arrived during")


class CheckError(Exception):
    pass


def cp(s):
    return [ord(c) for c in s]


def text(a):
    return "".join(chr(c) for c in a)


def go_env():
    env = dict(os.environ)
    env.update(PATH="/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local",
               GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GOPATH="/root/go",
               GOMODCACHE="/root/go/pkg/mod", HOME=env.get("HOME", "/root"))
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.pop("GOROOT", None)
    return env


class Check:
    def __init__(self, pid, level, technique_bounds=None):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = sum(map(ord, os.environ["VERIF_SEED"]))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.violations = []      # (reason, replay object)
        self.known = {}           # finding key -> example
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.thorough = self.tier == "thorough"
        self.nfile = itertools.count(1)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a)), flush=True)

    def path(self, name):
        return os.path.join(self.work, "%02d-%s" % (next(self.nfile), name))

    # ------------------------------------------------------------------ build
    def build(self, cmd, race=False):
        repl = {}
        for d, _, fs in os.walk(HARNESS):
            for f in fs:
                if f.endswith(".go"):
                    p = os.path.join(d, f)
                    repl[os.path.join(REPO, "verifharness", os.path.relpath(p, HARNESS))] = p
        ov = self.path("overlay.json")
        with open(ov, "w") as fh:
            json.dump({"Replace": repl}, fh)
        out = self.path(cmd + (".race" if race else ""))
        env = go_env()
        args = ["go", "build", "-overlay", ov, "-o", out]
        if race:
            args.append("-race")
            env["CGO_ENABLED"] = "1"
        args.append("./verifharness/cmd/" + cmd)
        r = subprocess.run(args, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if r.returncode != 0:
            raise CheckError("harness does not build:\n" + r.stdout.decode(errors="replace")[-4000:])
        self.log("built", cmd, "with race detector" if race else "")
        return out

    # ---------------------------------------------------------------- harness
    def write_cases(self, cases, name="cases.ndjson"):
        p = self.path(name)
        with open(p, "w") as fh:
            for c in cases:
                fh.write(json.dumps(c) + "\n")
        return p

    def exec_once(self, binary, mode, cases, timeout, extra=()):
        """Returns (events, exit description or None)."""
        inp = self.write_cases(cases)
        out = self.path("events.ndjson")
        env = dict(os.environ)
        env["TMPDIR"] = self.work
        env["GOMEMLIMIT"] = "6GiB"
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        try:
            r = subprocess.run([binary, mode, inp, out] + list(extra), env=env, cwd=self.work, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out after %ss (%s)" % (timeout, mode))
        events = []
        if os.path.exists(out):
            with open(out) as fh:
                for line in fh:
                    if not line.endswith("\n"):
                        break
                    events.append(json.loads(line))
        os.remove(inp)
        if os.path.exists(out):
            os.remove(out)
        if r.returncode == 0:
            if len(events) != len(cases):
                raise CheckError("harness recorded %d events for %d cases" % (len(events), len(cases)))
            return events, None
        err = r.stderr.decode(errors="replace")
        if r.returncode == 3:
            raise CheckError("harness failed: " + err[-2000:])
        return events, (r.returncode, err)

    def run_lanes(self, lanes, binary, mode, cases, **kw):
        """Run cases that do not depend on each other in several processes at once."""
        with concurrent.futures.ThreadPoolExecutor(lanes) as pool:
            parts = [pool.submit(self.run_cases, binary, mode, cases[i::lanes], **kw) for i in range(lanes)]
            return [e for p in parts for e in p.result()]

    def run_cases(self, binary, mode, cases, timeout=600, crash_event=None, extra=()):
        """Run all cases.  A case that kills the process is confirmed by running it
        alone and becomes crash_event(case, outcome); the rest continues."""
        events = []
        todo = list(cases)
        crashes = 0
        while todo:
            evs, died = self.exec_once(binary, mode, todo, timeout, extra)
            events += evs
            todo = todo[len(evs):]
            if died is None:
                break
            rc, err = died
            if not todo:
                raise CheckError("harness exited with %s after all cases: %s" % (rc, err[-2000:]))
            outcome = "hang" if rc == 97 else ("race" if rc == 66 else "crash")
            bad = todo[0]
            # the race detector and the runtime report what happened, schedules need not repeat
            confirmed = ((outcome == "race" or rc == 2 and not any(x in err for x in SCARCE))
                         and any(MODULE + "/" + p in err for p in ("miniquery.", "gormq.", "entmq.")))
            for _ in range(0 if confirmed else 2):
                _, again = self.exec_once(binary, mode, [bad], timeout, extra)
                if again is not None:
                    confirmed = True
                    break
            if not confirmed:
                _, again = self.exec_once(binary, mode, cases[:len(events) + 1], timeout, extra)
                confirmed = again is not None
            if not confirmed or crash_event is None:
                raise CheckError("harness died (%s), not reproducible: %s" % (rc, err[-2000:]))
            ev = crash_event(bad, outcome)
            ev["m"] = first_line(err)
            events.append(ev)
            todo = todo[1:]
            crashes += 3 if outcome == "hang" else 1
            if crashes >= 5:
                self.log("too many crashes, skipping %d cases" % len(todo))
                break
        return events

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, events=None, tables=None, constants=None, timeout=800, workers=8, simulate=None, deadlock=True,
            xmx="6g"):
        """Run TLC on a module of the specification.  Returns (stdout, stats)."""
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        if constants:
            s = open(cfgp).read()
            for k, v in constants.items():
                s, n = re.subn(r"(?m)^(\s*%s\s*)(=|<-).*$" % re.escape(k), r"\g<1>= %s" % v, s)
                if n != 1:
                    raise CheckError("constant %s not in %s" % (k, cfgp))
            cfgp = self.path("run.cfg")
            open(cfgp, "w").write(s)
        env = dict(os.environ)
        if events is not None:
            env["EVENTS"] = events
        if tables is not None:
            env["TABLES"] = tables
        meta = self.path("meta")
        args = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + self.work, "-cp", JARS,
                "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp]
        if simulate:
            args += ["-simulate", "num=%d" % simulate["num"], "-depth", str(simulate["depth"]), "-seed", str(self.seed)]
        args.append(os.path.join(SPEC, module + ".tla"))
        outp = self.path(module + ".out")
        with open(outp, "wb") as fh:
            try:
                r = subprocess.run(args, env=env, cwd=self.work, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out after %ss on %s" % (timeout, module))
        out = open(outp, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(?m)^([\d,]+) states generated, ([\d,]+) distinct states found", out)
        stats = (0, 0)
        if m:
            stats = tuple(int(x.replace(",", "")) for x in m[-1])
        ok = r.returncode == 0 and ("No error has been found" in out or simulate)
        if not ok:
            tail = "\n".join(x for x in out.splitlines() if not x.startswith(("Linting", "Semantic", "Parsing", '"{')))
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, tail[-5000:]))
        return out, stats

    def model(self, module, cfg=None, constants=None, **kw):
        """Check the properties of the specification itself; returns printed cases."""
        out, (gen, dist) = self.tlc(module, cfg, constants=constants, **kw)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.log("model %s: %d distinct states" % (module, dist))
        return [json.loads(json.loads(x)) for x in out.splitlines() if x.startswith('"{')]

    def validate(self, module, events, cfg="Trace.cfg", tables=None, chunk=40000, timeout=800):
        """Validate recorded events; returns the list of (event, verdict) not ok."""
        bad = []
        for a in range(0, len(events), chunk):
            part = events[a:a + chunk]
            p = self.path("trace.ndjson")
            with open(p, "w") as fh:
                for e in part:
                    fh.write(json.dumps(e) + "\n")
            out, (gen, dist) = self.tlc(module, cfg, events=p, tables=tables, timeout=timeout)
            os.remove(p)
            if dist != len(part) + LANES:
                raise CheckError("TLC consumed %d of %d events of %s" % (dist - LANES, len(part), module))
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["traces_validated_against_impl"] += len(part)
            for m in re.finditer(r'(?m)^<<"VERDICT", (\d+), "(.*)">>', out):
                bad.append((part[int(m.group(1)) - 1], m.group(2)))
        self.log("validated %d events against %s, %d remarks" % (len(events), module, len(bad)))
        return bad

    # ---------------------------------------------------------------- verdict
    def judge(self, bad, describe=lambda e: {}):
        """Verdicts of the specification: "gen:" the case contradicts its generator, "skip:"
        the case is outside of the property, "known:" an identified finding, anything
        else a violation."""
        for e, v in bad:
            if v.startswith("skip:"):
                self.cov["skipped"] = self.cov.get("skipped", 0) + 1
                continue
            if v.startswith("gen:"):
                raise CheckError("generated case is not what it should be (%s): %s" % (v, json.dumps(e)[:2000]))
            if v.startswith("known:"):
                key = v[6:].strip()
                self.known.setdefault(key, e)
                continue
            self.violate(v, e, describe(e))

    def violate(self, reason, event, readable=None):
        self.violations.append((reason, event, readable or {}))

    def known_listed(self):
        """key -> text of the findings listed for this property."""
        res = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    res[m.group(2)] = m.group(3)
        return res

    def sample(self, *xs):
        for x in xs:
            if len(self.cov["samples"]) < 12:
                self.cov["samples"].append(x)

    def finish(self):
        listed = self.known_listed()
        for key, e in list(self.known.items()):
            if key in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, listed[key]))
            else:
                self.violate("finding %s is not listed" % key, e)
        os.makedirs(EVIDENCE, exist_ok=True)
        if self.cov.get("skipped", 0) * 4 > self.cov["traces_validated_against_impl"]:
            raise CheckError("%d cases are outside of the property" % self.cov["skipped"])
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.notes, "violations": len(self.violations)}
        rc = 0
        if self.violations:
            rc = 1
            # smallest first: the shortest event is usually the easiest to read
            self.violations.sort(key=lambda v: len(json.dumps(v[1])))
            rp = os.path.join(EVIDENCE, "replay-%s.json" % self.pid)
            with open(rp, "w") as fh:
                json.dump([{"reason": r, "readable": h, "event": e} for r, e, h in self.violations[:20]], fh, indent=1,
                          ensure_ascii=True)
            for r, e, h in self.violations[:5]:
                print("  %s: %s" % (r, json.dumps(h, ensure_ascii=True)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        return rc


def first_line(err):
    for line in err.splitlines():
        if line.strip():
            return line.strip()[:200]
    return ""


def setup():
    """Compile everything once, so that the build cache is warm.  Checks do not rely on it."""
    cmds = sorted(os.listdir(os.path.join(HARNESS, "cmd")))
    c = Check("setup", "other")
    try:
        for cmd in cmds:
            c.build(cmd)
            if cmd == "mqcalls":
                c.build(cmd, race=True)
    except CheckError as e:
        print("SETUP ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    return 0


def main(checks):
    if sys.argv[1:] == ["--setup"]:
        return setup()
    if len(sys.argv) != 2 or sys.argv[1] not in checks:
        print("usage: check <property>; one of " + " ".join(sorted(checks)))
        return 2
    pid = sys.argv[1]
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    level, fn = checks[pid]
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        # what was found before the error is still a verdict of the real code
        if c.violations:
            try:
                rc = c.finish()
            except Exception as e2:  # pragma: no cover
                print("CHECK ERROR: %s" % e2)
                rc = 2
        else:
            rc = 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    c.log("exit", rc)
    return rc
