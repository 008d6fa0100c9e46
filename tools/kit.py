"""Machinery shared by the checks: build the driver, run TLC, judge traces, report."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from pathlib import Path

VERIF = Path("/verif")
TARGET = VERIF / "target"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OVERRIDES = "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides"


# kinds of events that need the modules left out of a reduced build
NEED_FULL = "share threshold keyshare tshare change aux subset aux-precomputed signing resharing".split()


class CheckError(Exception):
    """The check could not give an answer (exit 2)."""


def sh(cmd, timeout, cwd=None, env=None, log=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        rc = None
    if log:
        Path(log).write_text(out)
    return rc, out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.work = VERIF / "work" / prop
        shutil.rmtree(self.work, ignore_errors=True)
        self.work.mkdir(parents=True)
        self.t0 = time.time()
        self.bad = []           # (key, what, event)
        self.models = []        # evidence of model-checking steps
        self.traces = 0         # traces of the real code judged
        self.events = 0         # events in them
        self.states = self.transitions = 0
        self.samples = []
        self.kinds = {}
        self.notes = []
        self._build = None
        self.reduced = False

    # -- build ------------------------------------------------------------------------------
    def start_build(self):
        """Starts building the driver; `driver()` waits for it."""
        res = {}

        def go():
            with Lock():
                res["rc"], res["out"] = sh([str(VERIF / "tools/build.sh")], 800, log=self.work / "build.log")
        t = threading.Thread(target=go)
        t.start()
        self._build = (t, res)

    def driver(self, suite):
        if self._build is None:
            self.start_build()
        t, res = self._build
        t.join()
        if res["rc"] == 0:
            return str(TARGET / "debug/harness")
        # a part of the driver does not build with this code: build what the suite needs
        for mode in ("full", "subset"):
            exe = self.work / ("harness-%s-%s" % (suite, mode))
            if not exe.exists():
                target = VERIF / ("target-" + mode)
                with Lock():
                    rc, out = sh([str(VERIF / "tools/build.sh"), str(target), suite, mode], 600,
                                 log=self.work / ("build-%s-%s.log" % (suite, mode)))
                    if rc == 0:
                        shutil.copy(target / "debug/harness", exe)
            if exe.exists():
                self.reduced = self.reduced or mode == "subset"
                self.notes.append("suite %s: reduced build (%s)" % (suite, mode))
                return str(exe)
        raise CheckError("the driver does not build: see %s\n%s" % (self.work / "build.log", res["out"][-3000:]))

    # -- TLC --------------------------------------------------------------------------------
    def tlc(self, name, module, cfg, files=(), timeout=600, args=(), workers=8, override=True, heap="6g", simulate=None):
        """Runs TLC on `module` in a directory of its own, with all specifications copied there."""
        d = self.work / name
        d.mkdir(exist_ok=True)
        for f in (VERIF / "spec").rglob("*.tla"):
            shutil.copy(f, d)
        for f in files:
            dst = d / Path(f[1])
            if dst.exists():
                dst.unlink()
            os.link(f[0], dst)
        (d / (module + ".cfg")).write_text(cfg)
        java_overrides()
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
        if override:
            cmd += [OVERRIDES]
        cmd += ["-cp", "%s:%s" % (TARGET / "java", JARS), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", str(d / "states"),
                "-workers", str(workers), "-config", module + ".cfg", *args, module + ".tla"]
        t = time.time()
        rc, out = sh(cmd, timeout, cwd=d, log=d / "tlc.log")
        shutil.rmtree(d / "states", ignore_errors=True)
        r = {"name": name, "module": module, "rc": rc, "out": out, "dir": d, "secs": round(time.time() - t, 1)}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r["generated"], r["distinct"] = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        else:
            r["generated"] = r["distinct"] = 0
        return r

    def model(self, name, module, cfg, must_fail=False, **kw):
        """A property of the specification itself. A failure is an error of the specification."""
        r = self.tlc(name, module, cfg, **kw)
        ok = r["rc"] == 0
        if must_fail:
            ok = r["rc"] in (12, 13)
        if not ok:
            raise CheckError("model %s (%s): rc %s\n%s" % (name, module, r["rc"], r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": name, "module": module, "distinct": r["distinct"], "generated": r["generated"],
                            "secs": r["secs"]})
        return r

    def plan(self, name, module, cfg, **kw):
        """Enumerates cases from the specification into plan.ndjson."""
        r = self.tlc(name, module, cfg, **kw)
        p = r["dir"] / "plan.ndjson"
        if r["rc"] != 0 or not p.exists():
            raise CheckError("plan %s: rc %s\n%s" % (name, r["rc"], r["out"][-3000:]))
        n = sum(1 for _ in open(p))
        self.models.append({"plan": name, "module": module, "cases": n, "secs": r["secs"]})
        return p

    # -- the code ---------------------------------------------------------------------------
    def drive(self, suite, out, timeout=400, **args):
        exe = self.driver(suite)
        path = self.work / out
        a = {"seed": self.seed, "tier": self.tier, "out": str(path)}
        a.update(args)
        cmd = [exe, suite] + ["%s=%s" % kv for kv in a.items()]
        t = time.time()
        env = dict(os.environ, RUST_BACKTRACE="0")
        rc, log = sh(cmd, timeout, env=env, log=str(path) + ".log", cwd=self.work)
        if rc is None:
            self.violation("timeout:" + suite, "the code under test does not terminate (%s s)" % timeout, {"cmd": cmd})
            return None
        if rc != 0:
            m = re.search(r"panicked at (/repo/src/[^\s:]+|src/[^\s:]+)", log)
            if m and "/driver/" not in m.group(1):
                self.violation("panic:" + m.group(1), "panic in the code under test: " + log[-500:], {"cmd": cmd})
                return None
            if rc < 0 and "overflowed its stack" in log:
                self.violation("stack:" + suite, "stack overflow in the code under test", {"cmd": cmd})
                return None
            raise CheckError("driver %s: rc %s\n%s" % (suite, rc, log[-3000:]))
        self.models.append({"driver": suite, "secs": round(time.time() - t, 1)})
        return path

    def judge(self, name, module, trace, required=(), cfg="", key=None, timeout=800, kind=lambda e: e.get("op", "?"),
              sample=2, extra=()):
        """Judges a recorded trace event by event with TLC (see spec/lib/TraceCheck.tla)."""
        if trace is None:
            return
        if self.reduced:
            required = [k for k in required if k not in NEED_FULL]
        c = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT Judge\nPOSTCONDITION Accepted\n"
        c += "CONSTANT Required = {%s}\n" % ", ".join('"%s"' % k for k in required) + cfg
        r = self.tlc(name, module, c, files=[(trace, "trace.ndjson"), *extra], timeout=timeout, args=["-continue"])
        out = r["out"]
        events = [json.loads(l) for l in open(trace)]
        bad = sorted({int(x) for x in re.findall(r'<<"BAD", (\d+)>>', out)})
        if '<<"MISSING"' in out:
            raise CheckError("judge %s: required events do not occur: %s" % (name, re.findall(r'<<"MISSING".*', out)))
        post = bad and "Postcondition" in out and "is false" in out
        if (r["rc"] not in (0, 12, 13) and not post) or "Finished in" not in out or "evaluating" in out and "Error: Evaluating" in out \
                or '<<"NOTALL"' in out or (r["rc"] != 0 and not bad):
            raise CheckError("judge %s: rc %s\n%s" % (name, r["rc"], out[-3000:]))
        for i in bad:
            e = events[i - 1]
            k = key(e) if key else e.get("key") or str(kind(e))
            self.violation(k, "event %d of %s is not allowed by %s" % (i, os.path.basename(trace), module), e)
        self.traces += len(events)
        self.events += len(events)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        for e in events:
            k = str(kind(e))
            self.kinds[k] = self.kinds.get(k, 0) + 1
        h = int(hashlib.sha256(name.encode()).hexdigest(), 16)
        for j in range(min(sample, len(events))):
            self.samples.append(events[(h + j * 7919) % len(events)])
        self.models.append({"judge": name, "module": module, "events": len(events), "secs": r["secs"]})

    # -- result -----------------------------------------------------------------------------
    def violation(self, key, what, event):
        self.bad.append((key, what, event))

    def finish(self, level, assumptions):
        known = read_known()
        shown, new = set(), []
        for key, what, ev in self.bad:
            if (self.prop, key) in known:
                if key not in shown:
                    shown.add(key)
                    print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, known[(self.prop, key)]))
            else:
                new.append((key, what, ev))
        if self.samples:
            samples = [shorten(s) for s in self.samples[:6]]
        else:
            samples = [{"models": self.models[:3]}]
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces, "events_judged": self.events,
            "kinds": dict(sorted(self.kinds.items())), "steps": self.models, "samples": samples,
            "known_findings_seen": sorted(shown),
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (self.prop + ".json")).write_text(json.dumps(ev, indent=1))
        if new:
            seen = {}
            for key, what, e in new:
                seen.setdefault(key, []).append((what, e))
            for n, (key, l) in enumerate(seen.items()):
                p = self.work / ("replay-%d.json" % n)
                p.write_text(json.dumps({"property": self.prop, "key": key, "seed": self.seed, "tier": self.tier,
                                         "how": "python3 /verif/tools/check.py %s --tier %s, VERIF_SEED=%d" % (self.prop, self.tier, self.seed),
                                         "count": len(l), "cases": [{"what": w, "event": e} for w, e in l[:5]]}, indent=1))
                if n < 20:
                    print("  %s (%d): %s" % (key, len(l), l[0][0]))
                    print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("OK property=%s states=%d events=%d wall=%.0fs" % (self.prop, self.states, self.events, ev["wall_s"]))
        return 0


def shorten(x, depth=0):
    """For evidence samples: cut long arrays and strings."""
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, list):
        if len(x) > 12:
            return [shorten(v, depth + 1) for v in x[:8]] + ["... %d more" % (len(x) - 8)]
        return [shorten(v, depth + 1) for v in x]
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    return x


class Lock:
    """One build at a time (cargo waits by itself, javac does not)."""
    def __enter__(self):
        import fcntl
        TARGET.mkdir(exist_ok=True)
        self.f = open(TARGET / ".lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


_java_lock = threading.Lock()


def java_overrides():
    with _java_lock:
        src = VERIF / "java/src/VerifOverrides.java"
        cls = TARGET / "java/VerifOverrides.class"
        if cls.exists() and cls.stat().st_mtime >= src.stat().st_mtime:
            return
        (TARGET / "java").mkdir(parents=True, exist_ok=True)
        rc, out = sh(["javac", "-cp", JARS, "-d", str(TARGET / "java"), str(src)], 120)
        if rc != 0:
            raise CheckError("javac: " + out)


def read_known():
    """known-findings.txt: `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    res = {}
    p = VERIF / "known-findings.txt"
    if p.exists():
        for l in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res
