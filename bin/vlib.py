"""Shared machinery of the checks: build, generate, drive, validate, report."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("APPDASH_REPO", "/repo")  # the override is for trying planted bugs in a scratch copy
OUT = os.environ.get("APPDASH_OUT", VERIF)  # where evidence and replays go (same use)
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOT = "/opt/veriftools/go1.27.3"
PART = 40 << 20  # bytes of traces given to TLC at once
PKG = "sourcegraph.com/sourcegraph/appdash"


class Infra(Exception):
    """The check itself could not do its work."""


class Violation(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


def goenv():
    e = dict(os.environ)
    e.update(GOROOT=GOROOT, PATH=GOROOT + "/bin:" + e.get("PATH", ""), GOPATH="/root/go",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", GOWORK="off",
             GONOSUMDB="*", GONOSUMCHECK="1", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def ensure_gomod():
    """/repo's go.mod and go.sum are untracked; put them there as the build does."""
    for f in ("go.mod", "go.sum"):
        if not os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join("/opt/vp/mod", f), os.path.join(REPO, f))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="appdash-verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.stages, self.violations, self.known = [], [], [], []
        self.assumptions = []
        self._bins = {}
        self._n = 0

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def say(self, s):
        print("[%6.1fs] %s" % (time.time() - self.t0, s), flush=True)

    def path(self, name):
        self._n += 1
        return os.path.join(self.dir, "%02d-%s" % (self._n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- building -------------------------------------------------------
    def modfile(self):
        if REPO == "/repo":
            return []
        m = os.path.join(self.dir, "go.mod")
        with open(os.path.join(HARNESS, "go.mod")) as f:
            t = f.read().replace("=> /repo", "=> " + REPO).replace("=> ./stubs", "=> " + HARNESS + "/stubs")
        with open(m, "w") as f:
            f.write(t)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(self.dir, "go.sum"))
        return ["-modfile=" + m]

    def harness(self, race=False):
        key = "race" if race else "plain"
        if key not in self._bins:
            ensure_gomod()
            out = os.path.join(self.dir, "drive-" + key)
            cmd = ["go", "test", "-c", "-vet=off", "-o", out] + self.modfile() + (["-race"] if race else []) + ["./drive"]
            p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise Infra("building the harness failed:\n" + p.stdout[-4000:])
            self._bins[key] = out
            self.say("built harness (%s)" % key)
        return self._bins[key]

    def appdash_bin(self):
        if "cmd" not in self._bins:
            ensure_gomod()
            out = os.path.join(self.dir, "appdash")
            p = subprocess.run(["go", "build", "-o", out] + self.modfile() + [PKG + "/cmd/appdash"], cwd=HARNESS, env=goenv(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise Infra("building cmd/appdash failed:\n" + p.stdout[-4000:])
            self._bins["cmd"] = out
        return self._bins["cmd"]

    # ---- TLC ------------------------------------------------------------
    def tlc(self, spec, cfg, extra=(), env=None, workers=8, timeout=600, heap="6g"):
        meta = tempfile.mkdtemp(dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", TLAJAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [spec + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Infra("TLC timed out on %s %s" % (spec, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def cfg(self, text):
        p = self.path("gen.cfg")
        with open(p, "w") as f:
            f.write(text)
        return p

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
        if m:
            return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: (\d[\d,]*)", out)
        if m:
            n = int(m[-1].replace(",", ""))
            return n, n
        return 0, 0

    def model_check(self, spec, cfg, timeout=600, extra=(), env=None):
        """Explore the specification; it must satisfy its own properties."""
        t = time.time()
        if not os.path.isabs(cfg):
            cfg = os.path.join(SPECS, cfg)
        rc, out = self.tlc(spec, cfg, timeout=timeout, extra=extra, env=env)
        gen, dist = self.counts(out)
        if rc != 0 or "Error:" in out:
            raise Infra("model checking %s %s failed (rc %d):\n%s" % (spec, cfg, rc, out[-6000:]))
        self.states += dist
        self.transitions += gen
        self.stages.append({"stage": "model check", "spec": spec, "cfg": os.path.basename(cfg), "distinct_states": dist,
                            "transitions": gen, "exhaustive": "-simulate" not in extra, "wall_s": round(time.time() - t, 1)})
        self.say("model check %s: %d states, %d transitions" % (os.path.basename(cfg), dist, gen))

    def refutes(self, spec, cfg, inv):
        """A specification of a broken design: its invariant must be refuted, or the invariant says nothing."""
        rc, out = self.tlc(spec, os.path.join(SPECS, cfg), timeout=300)
        if not re.search(r"Invariant %s is violated|property %s was violated|properties were violated" % (inv, inv), out):
            raise Infra("%s %s does not refute %s (rc %d):\n%s" % (spec, cfg, inv, rc, out[-4000:]))
        self.stages.append({"stage": "negative control", "spec": spec, "cfg": cfg, "refuted": inv})
        self.say("negative control %s: %s refuted" % (cfg, inv))

    def generate(self, spec, consts, simulate=None, depth=None, timeout=600, workers=8, limit=None):
        """Stimuli printed by a generator specification."""
        t = time.time()
        cfg = self.cfg("SPECIFICATION Spec\nCONSTANTS\n%s\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                       % "\n".join("  %s = %s" % (k, v) for k, v in consts.items()))
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed)]
            workers = 1
        rc, out = self.tlc(spec, cfg, extra=extra, timeout=timeout, workers=workers)
        lines = [json.loads(l)[4:] for l in out.splitlines() if l.startswith('"@@S ')]
        if rc != 0 or not lines:
            raise Infra("generating from %s failed (rc %d):\n%s" % (spec, rc, out[-4000:]))
        lines = sorted(set(lines)) if not simulate else list(dict.fromkeys(lines))
        gen, dist = self.counts(out)
        self.states += dist
        self.transitions += gen
        self.stages.append({"stage": "generate", "spec": spec, "constants": consts, "stimuli": len(lines),
                            "exhaustive": not simulate, "wall_s": round(time.time() - t, 1)})
        self.say("generated %d stimuli from %s %s" % (len(lines), spec, consts))
        return lines[:limit] if limit else lines

    # ---- driving the real code -----------------------------------------
    def drive(self, driver, mode="", n=100, stim=None, race=False, timeout=600, env=None, shards=1, watchdog=60):
        """Run a driver; returns the paths of the recorded traces."""
        t = time.time()
        binp = self.harness(race)
        outs, procs = [], []
        stims = [None] * shards
        if stim is not None:
            stims = [stim[i::shards] for i in range(shards)]
        for i in range(shards):
            out = self.path("%s-%s.ndjson" % (driver, mode))
            wd = out + ".dir"
            os.mkdir(wd)
            e = goenv()
            e.update(DRV=driver, DRV_MODE=mode, DRV_N=str(n), DRV_SHARD=str(i), DRV_RACE=str(int(race)), DRV_OUT=out, DRV_DIR=wd, DRV_WATCHDOG=str(watchdog), DRV_BUDGET=str(int(timeout * (0.8 if self.thorough else 0.4))),
                     VERIF_SEED=str(self.seed * 64 + i), DRV_THOROUGH="1" if self.thorough else "0",
                     GORACE="halt_on_error=0 exitcode=66 atexit_sleep_ms=0 history_size=3", TMPDIR=wd)
            e.update(env or {})
            if stims[i] is not None:
                sp = out + ".stim"
                with open(sp, "w") as f:
                    f.write("\n".join(stims[i]) + "\n")
                e["DRV_IN"] = sp
            lo = open(out + ".log", "w")
            procs.append((out, lo, subprocess.Popen([binp, "-test.run", "^TestDrive$", "-test.timeout", "0"], cwd=wd, env=e,
                                                    stdout=lo, stderr=subprocess.STDOUT)))
        end = time.time() + timeout
        for out, lo, p in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for _, _, x in procs:
                    x.kill()
                raise Infra("driver %s %s did not finish in %d s" % (driver, mode, timeout))
            lo.close()
            log = open(out + ".log", errors="replace").read()
            if rc != 0 or "DRIVE-DONE" not in log:
                for _, _, x in procs:
                    x.kill()
                self.crashed(driver, mode, out, rc, log)
            if "(stopped early)" in log:
                self.say("driver %s %s was stopped early" % (driver, mode))
                self.stages.append({"stage": "drive", "driver": driver, "mode": mode, "stopped_early": True})
            outs.append(out)
        self.say("drove %s %s (%.1fs)" % (driver, mode, time.time() - t))
        return outs

    def crashed(self, driver, mode, out, rc, log):
        cur = ""
        try:
            cur = open(out + ".cur", errors="replace").read()
        except OSError:
            pass
        kind = None
        frames = re.search(r"sourcegraph\.com/sourcegraph/appdash[./(]", log) or REPO + "/" in log
        if "WATCHDOG" in log and frames:
            kind = "call never returned"
        elif "DATA RACE" in log and frames:
            kind = "data race"
        elif re.search(r"^(panic:|fatal error:|runtime: goroutine stack exceeds)", log, re.M) and frames:
            kind = "crash"
        if kind is None:
            raise Infra("driver %s %s failed (rc %d):\n%s" % (driver, mode, rc, log[:3000] + "\n...\n" + log[-3000:]))
        m = re.search(r"^(WATCHDOG.*|WARNING: DATA RACE|panic:.*|fatal error:.*|runtime: goroutine stack exceeds.*)$", log, re.M)
        at = m.start() if m else 0
        raise Violation("%s in the code under test (driver %s %s)" % (kind, driver, mode),
                        {"driver": driver, "mode": mode, "seed": self.seed, "stimulus": cur, "log": log[at:at + 8000]})

    # ---- validating traces ----------------------------------------------
    def validate(self, spec, outs, prop=None, timeout=900, env=None, cfg=None, heap="8g", workers=8, minimum=1):
        t = time.time()
        if isinstance(outs, str):
            outs = [outs]
        allp = self.path("all.ndjson")
        n = 0
        recs = []
        with open(allp, "w") as f:
            for o in outs:
                with open(o) as g:
                    for l in g:
                        f.write(l)
                        recs.append(l)
        n = len(recs)
        if n < minimum:
            raise Infra("driver recorded only %d traces for %s" % (n, spec))
        nev = sum(l.count('"op":') for l in recs)
        cfg = os.path.join(SPECS, cfg or spec + ".cfg")
        e = {"TRACE_FILE": allp, "PROP": prop or self.prop, "VERBOSE": "0"}
        e.update(env or {})
        # TLC keeps all traces in memory: large files go through in parts
        parts, size = [[0, 0]], 0
        for i, l in enumerate(recs):
            if size > PART and i > parts[-1][0]:
                parts.append([i, i])
                size = 0
            size += len(l)
            parts[-1][1] = i + 1
        gen = dist = 0
        done = set()
        for lo, hi in parts:
            x = dict(e)
            if len(parts) > 1:
                x["TRACE_FILE"] = self.path("part.ndjson")
                with open(x["TRACE_FILE"], "w") as f:
                    f.writelines(recs[lo:hi])
            rc, out = self.tlc(spec, cfg, env=x, timeout=timeout, heap=heap, workers=workers)
            if len(parts) > 1:
                os.remove(x["TRACE_FILE"])
            g, d = self.counts(out)
            gen, dist = gen + g, dist + d
            done |= {lo + int(k) for k in re.findall(r'^"@@DONE (\d+)"', out, re.M)}
            if "Finished in" not in out:
                raise Infra("trace validation with %s failed (rc %d):\n%s" % (spec, rc, out[-6000:]))
            if rc != 0 or "Error:" in out:
                # an evaluation error on some trace: find which
                return self.isolate(spec, recs[lo:hi], e, cfg, out)
        self.states += dist
        self.transitions += gen
        self.traces += len(done)
        self.events += nev
        rejected = [i for i in range(1, n + 1) if i not in done]
        self.stages.append({"stage": "validate", "spec": spec, "traces": n, "events": nev, "accepted": len(done),
                            "distinct_states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)})
        self.say("validated %d traces (%d events) with %s: %d rejected" % (n, nev, spec, len(rejected)))
        if len(self.samples) < 6:
            for i in (0, n // 2):
                s = recs[i]
                if len(s) < 6000:
                    self.samples.append(json.loads(s))
                else:
                    self.samples.append({"truncated_trace": s[:1500]})
        for i in rejected[:3]:
            self.reject(spec, recs[i - 1], e, cfg)
        if len(rejected) > 3:
            self.violations.append(("%d further traces rejected by %s" % (len(rejected) - 3, spec), None))
        return rejected

    def isolate(self, spec, recs, e, cfg, out):
        """TLC stopped with an error: a logged value the specification cannot
        even evaluate.  Find the traces by bisection."""
        bad = []

        def run(part):
            p = self.path("part.ndjson")
            with open(p, "w") as f:
                f.writelines(part)
            x = dict(e)
            x["TRACE_FILE"] = p
            rc, o = self.tlc(spec, cfg, env=x, timeout=600)
            return rc == 0 and "Error:" not in o, o

        def rec(part):
            if len(bad) >= 2:
                return
            ok, o = run(part)
            if ok:
                return
            if len(part) == 1:
                bad.append((part[0], o))
                return
            rec(part[:len(part) // 2])
            rec(part[len(part) // 2:])
        rec(recs)
        if not bad:
            raise Infra("trace validation with %s failed:\n%s" % (spec, out[-6000:]))
        if len(bad) > 2 or any(x in o for _, o in bad for x in ("OutOfMemory", "StackOverflow", "Parsing or semantic", "unsupported JSON value")):
            raise Infra("specification %s cannot evaluate a trace:\n%s\n%s" % (spec, bad[0][0][:3000], bad[0][1][-3000:]))
        # the rest is fine, so these traces hold something no action has a meaning for
        for line, o in bad:
            rec = json.loads(line)
            self.violations.append(("%s: trace %r holds a value that the specification has no meaning for" % (spec, rec.get("name")),
                                    {"spec": spec, "prop": e["PROP"], "tlc": o[-3000:], "trace": rec}))
        return bad

    def reject(self, spec, line, e, cfg):
        p = self.path("one.ndjson")
        with open(p, "w") as f:
            f.write(line)
        x = dict(e)
        x.update(TRACE_FILE=p, VERBOSE="1")
        rc, out = self.tlc(spec, cfg, env=x, timeout=300, workers=1)
        ats = [int(b) for b in re.findall(r'^"@@AT \d+ (\d+)"', out, re.M)]
        rec = json.loads(line)
        l = max(ats) if ats else 0
        ev = rec["ev"][l - 1] if 0 < l <= len(rec["ev"]) else None
        what = "%s: no action of the specification explains event %d of trace %r: %s" % (
            spec, l, rec.get("name"), json.dumps(ev)[:600])
        self.violations.append((what, {"spec": spec, "prop": e["PROP"], "event_number": l, "event": ev, "trace": rec}))

    # ---- results ---------------------------------------------------------
    def known_findings(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"KNOWN-FINDING: property=(\S+) match=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def evidence(self):
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_validated": self.events,
                           "samples": self.samples[:4], "stages": self.stages},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        tmp = os.path.join(OUT, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(OUT, "evidence", self.prop + ".json"))

    def replay(self, what, detail):
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        k = 1
        while os.path.exists(os.path.join(d, "%s-%d.json" % (self.prop, k))):
            k += 1
        p = os.path.join(d, "%s-%d.json" % (self.prop, k))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "what": what, "detail": detail}, f, indent=1)
        return p


def run(prop, tier, seed, func):
    c = Ctx(prop, tier, seed)
    for p in glob.glob(os.path.join(OUT, "replays", prop + "-*.json")):
        os.remove(p)
    try:
        try:
            func(c)
        except Violation as v:
            c.violations.append((v.what, v.detail))
        real = []
        known = c.known_findings()
        for what, detail in c.violations:
            for key, text in known:
                if detail is not None and key in json.dumps(detail):
                    c.known.append(text)
                    break
            else:
                real.append((what, detail))
        for t in sorted(set(c.known)):
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        c.violations = real
        c.evidence()
        if real:
            for what, detail in real:
                if detail is None:
                    print(what)
                    continue
                print(what)
                print("VIOLATION property=%s replay=%s" % (prop, c.replay(what, detail)))
            return 1
        c.say("%s held: %d states, %d transitions, %d traces, %d events" % (prop, c.states, c.transitions, c.traces, c.events))
        return 0
    except Infra as x:
        print("CHECK-ERROR property=%s %s" % (prop, x))
        return 3
    finally:
        c.close()
