"""What every check shares: running drivers, judging traces with TLC, reporting, evidence."""
import json, os, random, shutil, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tlc

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    """fatal: nothing more is looked at (the next part would cost as much time)"""
    def __init__(self, what, data=None, fatal=False):
        super().__init__(what)
        self.what, self.data, self.fatal = what, data, fatal


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.id, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.top = self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.t0 = time.time()
        self.violations = []
        self.known = [k for k in (json.load(open(KNOWN)) if os.path.exists(KNOWN) else [])
                      if k.get("property") == pid and not str(k.get("status", "")).startswith("fixed")]
        self.known_hit = []

    shallow = False
    thorough = property(lambda s: s.tier == "thorough" and not s.shallow)

    # ---- running the code under test -------------------------------------------------
    def build(self, *a, **k):
        return build.build(*a, **k)

    def drive(self, exe, args=(), stdin=None, env=None, timeout=None, ok=(0,), what="driver"):
        """-> list of JSON objects printed.  A crash of the code under test is a result, not an error."""
        e = dict(os.environ)
        e.update(env or {})
        timeout = timeout or (600 if self.thorough else 300)
        try:
            p = subprocess.run([exe] + [str(a) for a in args], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, env=e, timeout=timeout, cwd=self.tmp)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, err = "timeout", ""
            out = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        ev = []
        for l in out.splitlines():
            if l.startswith("{"):
                try:
                    ev.append(json.loads(l))
                except ValueError:
                    pass
        if rc not in ok:
            raise Violation("%s: the code under test ended with %s" % (what, rc),
                            {"exit": rc, "stderr": err[-2000:], "last_events": ev[-3:], "args": [str(a) for a in args]}, fatal=rc == "timeout")
        return ev

    # ---- TLC -------------------------------------------------------------------------
    def design(self, module, cfgtext, workers=6, timeout=800, args=(), **k):
        """Exhaustive check of the specification itself; a failure here is an error of ours."""
        r = tlc.run(module, cfgtext, workers=workers, timeout=timeout, args=args, **k)
        if not r.ok or r.semantic:
            raise tlc.TlcError("the specification %s does not satisfy its own properties:\n%s" % (module, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def validate(self, module, events, what, ntraces=1, cfgtext=None, env=None, timeout=800, heap="4g", describe=None):
        """Check events recorded from the code against the trace specification."""
        if not events:
            raise RuntimeError("empty trace for " + what)
        path = os.path.join(self.tmp, "%s-%d.ndjson" % (module, self.traces))
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        en = {"TRACE": path}
        en.update(env or {})
        c = cfgtext or tlc.TRACE_CFG
        r = tlc.run(module, c, workers=1, timeout=timeout, env=en, heap=heap)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += ntraces
        self.events += len(events)
        if r.semantic:
            r2 = tlc.run(module, c, workers=1, timeout=timeout, env=en, heap=heap)
            if not r2.semantic:
                raise tlc.TlcError("unstable verdict of TLC on " + what)
            i = r.rejected - 1 if r.rejected else None
            last = None
            if i is not None and i < len(events):
                last = events[i]
            data = {"what": what, "spec": module, "rejected_event_index": i, "rejected_event": last,
                    "invariant": r.invariant, "note": r.note,
                    "context": [e for e in events[max(0, (i or 0) - 3):(i or 0)]], "tlc": r.out[-1500:]}
            raise Violation("%s: recorded behaviour is not allowed by %s%s" % (what, module, " (%s)" % r.note if r.note else ""), data)
        if os.path.exists(path):
            os.unlink(path)
        return r

    # ---- reporting -------------------------------------------------------------------
    def report(self, v):
        for k in self.known:
            if k.get("match") and k["match"] in json.dumps([v.what, v.data]):
                self.known_hit.append(k)
                print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
                return
        self.violations.append(v)

    def guard(self, fn, *a, **k):
        """Run one part; collect its violation and go on."""
        try:
            return fn(*a, **k)
        except Violation as v:
            if v.fatal:
                raise
            self.report(v)

    def sample(self, f):
        """Keep one example for the evidence; a record too broken to show one is judged by the trace check."""
        if len(self.samples) < 6:
            try:
                self.samples.append(f())
            except (IndexError, KeyError, TypeError, StopIteration):
                pass

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        rc = 0
        if self.violations:
            rc = 1
            rp = os.path.join(EVID, "%s-replay.json" % self.id)
            with open(rp, "w") as f:
                json.dump([{"what": v.what, "data": v.data} for v in self.violations], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + v.what)
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
        with open(os.path.join(EVID, self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.top, ignore_errors=True)
        return rc


def main(pid, fn, tier, seed, level="model_checking"):
    c = Check(pid, tier, seed, level)
    try:
        try:
            fn(c)
            if c.thorough and not c.violations and not os.environ.get("VP_PROD"):
                # once more, shallow, on the code compiled the way configure does by default (-O3 -ffast-math ...)
                os.environ["VP_PROD"], c.shallow = "1", True
                c.tmp = tempfile.mkdtemp(dir=c.tmp)
                fn(c)
                c.extra["production_flags"] = True
        except Violation as v:
            c.report(v)
        except build.BuildError as e:
            # the code under test does not compile in a configuration this property quantifies over
            print(str(e)[-3000:], file=sys.stderr)
            shutil.rmtree(c.top, ignore_errors=True)
            return 3
        rc = c.finish()
        print("%s %s: %s (%d states, %d traces, %.1f s)" % (pid, tier, "held" if rc == 0 else "VIOLATED", c.states, c.traces, time.time() - c.t0))
        return rc
    except Exception:
        traceback.print_exc()
        shutil.rmtree(c.top, ignore_errors=True)
        return 2
