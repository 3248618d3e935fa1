import concurrent.futures as cf, json, os, shutil, subprocess
import cfg, probes
from check import Violation

SOFT, HARD = [2, 3, 13, 15, 20], [4, 6, 7, 8, 11]
ICFG = """SPECIFICATION Spec
CONSTANTS STEPS=%d WRITES=%d MAXSIG=%d SOFT={2,15} HARD={11} EXISTS=%s GONE=%s
INVARIANTS NoFault OneFile Handles Abstract
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
"""


def design(c):
    for ex, gone in (("FALSE", "TRUE"), ("TRUE", "FALSE")):
        c.design("LifeImpl", ICFG % (((4, 3, 5) if c.thorough else (3, 2, 3)) + (ex, gone)))


class Sim:
    """One configuration of the program, its uninterrupted run, and interrupted runs judged against it."""
    hung = False

    def __init__(self, c, name, dims, probes_, steps, macro, threads=1):
        self.c, self.name, self.steps, self.probes = c, name, steps, probes_
        self.args = dict(nr=dims[0], nz=dims[1], rd=dims[2], zd=dims[3], macro=macro, end=(steps - 0.5) * cfg.DT,
                         probes=[p[0] for p in probes_])
        self.threads, self.root = threads, {"2x2": "out/data/of/run", "1x1": "out"}.get(name, "./o-1/")
        self.exe = c.build("default", "life.cpp", with_main="renamed")
        self.sched = {p[1]["path"]: p[1]["sched"] for p in probes_}
        self.n = 0
        rc, log, disk, _ = self.one([], None)
        if rc != 0 or disk is None or disk.get("vp_h5") != "closed":
            raise Violation("%s: a run without signals ended with %s" % (name, rc), dict(tail=log[-5:]))
        last = [e for e in log if e["e"] == "ticks"][0]
        self.ticks, self.ops = last["n"], last["ops"]
        self.disk = disk
        per = [[] for _ in range(steps)]
        for e in log:
            if e["e"] == "write":
                per[e["off"][0] * self.sched[e["path"]]].append((e["path"], tuple(e["off"]), tuple(e["cnt"])))
        self.per = per
        self.bnd, t = [], 0
        for p in per:
            t += len(p)
            self.bnd.append(t)

    def one(self, sched, existing, fail=""):
        if Sim.hung:
            raise Violation("the program does not end", fatal=True)
        self.n += 1
        d = os.path.join(self.c.tmp, "%s-%d" % (self.name, self.n))
        os.makedirs(d)
        f = cfg.make(d + "/c.json", root=self.root, **self.args)
        out = d + "/" + self.root
        before = None
        if existing is not None:
            before = existing if isinstance(existing, str) else json.dumps(existing)
            os.makedirs(out)
            with open(out + "/data.h5", "w") as o:
                o.write(before)
        with open(d + "/s", "w") as o:
            for t, w in sched:
                o.write("%d %s\n" % (t, w))
        env = dict(os.environ, VP_H5_DISK="1", VP_H5_LOG=d + "/log", VP_ROOT=out, VP_THREADS=str(self.threads), VP_ORDER=str(self.c.seed),
                   VERIF_SEED=str(self.c.seed))
        if fail:
            env["VP_FAIL"] = fail
        try:
            p = subprocess.run([self.exe, d + "/s", "-f", f], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            Sim.hung = True
            raise Violation("the program does not end", dict(config=self.args, signals=sched, fail=fail), fatal=True)
        log = [json.loads(l) for l in open(d + "/log")] if os.path.exists(d + "/log") else []
        disk, raw = None, None
        if os.path.exists(out + "/data.h5"):
            raw = open(out + "/data.h5").read()
            try:
                disk = json.loads(raw)
            except ValueError:
                disk = {"vp_h5": "other"}
        shutil.rmtree(d)
        return rc, log, disk, (before is not None and raw == before)

    def waits(self, t):
        """-> the point at which a run that is asked to pause at point t waits"""
        log = self.one([(t, 10), (-1, 12)], None)[1]
        return next((e["tick"] for e in log if e["e"] == "sig" and e["n"] == 12), None)

    def contents(self, disk, wi, wrote):
        """-> "" when the file holds exactly the frames of the steps made (a started frame is allowed after a fault)"""
        if wi and disk.get("attrs") != self.disk["attrs"]:
            return "metadata"
        for path, ref in self.disk["dsets"].items():
            got = disk.get("dsets", {}).get(path)
            if got is None:
                if wi:
                    return "no dataset " + path
                continue
            frames = max([w[1][0] for w in wrote if w[0] == path], default=-1) + 1
            row = 1
            for x in ref["dims"][1:]:
                row *= x
            if got["dims"][1:] != ref["dims"][1:]:
                return "shape of " + path
            if got["dims"][0] != max(frames, 1 if frames == 0 and got["dims"][0] == 1 else frames):
                return "number of frames of %s: %s, expected %d" % (path, got["dims"][0], frames)
            if got["data"][:frames * row] != ref["data"][:frames * row]:
                return "values of " + path
        return ""

    def trace(self, sched, existing=None, fail=""):
        rc, log, disk, untouched = self.one(sched, existing, fail)
        ev = [dict(e="run", exists=existing is not None, sched=sched, fail=fail)]
        wi, wrote, hard, stuck, broken = 0, [], False, False, False
        left = [sorted(p) for p in self.per]
        for e in log:
            k = e["e"]
            if k in ("create", "resize", "attr"):
                ev.append(dict(e="prep"))
            elif k == "write":
                w = (e["path"], tuple(e["off"]), tuple(e["cnt"]))
                st = next((i for i in range(self.steps) if self.bnd[i] > wi), None)
                ok = st is not None and w in left[st]
                if ok:
                    left[st].remove(w)
                wrote.append(w)
                wi += 1
                ev.append(dict(e="write", ok=ok, path=e["path"]))
            elif k == "open":
                ev.append(dict(e="open", mode=e["mode"]))
            elif k == "close":
                ev.append(dict(e="close"))
            elif k == "fault":
                ev.append(dict(e="fault", what=e["what"]))
            elif k == "sig":
                hard = hard or e["n"] in HARD
                ev.append(dict(e="sig", n=e["n"]))
            elif k == "ioerr":
                broken = True
                ev.append(dict(e="ioerr", op=e["op"]))
            elif k == "remove":
                ev.append(dict(e="remove"))
            elif k == "sleep":
                ev.append(dict(e="sleep", disk=e["disk"]))
            elif k == "stuck":
                stuck = True
                ev.append(dict(e="stuck"))
        if isinstance(rc, int) and rc < 0:
            rc = -rc          # killed by the signal itself
        state = "absent" if disk is None else disk.get("vp_h5", "other")
        if existing is not None:
            what = "" if untouched else "the file that was there is changed"
        elif state == "closed" and not hard and (not broken or rc == 0):
            what = self.contents(disk, wi, wrote)
        elif state == "closed":
            done = max([b for b in self.bnd if b <= wi], default=0)
            what = self.complete(disk, done)
        else:
            what = ""
        ev.append(dict(e="end", code=rc if rc != "timeout" else 998, stuck=stuck, disk=state, other=existing is not None, same=not what, what=what))
        return ev

    def complete(self, disk, done):
        """after a fault: frames of the complete steps are there"""
        wrote = [w for p, b in zip(self.per, self.bnd) if b <= done for w in p]
        for path, ref in self.disk["dsets"].items():
            frames = max([w[1][0] for w in wrote if w[0] == path], default=-1) + 1
            row = 1
            for x in ref["dims"][1:]:
                row *= x
            got = disk.get("dsets", {}).get(path, {"data": []})
            if got["data"][:frames * row] != ref["data"][:frames * row]:
                return "values of " + path
        return ""

    def play(self, cases, what):
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            evs = list(ex.map(lambda a: self.trace(*a), cases))
        # traces with unusual ends first in the samples
        self.c.sample(lambda: dict(config=self.name, ticks=self.ticks, writes_per_step=[len(p) for p in self.per], example=evs[len(evs) // 2][:12]))
        trace = [dict(e="cfg", bnd=self.bnd, config=self.name)] + [e for t in evs for e in t]
        self.c.validate("LifeTrace", trace, what, ntraces=len(evs))


def schedules(R, s, c):
    T = s.ticks
    out = [([], None)]
    every = range(1, T + 1)
    some = list(every) if c.thorough else sorted(R.sample(list(every), min(T, 60)))
    for t in some:
        out.append(([(t, 10), (-1, 12)], None))                      # pause, continue
        out.append(([(t, R.choice(SOFT))], None))                    # stop
        if c.thorough or R.random() < 0.4:
            out.append(([(t, 10), (-1, R.choice(SOFT))], None))      # pause, stop
            out.append(([(t, R.choice(HARD))], None))                # fault
    for t in (R.sample(list(every), min(T, 40 if c.thorough else 8))):
        out.append(([(t, 10)], None))                                # left paused
        out.append(([(t, 10), (-1, "remove"), (-1, 12)], None))      # file taken away
        out.append(([(t, 12)], None))                                # nothing to continue
        out.append(([(t, 10), (-1, 10), (-1, 10), (-1, 12), (-1, 12)], None))
    for t in R.sample(list(every), min(T, 30 if c.thorough else 4)):     # at every point of pausing and continuing
        p = s.waits(t)
        for k in range(-8, 9) if p else ():
            out.append(([(t, 10), (p + k, 12)] if k <= 0 else [(t, 10), (-1, 12), (p + k, 12), (p + k, 10), (-1, 12)], None))
            out.append(([(t, 10), (p + k, R.choice(SOFT))] if k <= 0 else [(t, 10), (-1, 12), (p + k, R.choice(SOFT))], None))
            out.append(([(t, 10), (p + k, 12), (p + k + R.randint(0, 2), 10), (-1, 12)], None))
    for _ in range(1500 if c.thorough else 150):                     # histories
        n = R.randint(2, 7)
        ts = sorted(R.choice([R.randint(1, T), R.randint(1, T), -1]) for _ in range(n))
        sig = [R.choice([10, 10, 10, 12, 12, 12, 12] + ([R.choice(SOFT + HARD)] if R.random() < 0.5 else [10])) for _ in range(n)]
        # points in their order; entries without one follow their predecessor
        out.append(([(t, g) for t, g in zip(R.sample(ts, n) if R.random() < 0.2 else ts, sig)], None))
        if R.random() < 0.6:
            a = sorted(R.randint(1, T) for _ in range(2))
            out.append(([(a[0], 10), (a[0] + R.randint(0, 3), 12), (a[1], 10), (-1, R.choice([12, 12, 10, 15])), (-1, 12)], None))
    old = [s.disk, "", "not a data file\n", {"vp_h5": "open"}]
    for k, o in enumerate(old):
        out.append(([], o))
        for g in (10, 12, 15, 11):
            out.append(([(R.randint(1, 40), g)], o))
    return out


def run(c):
    design(c)
    R = c.rng
    P = probes
    sims = [("2x2", (8, 8, 2, 2), [P.dot(0, 1, 1, 1), P.rec(2, 1, 1, 5, 6, 1), P.col(4, 3, 2), P.row(6, 2, 3)], 5, 64, 1),
            ("1x1", (6, 6, 1, 1), [P.dot(2, 2, 2, 1)], 4, 16, 1),
            ("1x4", (8, 8, 1, 4), [P.row(0, 4, 1), P.rec(4, 0, 0, 8, 8, 2)], 4, 32, 3)]
    for s in sims:
        sim = Sim(c, *s)
        sim.play(schedules(R, sim, c), "signals at every point of a run (%s)" % s[0])
