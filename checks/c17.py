import json, os, subprocess
import build, cfg, tlc, probes
from check import Violation

CONST = dict(NR=1, NZ=1, RD=1, ZD=1, MaxStep=0, Rects="{}", Scheds="{1}")
TCFG = tlc.cfg("TraceSpec", CONST, postcondition="TraceAccepted")
TAG = 5.0 / 2 ** 22
GRIDS = ["density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"]


def hexs(x):
    return x if isinstance(x, str) else "none" if x is None else float(x).hex()


class World:
    """A configuration, the real run of it, and the file the run left with its values replaced by codes."""

    def __init__(self, c, exe, k, g, ps, steps, dt, dr, dz, macro=0, beams=0):
        R = c.rng
        self.d = os.path.join(c.tmp, "w%d" % k)
        os.makedirs(self.d)
        self.nr, self.nz, self.rd, self.zd = g
        self.g, self.steps, self.dt, self.dr, self.dz = g, steps, dt, dr, dz
        self.ps = ps
        self.paths = {}
        f = self.d + "/c.json"
        sp = [dict(name="electrons", charge=-1, mass=1, density=R.choice([1e12, 3.1e13]), temperature=R.choice([1, .3])),
              dict(name="ions", charge=1, mass=R.choice([1, 1836]), density=R.choice([1e12, 2e12]), temperature=R.choice([.1, 2]))]
        bs = [cfg.beam("b%d" % i, R.choice([1, 2, 5]), R.choice([.01, .02]), .005 * (i + 1), .002, R.choice([1e8, 2e8]), i * dt * 3, mass=1, density=1e11 * (i + 1)) for i in range(beams)]
        cfg.make(f, self.nr, self.nz, self.rd, self.zd, dr=dr, dz=dz, dt=dt, end=(steps - .5) * dt, macro=macro, species=sp, beams=bs,
                 probes=[p[0] for p in ps], root=R.choice(["./out/", "data", self.d + "/abs"]), pml=(0, .05, .2) if k % 3 == 1 else (0, 0, 0), sigma=(1e-5, 1.5) if k % 2 else (.25, 2))
        self.cfg = json.load(open(f))
        # the clock may start later: frames keep their numbers, those before the start stay empty
        last = [(steps - 1) // q["sched"] * q["sched"] for _, q in ps]
        self.k0 = R.randint(1, max(1, min(last))) if k % 2 and min(last) >= 1 else 0
        self.cfg["time"]["start"] = self.k0 * dt
        del self.cfg["plot"]
        self.cfg["data"]["compression"] = dict(use=False, level=R.choice([1, 4]))
        self.cfg["data"]["plot"] = dict(
            subplot=dict(cmap=R.choice(["terrain", "gray"]), ticks=dict(x_amount=R.randint(1, 30), y_amount=R.randint(31, 60), z_amount=R.randint(61, 90), cbar_amount=R.randint(91, 99))),
            figure=dict(color="None", width=19.2, height=10.8, dpi=R.choice([72, 150]), font=dict(family="sans-serif", size=10, name="DejaVu Sans")),
            video=dict(codec="mjpeg", fps=R.randint(1, 30), bitrate=32000))
        json.dump(self.cfg, open(f, "w"))
        open(self.d + "/s", "w").close()
        self.cfgpath = f
        self.root = self.cfg["data"]["data_root"]
        out = os.path.join(self.d, self.root)
        env = dict(os.environ, VP_H5_DISK="1", VP_H5_LOG=self.d + "/log", VP_ROOT=out, VP_THREADS="1", VERIF_SEED=str(c.seed))
        try:
            p = subprocess.run([exe, self.d + "/s", "-f", f], env=env, cwd=self.d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            raise Violation("a run of the program does not end", dict(config=self.cfg), fatal=True)
        if p.returncode != 0:
            raise Violation("a run of the program ended with %d" % p.returncode, dict(config=self.cfg, stderr=p.stderr.decode()[-2000:]))
        self.file = os.path.join(out, "data.h5")
        h = json.load(open(self.file))
        got = {x.strip("/"): v for x, v in h["dsets"].items()}
        for i, q in enumerate(p[1] for p in ps):
            if q["path"] not in got:
                raise Violation("the file of a run has no data at " + q["path"], dict(config=self.cfg, there=sorted(got)))
            self.recode(got[q["path"]], q)
        json.dump(h, open(self.file, "w"))
        self.out = os.path.normpath(out)

    def cells(self, q):
        s = q["shape"]
        if s == 0:
            return [(i, j) for i in range(q["r0"], q["r1"]) for j in range(q["z0"], q["z1"])]
        return [(i, q["z1"]) for i in range(self.nr)] if s == 1 else [(q["r1"], j) for j in range(self.nz)] if s == 2 else [(q["r1"], q["z1"])]

    def recode(self, ds, q):
        cs = self.cells(q)
        n = len(ds["data"])
        if ds["dims"][0] * len(cs) != n or ds["dims"][0] != (self.steps - 1) // q["sched"] + 1:
            raise Violation("the file of a run has %s at %s" % (ds["dims"], q["path"]), dict(config=self.cfg))
        ds["data"] = [((q["comp"] * 64 + (i // len(cs)) * q["sched"]) * 32 + cs[i % len(cs)][0]) * 32 + cs[i % len(cs)][1] + TAG for i in range(n)]

    def want(self, out):
        c = self.cfg
        G, P, F, T = c["geometry"], c["geometry"]["pml"], c["data"]["plot"]["figure"], c["data"]["plot"]["subplot"]
        H = lambda *x: [hexs(y) for y in x]
        w = [["geometry size"] + H(G["size"]["radius"], G["size"]["longitude"]), ["grid"] + H(self.nr, self.nz), ["domains"] + H(self.rd, self.zd),
             ["pml"] + H(P["left_wall"], P["right_wall"], P["outer_wall"], P["sigma_1"], P["sigma_2"]),
             ["time"] + H(c["time"]["start"], c["time"]["end"], c["time"]["step"]), ["data", out] + H(False, c["data"]["compression"]["level"]),
             ["figure", F["color"]] + H(F["width"], F["height"], F["dpi"]) + [F["font"]["family"], hexs(F["font"]["size"]), F["font"]["name"]],
             ["plot", T["cmap"]] + H(*[T["ticks"][x + "_amount"] for x in ("x", "y", "z", "cbar")]),
             ["video", "mjpeg"] + H(c["data"]["plot"]["video"]["fps"], 32000)]
        w += [["specie", s["name"]] + H(s["charge"], s["mass"], s["density"], s["density"], s["temperature"]) for s in c["particles"]]
        w += [["beam", b["name"]] + H(b["charge"], b["mass"], b["velocity"], b["start_time"], b["bunch"]["density"], b["bunch"]["amount"],
                                      b["bunch"]["length"], b["bunch"]["radius"], b["bunch"]["distance"]) for b in c["beams"]]
        for pc, q in self.ps:
            z = {0: [q["r0"], q["z0"], q["r1"], q["z1"]], 1: [0, q["z1"]], 2: [q["r1"], 0], 3: [q["r1"], q["z1"]]}[q["shape"]]
            w.append(["probe", pc["shape"], pc["component"], hexs(pc["schedule"]), hexs(pc.get("specie"))] + H(*z))
        return w

    # ---- questions -------------------------------------------------------------
    def frames(self, q):
        return (self.steps - 1) // q["sched"] + 1

    def asks(self, c):
        R, r = c.rng, []
        for i, (pc, q) in enumerate(self.ps):
            comp = pc["component"] + ("/" + pc["specie"] if "specie" in pc else "")
            nf, s = self.frames(q), q["shape"]

            def add(op, part="all", rr=0, z=0, frames=None, **k):
                b = dict(probe=i + 1, component=comp, part=part, r=rr, z=z, op=op, how="", **k)
                if op.endswith("_range"):
                    ab = [(0, nf), (0, -1), (0, 1), (nf - 1, -1), (nf - 1, nf), (0, nf + 1), (nf // 2, -1)]
                    x = R.randint(0, nf)
                    ab.append((x, R.randint(x, nf)))
                    for a, e in ab if part == "all" else R.sample(ab, 3):
                        r.append(dict(b, a=a, b=e))
                    r.append(dict(b, a=0, b=-1, how="default"))
                else:
                    for f in (list(range(nf + 2)) if part == "all" else R.sample(range(nf + 1), min(nf + 1, 3))):
                        r.append(dict(b, a=f, b=f + 1))
                    if s != 0:
                        r.append(dict(b, a=-1, b=0))
            if s == 0:
                rect = [q["r0"], q["z0"], q["r1"], q["z1"]]
                h, w = q["r1"] - q["r0"], q["z1"] - q["z0"]
                for sfx in ("", "_range"):
                    add("rec" + sfx, rect=rect)
                    for z in {0, w - 1, w, R.randrange(w)}:
                        add("col_rec" + sfx, "col", 0, z, rect=rect, pos=[z])
                    for x in {0, h - 1, h, R.randrange(h)}:
                        add("row_rec" + sfx, "row", x, 0, rect=rect, pos=[x])
                    for x, z in {(0, w - 1), (h - 1, 0), (R.randrange(h), R.randrange(w)), (h, 0), (0, w)}:
                        add("dot_rec" + sfx, "dot", x, z, rect=rect, pos=[x, z])
            else:
                nm, pos = {1: ("col", [q["z1"]]), 2: ("row", [q["r1"]]), 3: ("dot", [q["r1"], q["z1"]])}[s]
                for sfx in ("", "_range"):
                    add(nm + sfx, pos=pos)
        # probes that are not there
        have = {q["path"] for _, q in self.ps}
        for _ in range(30):
            k = R.randrange(9)
            a, b, x, y = R.randrange(self.nr), R.randrange(self.nz), R.randint(1, self.nr), R.randint(1, self.nz)
            for p, op, m in [(probes.rec(k, a, b, max(a + 1, x), max(b + 1, y)), R.choice(["rec", "rec_range"]), "rect"), (probes.col(k, b), R.choice(["col", "col_range"]), "pos"),
                             (probes.row(k, a), R.choice(["row", "row_range"]), "pos"), (probes.dot(k, a, b), R.choice(["dot", "dot_range"]), "pos")]:
                if p[1]["path"] in have:
                    continue
                q = p[1]
                r.append(dict(probe=0, component=probes.COMP[k], part="all", r=0, z=0, op=op, how="", a=0, b=R.choice([1, -1]),
                              rect=[q["r0"], q["z0"], q["r1"], q["z1"]], pos={1: [b], 2: [a], 3: [a, b]}.get(q["shape"])))
        R.shuffle(r)
        return r


def grid_probe(k, specie, p):
    """a probe of a moment of a specie, in place of a field"""
    comp = GRIDS[k]
    pc, q = dict(p[0]), dict(p[1])
    pc["component"], pc["specie"] = comp, specie
    q["path"] = "/".join([comp, specie] + q["path"].split("/")[2:])
    q["comp"] = 9 + k * 2 + (specie == "ions")
    return pc, q


def plan(c, g, n):
    R = c.rng
    nr, nz = g[:2]
    ps = []

    def one(k, s):
        sh = R.randrange(4) if k >= 4 else k
        comp = R.randrange(9)
        if sh == 0:
            a, b = R.randrange(nr), R.randrange(nz)
            p = probes.rec(comp, a, b, R.randint(a + 1, nr), R.randint(b + 1, nz), s) if R.random() < .8 else probes.rec(comp, 0, 0, nr, nz, s)
        elif sh == 1:
            p = probes.col(comp, R.randrange(nz), s)
        elif sh == 2:
            p = probes.row(comp, R.randrange(nr), s)
        else:
            p = probes.dot(comp, R.randrange(nr), R.randrange(nz), s)
        return p
    for k in range(n):
        p = one(k, R.choice([1, 1, 2, 3, 5]))
        if k >= 4 and R.random() < .3:
            p = grid_probe(R.randrange(6), R.choice(["electrons", "ions"]), p)
        if p[1]["path"] not in {x[1]["path"] for x in ps}:
            ps.append(p)
    return ps


def caches(c, k):
    R, ops = c.rng, []
    F = lambda: R.choice([R.gauss(0, 1), 10.0 ** R.randint(-300, 300), 0.0, -1.5, float(R.randint(-9, 9))])
    keys = ["E_r", "J-phi_0-8", "x", "x.y"]
    for _ in range(60):
        x = R.random()
        key = R.choice(keys)
        if x < .4:
            sh = R.choice([None, [3, 2], [1], [5], [2, 2, 2]])
            n = 1
            for y in sh or [R.randint(1, 7)]:
                n *= y
            ops.append(["put", key, [F().hex() for _ in range(n)], sh])
        elif x < .6:
            ops.append(["new"])
        else:
            ops.append(["get", key])
    return dict(do="cache", path=os.path.join(c.tmp, "cache%d" % k, "sub"), ops=ops)


def run(c):
    big = c.thorough
    inv = ["Truthful", "EveryFrame"]
    c.design("Reader", tlc.cfg("RSpec", dict(NR=2, NZ=3 if big else 2, RD=1, ZD=1, MaxStep=3 if big else 2, Rects="{}", Scheds="{1, 2}"), inv))
    exe = c.build("default", "life.cpp", with_main="renamed")
    R, ws = c.rng, []
    GS = [(8, 8, 2, 2), (6, 10, 2, 2), (8, 12, 1, 4), (5, 7, 1, 1), (12, 6, 4, 2), (16, 24, 4, 2), (4, 300, 1, 2), (280, 4, 2, 1)]
    for k in range(24 if big else 8):
        g = GS[k % len(GS)]
        ws.append(World(c, exe, k, g, plan(c, g, 16 if big else 9), R.choice([2, 70]) if max(g) > 100 else R.randint(1, 13) if k else 7, R.choice([cfg.DT, 1e-12, 3e-13]),
                        R.choice([cfg.DR, 1e-3]), R.choice([cfg.DR, 7e-4]), macro=0 if k % 2 else 50, beams=k % 3))
    cmds, watch = [], [os.path.join(build.REPO, "lib")]
    for i, w in enumerate(ws):
        asks = w.asks(c)
        ways = [("dir", w.out), ("file", w.file), ("with", w.file), ("verbose", w.out), ("cache", w.out)]
        per = (len(asks) + len(ways) - 1) // len(ways)
        for j, (way, path) in enumerate(ways):
            kw = dict(verbose=dict(verbose=True), cache=dict(use_cache=True, verbose=False)).get(way, {})
            # the reader finds the data directory from the place of the file
            out = w.root if os.path.isabs(w.root) else os.path.normpath(os.path.join(os.path.dirname(w.file), w.root))
            cmds.append(dict(do="session", way=way, path=path, kw=kw, asks=asks[j * per:(j + 1) * per], steps=w.steps, nr=w.nr, nz=w.nz, rd=w.rd, zd=w.zd,
                             probes=[p[1] for p in w.ps], timed=j == i % 5, dr=w.dr, dz=w.dz, want=w.want(out)))
        cmds.append(dict(cmds[-1], way="file", path=w.file, kw={}, asks=[]))
    watch += [w.d for w in ws]
    for i, w in enumerate(ws):        # the same from the configuration file
        out = w.root if os.path.isabs(w.root) else os.path.normpath(os.path.join(w.d, w.root))
        m = [x for x in cmds if x["path"] == w.file and not x["asks"]][0]
        m["config"], m["want2"] = w.cfgpath, w.want(out)
    for k in range(8 if big else 3):
        cmds.append(caches(c, k))
    f = os.path.join(c.tmp, "cmds")
    json.dump(dict(cmds=[x for x in cmds if x.get("kw", {}).get("use_cache") is None], watch=watch), open(f, "w"))
    g = os.path.join(c.tmp, "cmds2")
    json.dump(dict(cmds=[x for x in cmds if x.get("kw", {}).get("use_cache") is not None], watch=[]), open(g, "w"))
    py = os.path.join(build.VERIF, "harness", "pyread.py")
    lib = os.path.join(build.REPO, "lib", "python")
    for f, what in ((f, "reading of the files of real runs"), (g, "reading with the cache on")):
        ev = c.drive("python3-vt", [py, lib, f], what=what)
        if f.endswith("cmds"):
            c.sample(lambda: {"probe": ev[0]["probes"][0], "answers": [e for e in ev if e["e"] == "read" and e["probe"] == 1][:2]})
        c.extra["questions"] = c.extra.get("questions", 0) + sum(e["e"] == "read" for e in ev)
        c.extra["values_checked"] = c.extra.get("values_checked", 0) + sum(len(e["v"]) for e in ev if e["e"] == "read")
        c.guard(lambda: c.validate("ReaderTrace", ev, what, ntraces=len(cmds), cfgtext=TCFG))
