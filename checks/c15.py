import json, os, shutil
import cfg, tlc, probes
from check import Violation

WRAP = ["-Wl,--wrap=_ZN3SMBC1EP3CfgP8GeometryP7TimeSimii"]
TCFG = tlc.cfg("TraceSpec", dict(N=1, U=1, STEPS=0, NR=1, NZ=1, ZF=1), postcondition="TraceAccepted")


def play(c, variant, k, g, steps, zf=1, temp=1e4, dens=1e14, macro=300, pml=(0, 0, 0), beams=(), threads=1, ps=(), thin=False):
    exe = c.build(variant, "step.cpp", with_main="renamed", link=WRAP)
    d = os.path.join(c.tmp, "s%d" % k)
    os.makedirs(d)
    nr, nz, rd, zd = g
    sp = [dict(name="electrons", charge=-1, mass=1, density=dens, temperature=temp), dict(name="ions", charge=1, mass=1 if thin else c.rng.choice([1, 1836]), density=dens, temperature=temp if thin else temp / 10)]
    al = [probes.dot(0, 0, 0, 1)] + [p for p in ps if p[1]["path"] != "E/r/dot/0_0"]
    f = cfg.make(d + "/c.json", nr, nz, rd, zd, dz=cfg.DR / zf, macro=macro, end=(steps - .5) * cfg.DT, species=sp, beams=list(beams), probes=[p[0] for p in al], root=d + "/o",
                 pml=pml, sigma=(1e-5, 1.5), ratio=2)
    kmin = 1 if not beams else 2
    ev = c.drive(exe, [kmin, "-f", f], env=dict(VP_THREADS=str(threads), VP_ORDER=str(c.seed + k), VERIF_SEED=str(c.seed * 1000 + k)), what="run of the program (%s)" % variant)
    if not ev:
        raise Violation("a run of the program showed no step", dict(config=json.load(open(f))))
    shutil.rmtree(d)
    ev[-1]["steps"] = steps
    return [dict(e="run", closed=not beams, variant=variant, geometry=list(g), steps=steps)] + ev


def run(c):
    big = c.thorough
    c.design("Step", tlc.cfg("SSpec", dict(N=2, U=2, STEPS=3 if big else 2), ["GaussNow"]))
    R, n = c.rng, 0
    GS = [(8, 8, 2, 2), (8, 8, 1, 1), (8, 16, 1, 4), (16, 8, 4, 2), (12, 12, 2, 2), (6, 10, 1, 1)]
    V = ["default"] * 6 + ["regular", "borisrel", "vay", "hc", "boris", "centered", "random", "eigen"]
    if not big:
        V = ["default"] * 6
    B = [cfg.beam("b1", 2, .0005, .003, .003, 2e8, 0, density=1e13), cfg.beam("b2", 1, .001, .002, .0012, 1e8, 3 * cfg.DT, density=1e12)]
    for rep in range(3 if big else 1):
        for i, v in enumerate(V):
            for q in range(2 if v == "default" else 1):
                g = GS[(i + q + rep) % len(GS)]
                kw = dict(temp=R.choice([1e2, 3e4, 2e5]), dens=R.choice([1e12, 1e15, 1e17]), macro=R.choice([60, 300, 900]), threads=R.choice([1, 1, 3]))
                if i % 3 == 2 and not q:        # so thin that domains are left by the last particle
                    g = [(8, 8, 4, 2), (8, 12, 2, 4), (12, 8, 4, 2)][(i // 3 + rep + c.seed) % 3]
                    kw.update(thin=True, temp=R.choice([1e5, 4e5]), macro=2 * g[2] * g[3] * R.choice([1, 1, 2]))
                if i % 3 == 1:
                    kw["zf"] = 1 if v != "default" else R.choice([1, 2])
                if i % 6 == 2 and q:
                    kw["pml"] = (.25, .25, .25)
                if i % 6 in (3, 5) and q:
                    kw["beams"] = B[:R.choice([1, 2])]
                if i % 6 == 4:
                    kw["ps"] = [probes.rec(R.randrange(9), 1, 1, 5, 5, 2), probes.col(R.randrange(9), 3, 3)]
                long = not q and i == 0     # one run of many steps, one of a long area
                if long:
                    g = (8, 8, 2, 2)
                    kw.update(macro=60, temp=1e4, dens=1e14)
                elif q and i == 0:
                    g = [(4, 272, 1, 2), (272, 4, 2, 1)][c.seed % 2]
                if v == "eigen":        # all components have the speed of the temperature: only for a cold plasma
                    kw["temp"] = 1e3
                n += 1
                ev = c.guard(play, c, v, n, g, 500 if long else 10 if max(g) > 100 else (60 if big else 25) * (1 + kw.get("thin", False)), **kw)
                if ev:
                    c.extra["steps"] = c.extra.get("steps", 0) + sum(e["e"] == "step" for e in ev)
                    c.sample(lambda: ev[0])
                    c.guard(c.validate, "StepTrace", ev, "steps of a run (%s, %s, %s)" % (v, g, {a: b for a, b in kw.items() if a not in ("beams", "ps")}), cfgtext=TCFG)
