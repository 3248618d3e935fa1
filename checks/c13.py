import json, os
import cfg, tlc

TCFG = tlc.cfg("TraceSpec", dict(MAXR=2, MAXZ=2), postcondition="TraceAccepted")
MC2 = 510998.95


def mean_energy(t, m):
    """Mean kinetic energy over temperature of the Maxwell-Juettner distribution."""
    th = t / (MC2 * m)
    if th < 1e-4:
        return 1.5
    import math
    # <E>/T by integration over gamma
    s = e = 0.0
    for i in range(20000):
        x = (i + .5) * 30 * max(th, 1e-3) / 20000
        g = 1 + x
        f = g * math.sqrt(g * g - 1) * math.exp(-x / th)
        s, e = s + f, e + f * x
    return e / s / th


def run(c):
    big = c.thorough
    c.design("Load", tlc.cfg("LSpec", dict(MAXR=16 if big else 12, MAXZ=16 if big else 12), ["Contiguous", "SameTotal"]))
    R = c.rng
    cmds = {}
    for var in ("default", "random", "regular", "centered", "rectvel", "eigen"):
        cmds[var] = []
        cold = var in ("rectvel", "eigen")      # speed of the temperature in every component, at most or exactly
        for rep in range(8 if big else 1):
            GS = [(8, 8, 1, 1), (8, 12, 2, 2), (16, 8, 4, 1), (8, 16, 1, 4), (12, 12, 2, 2), (20, 12, 2, 6)][:2 if cold else 6]
            long = [(4, 272, 1, 2), (288, 4, 2, 1), (144, 4, 36, 1)] if rep % 8 == 0 and not cold else []
            for nr, nz, rd, zd in GS + long:
                t1, t2 = R.choice([.02, 1, 30, 3000]), R.choice([.1, 2, 500] if cold else [.1, 2, 500, 20000, 400000])
                sp = [dict(name="electrons", charge=-1, mass=1, density=1e15, temperature=t2), dict(name="ions", charge=1, mass=R.choice([16, 1836]), density=1e15, temperature=t1)]
                if R.random() < .4:
                    sp.append(dict(name="heavy", charge=3, mass=40000, density=3e13, temperature=R.choice([5, 100])))
                # whole numbers of particles along both axes and in every cell for the ordered placements
                per = (nr // rd) * (nz // zd) * (16 if var in ("regular", "centered") else 1)
                macro = per * rd * zd * len(sp) if per > 1 and var in ("regular", "centered") else (8000 if var == "random" else 3000) * rd * zd * len(sp)
                g = R.choice([1, 1, 3]) if var in ("default", "random") else 1
                f = os.path.join(c.tmp, "l%s%d.json" % (var, len(cmds[var])))
                cfg.make(f, nr, nz, rd, zd, dz=cfg.DR * R.choice([1, 1, .5, 2]), species=sp, macro=macro + R.choice([0, 0, 1]) * (var in ("default", "random")))
                cm = dict(cfg=f, nr=nr, nz=nz, rd=rd, zd=zd, g=g, tol=45 if var == "random" else 30, want=[mean_energy(s["temperature"], s["mass"]) for s in sp])
                if cold:
                    cm["want"] = [1 if var == "rectvel" else 3 for _ in sp]
                    cm["eigen"] = var == "eigen"
                if var in ("regular", "centered"):
                    # particles of a lattice: a quarter of the domain need not hold a quarter of the lattice
                    cm.update(any=1, tol=140)
                cmds[var].append(cm)
    for var in cmds:
        f = os.path.join(c.tmp, "cmds-" + var)
        with open(f, "w") as o:
            o.write("\n".join(json.dumps(x) for x in cmds[var]) + "\n")

        def part():
            ev = c.drive(c.build(var, "load.cpp"), [f], what="loading (%s)" % var)
            c.sample(lambda: [e for e in ev if e["e"] == "load"][0])
            c.validate("LoadTrace", ev, "loading (%s)" % var, ntraces=len(cmds[var]), cfgtext=TCFG)
        c.guard(part)
    c.extra["worlds"] = sum(len(x) for x in cmds.values())
