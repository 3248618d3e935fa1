import json, os
import cfg, tlc

U = 8
TCFG = tlc.cfg("TraceSpec", dict(NR=1, NZ=1, RD=1, ZD=1, U=2, MaxSteps=0, VMAX=0), postcondition="TraceAccepted")


def run(c):
    inv, pr = ["PlasmaConfined", "BeamLeaves"], ["SpeedKept"]
    K = dict(NR=2, NZ=2, RD=1, ZD=1, U=4, MaxSteps=3, VMAX=4)
    c.design("Bounce", tlc.cfg("Spec", K, inv, pr))
    c.design("Bounce", tlc.cfg("Spec", dict(K, NR=4, NZ=4, RD=2, ZD=2, MaxSteps=5 if c.thorough else 3), inv, pr))
    if c.thorough:
        c.design("Bounce", tlc.cfg("Spec", dict(K, NR=8, NZ=4, RD=4, ZD=1, MaxSteps=6), inv, pr))
    exe = c.build("default", "bounce.cpp")
    cmds, n = [], 0
    for g in [(4, 4, 2, 2), (6, 4, 1, 1), (8, 4, 4, 2), (4, 12, 2, 4), (2, 2, 1, 1), (4, 2, 4, 2), (3, 9, 1, 1)]:
        nr, nz, rd, zd = g
        cr, cz = nr // rd, nz // zd
        f = cfg.make(os.path.join(c.tmp, "w%d-%d-%d-%d.json" % g), nr, nz, rd, zd, dt=2.0 ** -36, dz=cfg.DR * c.rng.choice([1, .5, 2]), beams=[cfg.beam()])
        cmds.append(dict(op="world", cfg=f, nr=nr, nz=nz, rd=rd, zd=zd))
        # every position (1/8 cell) up to one and a half cells outside each domain, both kinds of particles
        cases = []
        for i in range(rd):
            for j in range(zd):
                rs = range(i * cr * U - 12, (i + 1) * cr * U + 13)
                zs = range(j * cz * U - 12, (j + 1) * cz * U + 13)
                allc = [[i, j, b, r, z] for r in rs for z in zs for b in (0, 1)]
                if not c.thorough and len(allc) > 700:
                    # keep the whole neighbourhood of the borders, sample the rest
                    near = lambda v, a, b: v - a < 7 or b - v < 7
                    allc = c.rng.sample([x for x in allc if near(x[3] + 12, rs[0], rs[-1]) or near(x[4] + 12, zs[0], zs[-1]) or (x[3] % 4 == 0 and x[4] % 4 == 0)] or allc, 600) \
                        + c.rng.sample(allc, 100)
                cases += allc
        # far outside: several bounces (only where both mirrors belong to the domain)
        if rd == 1 and zd == 1:
            cases += [[0, 0, 0, c.rng.randint(-3 * nr * U, 4 * nr * U), c.rng.randint(-3 * nz * U, 4 * nz * U)] for _ in range(200)]
        for k in range(0, len(cases), 300):
            cmds.append(dict(op="reflect", **{"in": cases[k:k + 300]}))
            n += 1
        # whole steps, fields off, at most one cell per step
        cases = []
        for _ in range(4000 if c.thorough else 500):
            b = c.rng.randrange(2)
            r = c.rng.randint(U // 2, nr * U - U // 2)
            z = c.rng.randint(U // 2, nz * U - U // 2)
            if c.rng.random() < .6:
                r = c.rng.choice([U // 2, U // 2 + 1, nr * U - U // 2, nr * U - U // 2 - 1, r])
                z = c.rng.choice([U // 2, U // 2 + 1, nz * U - U // 2, nz * U - U // 2 - 1, z])
            vr, vz = c.rng.randint(-4, 4), c.rng.randint(-4, 4)
            # landing exactly on a plane or border is left to rounding, except on the axis
            if vz and (z + vz) % (U // 2) == 0 or vr and (r + vr) % (U // 2) == 0 and not (r + vr == 0 and cr > 1):
                continue
            cases.append([min(r // U // cr, rd - 1), min(z // U // cz, zd - 1), b, r, z, vr, vz])
        for k in range(0, len(cases), 250):
            cmds.append(dict(op="step", **{"in": cases[k:k + 250]}))
            n += 1
    f = os.path.join(c.tmp, "cmds")
    with open(f, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    ev = c.drive(exe, [f], what="walls")
    c.sample(lambda: dict(op=ev[1]["e"], **{"in": ev[1]["in"][:3], "out": ev[1]["out"][:3]}))
    c.validate("BounceTrace", ev, "reflection by the walls", ntraces=n, cfgtext=TCFG)
    c.extra["particles"] = sum(len(e["in"]) for e in ev if "in" in e)
