import json, os
import cfg, tlc

U = 8
TCFG = tlc.cfg("TraceSpec", dict(N=1, U=1, STEPS=0), postcondition="TraceAccepted")
COMPS = ["density", "energy", "temperature", "momentum/r", "momentum/phi", "momentum/z"]
SP = ["electrons", "ions", "heavy"]
SPECIES = cfg.SPECIES + [dict(name="heavy", charge=2, mass=4000, density=1e12, temperature=1)]
VEL = [(0, 0, 0), (1, 0, 0), (0, -2, 0), (0, 0, 3), (2, 1, 2), (-2, 1, -2), (3, 0, 4), (-3, 4, 0), (0, 0, -5), (1, -2, 2), (0, 4, -3)]


# fast particles: speed n/d c, gamma = d/g; directions (a, b, c)/e
FAST = [(11, 61, 60)] * 4 + [(3, 5, 4), (4, 5, 3), (7, 25, 24), (5, 13, 12), (8, 17, 15), (9, 41, 40), (11, 61, 60), (20, 29, 21), (12, 37, 35), (15, 17, 8)]
DIR = [(1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (0, 0, 1, 1), (1, 2, 2, 3), (-2, 1, 2, 3), (3, -4, 0, 5), (2, 3, 6, 7)]


def fast(R):
    d = R.choice(DIR)
    return R.choice(FAST) + tuple(x * R.choice([1, -1]) for x in d[:3]) + d[3:]


def probe(sp, comp, nr, nz):
    return (dict(component=comp, specie=SP[sp], shape="rec", schedule=1, start=dict(r=0, z=0), end=dict(r=nr, z=nz)),
            dict(specie=sp, comp=comp, path="%s/%s/rec/%d-%d_%d-%d" % (comp, SP[sp], 0, nr, 0, nz)))


def run(c):
    c.design("Charge", tlc.cfg("Spec", dict(N=2, U=2, STEPS=4), ["Continuity"]))
    cmds, R = [], c.rng
    GS = [(8, 8, 1, 1), (8, 8, 2, 2), (8, 12, 2, 2), (16, 8, 4, 2), (8, 16, 1, 4), (12, 8, 2, 1)]
    # also crowds, long and finely cut areas, many steps
    rare = [((4, 272, 1, 2), 15, 1), ((288, 4, 2, 1), 15, 1), ((8, 64, 2, 16), 40, 1), ((6, 6, 1, 1), 300, 2), ((8, 8, 2, 2), 300, 2), ((8, 8, 2, 2), 3, 40)]
    for g, crowd, many in ([(g, 0, 2) for g in GS] * 5 + rare) * (8 if c.thorough else 1):
        nr, nz, rd, zd = g
        for rel in (False, True):
            ps = [probe(s, k, nr, nz) for s in range(3) for k in COMPS]
            R.shuffle(ps)
            ps = ps[:4 if crowd else R.choice([1, 4, 9, 18])]
            br = [(nr // rd) * a * U for a in range(1, rd)] or [U * nr // 2]
            bz = [(nz // zd) * a * U for a in range(1, zd)] or [U * nz // 2]

            def part():
                if R.random() < .5:     # close to a corner of domains
                    r, z = R.choice(br) + R.randrange(-U, U), R.choice(bz) + R.randrange(-U, U)
                else:
                    r, z = R.randrange(U // 2, nr * U - U // 2), R.randrange(U // 2, nz * U - U // 2)
                v = (one or fast(R)) if rel else R.choice(VEL)
                return [R.randrange(3), r, z, R.randrange(1, 4)] + list(v)
            steps = []
            for _ in range(many * 2 if rel and many < 40 else many):
                one = R.choice([None, fast(R)])
                steps.append([part() for _ in range(8 if rel and crowd > 8 else crowd or R.choice([1, 3, 8]))])
            f = os.path.join(c.tmp, "m%d.json" % len(cmds))
            cfg.make(f, nr, nz, rd, zd, dz=cfg.DR * R.choice([1, .5, 2]), probes=[p[0] for p in ps], species=SPECIES)
            cm = dict(cfg=f, nr=nr, nz=nz, u=U, probes=[p[1] for p in ps], steps=steps, v0=1e5)
            if rel:
                cm["rel"] = 1
            cmds.append(cm)
    f = os.path.join(c.tmp, "cmds")
    with open(f, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    ev = c.drive(c.build("default", "moments.cpp"), [f], what="moments")
    c.sample(lambda: ev[1])
    c.validate("MomentsTrace", ev, "moments in probe frames", ntraces=len(cmds), cfgtext=TCFG)
    c.extra["frames"] = sum(e["e"] == "frame" for e in ev)
