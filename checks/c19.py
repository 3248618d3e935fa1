import json, os
import cfg, tlc

TCFG = tlc.cfg("TraceSpec", dict(NR=1, NZ=1, ZF=1), postcondition="TraceAccepted")


def inside(c, nr, nz, i, k):
    return (i <= nr - 2 and 1 <= k <= nz - 2 and (c != 1 or i >= 1)) if c < 2 else (i <= nr - 2 and k <= nz - 2)


def run(c):
    for nr, nz, zf in ((4, 4, 1), (3, 5, 2), (6, 3, 1)):
        c.design("Yee", tlc.cfg("YSpec", dict(NR=nr, NZ=nz, ZF=zf), ["NoMonopole", "NoCharge", "Near"]))
    R = c.rng
    cmds = []

    def field(nr, nz, fill, m, ok=lambda *a: True):
        return [[[R.randint(-m, m) if R.random() < fill and ok(q, nr, nz, i, k) else 0 for k in range(nz)] for i in range(nr)] for q in range(3)]

    def unit(nr, nz, q, i, k):
        return [[[1 if (a, b, d) == (q, i, k) else 0 for d in range(nz)] for b in range(nr)] for a in range(3)]
    geo = [(8, 8, 1, 1), (8, 8, 2, 2), (8, 12, 2, 1), (8, 16, 2, 4), (12, 8, 1, 2), (4, 12, 1, 2), (12, 12, 2, 2), (11, 11, 1, 1), (22, 22, 2, 2)]
    long = [(4, 272, 1, 2), (288, 4, 2, 1), (8, 128, 2, 32), (72, 8, 18, 2)]      # cell numbers beyond 8 bits, many domains
    for rep in range(30 if c.thorough else 2):
        for nr, nz, rd, zd in geo + (long if rep % 8 == 0 else []):
            pml = R.choice([(0, 0, 0), (0, 0, 0), (.25, .25, .25), (.5, 0, 0), (0, .25, 0), (0, 0, .5), (.25, .5, 0)])
            s2, zf, dr = R.choice([1.5, 3.0]), R.choice([1, 1, 2]), cfg.DR
            if nr % 11 == 0:
                # 0.05 / (0.05 / 11) is a bit less than 11
                zf, dr, pml = 1, .05 / nr, R.choice([(.25, .25, .25), (0, 0, .5), (0, .25, 0)])
            f = os.path.join(c.tmp, "y%d.json" % len(cmds))
            cfg.make(f, nr, nz, rd, zd, dr=dr, dz=dr / zf, pml=pml, sigma=(1e-5, s2), size=(.05, .05) if nr % 11 == 0 else None)
            cm = dict(cfg=f, nr=nr, nz=nz, rd=rd, zd=zd, zf=zf, steps=[])
            if any(pml):
                cm.update(lay=[int(pml[0] * nz), int(pml[1] * nz), int(pml[2] * nr)], s1=1e-5, s2=s2)
            for n in range(4 if nr * nz < 1000 else 1):
                fill = R.choice([.1, .5, 1])
                cm["steps"].append(dict(e=field(nr, nz, fill, 5, inside), h=field(nr, nz, fill, 5), j=field(nr, nz, R.choice([0, .2, 1]), 5)))
            z = field(nr, nz, 0, 1)
            # one node only, at a border of domains or a wall
            for n in range(3):
                i, k = R.choice([0, nr // rd - 1, nr // rd % nr, nr - 2]), R.choice([0, nz // zd - 1, nz // zd % nz, nz - 2])
                cm["steps"].append(dict(e=z, h=unit(nr, nz, R.randrange(3), i, k), j=z))
            cm["free"] = 40 if nr * nz > 1000 else 400 if c.thorough else 120
            cm["start"] = field(nr, nz, .5, 5, inside)
            cmds.append(cm)
    f = os.path.join(c.tmp, "cmds")
    with open(f, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    for var in ("default", "nopml"):
        def part():
            if var == "nopml":
                with open(f, "w") as o:
                    for x in cmds:
                        x.pop("lay", None)
                        o.write(json.dumps(x) + "\n")
            ev = c.drive(c.build(var, "yee.cpp"), [f], what="field steps (%s)" % var)
            c.sample(lambda: [e for e in ev if e["e"] == "free"][0]["en"][:5])
            c.validate("YeeTrace", ev, "field steps (%s)" % var, ntraces=len(cmds), cfgtext=TCFG)
        c.guard(part)
    c.extra["field_steps"] = sum(len(x["steps"]) for x in cmds) * 2
