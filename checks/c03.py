import json, os
import cfg, tlc

# area, decompositions (the undivided one is always the reference), pml, field strength
WORLDS = [
    ((16, 16), [(2, 2), (4, 2), (1, 4)], (0, 0, 0), 1000.),
    ((16, 24), [(2, 4), (4, 6), (2, 1)], (.3, .4, .6), 1000.),
    ((8, 40), [(1, 10), (2, 2)], (.5, .25, .5), 200.),
    ((24, 8), [(6, 2), (4, 1)], (0, .3, .7), 50.),
    # long areas finely cut: cell numbers beyond 8 bits, many domains
    ((4, 272), [(1, 68), (1, 2)], (.01, .02, .5), 200.),
    ((288, 4), [(72, 1), (2, 1)], (0, .01, .02), 100.),
    ((8, 8), [(2, 2)], (0, 0, 0), 50.),       # many steps
]


def run(c):
    c.design("Decomp", tlc.cfg("Spec", dict(NR=4, NZ=4, RD=2, ZD=2, STEPS=2, SKIP=0), ["Transparent"]))
    c.design("Decomp", tlc.cfg("Spec", dict(NR=6, NZ=3, RD=3, ZD=1, STEPS=3, SKIP=0), ["Transparent"]))
    for skip in (1, 2):   # the model must notice a missing exchange
        r = tlc.run("Decomp", tlc.cfg("Spec", dict(NR=4, NZ=2, RD=2, ZD=1, STEPS=2, SKIP=skip), ["Transparent"]))
        assert r.invariant == "Transparent", r.out[-500:]
    if c.thorough:
        c.design("Decomp", tlc.cfg("Spec", dict(NR=6, NZ=6, RD=3, ZD=2, STEPS=3, SKIP=0), ["Transparent"]))
        c.design("Decomp", tlc.cfg("Spec", dict(NR=8, NZ=8, RD=2, ZD=4, STEPS=3, SKIP=0), ["Transparent"]), timeout=600)
    for variant in ["default", "nopml", "zigzag"]:
        exe = c.build(variant, "decomp.cpp")
        cmds = []
        for n, ((nr, nz), decs, pml, field) in enumerate(WORLDS):
            fs = [cfg.make(os.path.join(c.tmp, "%s-%d-%d-%d.json" % (variant, n, a, b)), nr, nz, a, b, pml=pml, dz=cfg.DR * (1, 2, .5, 2, 1, 1, 1)[n]) for a, b in [(1, 1)] + decs]
            for k in range(6 if c.thorough else 2):
                cmds.append(dict(cfgs=fs, nr=nr, nz=nz, steps=(600 if c.thorough else 150) if n == 6 else 12 if c.thorough else 4, np=[150, 12, 400, 40][k % 4], seed=c.rng.randrange(2 ** 30),
                                 field=field * [1, 0][k % 2], vmax=.15))
        f = os.path.join(c.tmp, "cmds-" + variant)
        with open(f, "w") as o:
            o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
        ev = c.drive(exe, [f], what="decomposition " + variant)
        c.guard(c.validate, "DecompTrace", ev, "cut and undivided runs (%s)" % variant, ntraces=len(cmds))
        c.sample(lambda: ev[-1])
