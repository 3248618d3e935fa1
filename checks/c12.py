import json, os
import cfg, tlc

# grid, whole cuts into domains, each with the numbers of processes it is spread over
WORLDS = [
    ((8, 16), [((1, 2), [2]), ((2, 4), [2, 4])], (.3, .4, .6), 1),
    ((16, 24), [((2, 6), [3, 2, 6]), ((4, 2), [2])], (0, 0, 0), 2),
    ((4, 40), [((1, 10), [5, 10])], (.5, .25, .5), .5),
    ((12, 32), [((2, 4), [4]), ((1, 8), [8, 4])], (0, .3, .7), 1),
]


def run(c):
    for n in (2, 3, 4) + ((5,) if c.thorough else ()):
        c.design("Procs", tlc.cfg("Spec", dict(N=n, ORDER='"chain"'), ["Exact", "Empty"], ["Done"], deadlock=True))
    # the model must notice that everybody sends first, which hangs when sends wait
    r = tlc.run("Procs", tlc.cfg("Spec", dict(N=3, ORDER='"together"'), ["Exact"], deadlock=True))
    assert "Deadlock reached" in r.out, r.out[-500:]
    for variant in ["mpi"] + (["mpizz", "mpinopml"] if c.thorough else []):
        exe = c.build(variant, "ranks.cpp")
        cmds = []
        for w, ((nr, nz), cuts, pml, dz) in enumerate(WORLDS):
            fs, procs, keep, same = [], [], [], []

            def add(rd, zd, n, k, s):
                f = os.path.join(c.tmp, "%s-%d-%d.json" % (variant, w, len(fs)))
                fs.append(cfg.make(f, nr, nz, rd, zd, pml=pml, dz=cfg.DR * dz, macro=8 * 2 * nr * nz, beams=[cfg.beam(start=1), cfg.beam("c", start=1)]))
                procs.append(n), keep.append(k), same.append(s)
            add(1, 1, 1, 1, -1)
            for (rd, zd), ns in cuts:
                add(rd, zd, 1, 1, -1)
                one = len(fs) - 1
                for n in ns:
                    add(rd, zd, n, c.rng.choice([0, 0, 2, 1]), one)
            if w == 0:      # a crowd: thousands cross every border within a step
                cmds.append(dict(cfgs=fs, procs=procs, keep=[0] * len(procs), same=same, nr=nr, nz=nz, steps=1, np=250000, beams=2, seed=c.rng.randrange(2 ** 30), field=0, vmax=.15))
            for k in range(5 if c.thorough else 2):
                cmds.append(dict(cfgs=fs, procs=procs, keep=[x if i < 1 or k % 2 else (0, 2, 1)[(i + w) % 3] for i, x in enumerate(keep)], same=same, nr=nr, nz=nz,
                                 steps=8 if c.thorough else 3, np=[300, 60, 600, 20][k % 4], beams=2, seed=c.rng.randrange(2 ** 30),
                                 field=[3e8, 0][k % 2], vmax=.15, talk=len(fs) - 1 - (k + w) % 2))
        f = os.path.join(c.tmp, "cmds-" + variant)
        with open(f, "w") as o:
            o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
        ev = c.drive(exe, [f], what="processes " + variant)
        c.guard(c.validate, "ProcsTrace", ev, "runs split over processes (%s)" % variant, ntraces=len(cmds))
        c.sample(lambda: ev[-1])
