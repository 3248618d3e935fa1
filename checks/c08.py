import json, os
import cfg, tlc

Q = 4
V, DL = 2.0 ** 27, 2.0 ** 27 * cfg.DT      # way of a step: an eighth of a cell
TCFG = tlc.cfg("TraceSpec", dict(Q=Q, ROWS=1, BUNCHES=1, LENS=0, GAPS=0, STARTS=0, STEPS=0), postcondition="TraceAccepted")


def run(c):
    big = c.thorough
    c.design("Beam", tlc.cfg("BSpec", dict(Q=Q, ROWS=2, BUNCHES=4 if big else 3, LENS="{4, 5, 8, 11, 12}", GAPS="{0, 1, 4, 6}" if big else "{0, 1, 6}",
                                           STARTS="{0, 2, 4, 7}", STEPS=40 if big else 30), ["AllSent", "Together", "Apart", "Equal"]))
    R, cmds = c.rng, []
    GS = [(8, 8, 1, 1), (8, 8, 2, 2), (16, 8, 4, 2), (12, 8, 2, 1), (8, 16, 1, 4), (20, 12, 5 * 2, 1)]
    for rep in range(30 if big else 4):
        # now and then: many beams, many bunches over a long run, many rows of domains and many macroparticles
        rare = [((8, 8, 2, 1), "beams"), ((8, 8, 2, 2), "bunches"), ((144, 4, 36, 1), "rows"), ((8, 8, 2, 1), "dense")]
        for g, many in [(g, "") for g in GS] + (rare if rep % 6 == 0 else []):
            nr, nz, rd, zd = g
            bs, js = [], []
            steps = 300 if many == "bunches" else 40
            for k in range(12 if many == "beams" else 1 if many else R.choice([1, 1, 2, 3])):
                s, n = R.choice([0, 4, 6, 12]), R.choice([1, 2, 3, 5]) if many != "bunches" else 130
                ln, gap = R.choice([4, 5, 12, 16, 22]), R.choice([0, 0, 1, 4, 9, 24])
                if many == "bunches":
                    ln, gap = 4, 4
                if R.random() < .6:     # aligned with the steps
                    ln, gap, s = ln // 4 * 4, gap // 4 * 4, s // 4 * 4
                rad = R.choice([1, 2, 3.5, nr // rd, nr // rd + 1, nr // 2, nr * 3 / 4])
                if many == "rows":
                    rad = R.choice([70, 140, 144])
                v = V * R.choice([1, 1, .5, 1.5])
                dl = v * cfg.DT
                b = cfg.beam("b%d" % k, n, gap * dl / Q, ln * dl / Q, rad * cfg.DR, v, s * cfg.DT / Q, density=10.0 ** R.randrange(8, 14))
                js.append(b)
                bs.append(dict(s=s, ln=ln, gap=gap, n=n, radius=rad, velocity=v, density=b["bunch"]["density"], length=b["bunch"]["length"]))
            f = os.path.join(c.tmp, "b%d.json" % len(cmds))
            k0 = 0 if many or R.random() < .7 else R.choice([1, 2, 5, 9, 17])     # the clock need not start at 0
            cfg.make(f, nr, nz, rd, zd, dz=cfg.DR * R.choice([1, 1, 2, .5]), beams=js, macro=400000 if many == "dense" else 20000 if many else R.choice([300, 1000, 20000]), ratio=R.choice([1, 7, 30]),
                     extra=dict(time=dict(start=k0 * cfg.DT, end=(k0 + steps) * cfg.DT, step=cfg.DT)))
            cmds.append(dict(cfg=f, beams=bs, steps=steps, q=Q, k0=k0))
    f = os.path.join(c.tmp, "cmds")
    with open(f, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    ev = c.drive(c.build("default", "beam.cpp"), [f], what="beams")
    c.sample(lambda: ev[0])
    c.sample(lambda: [e for e in ev if e["e"] == "step" and e["rows"][0]["n"]][0])
    nb = sum(len(x["beams"]) for x in cmds)
    c.extra["beams"] = nb
    c.extra["particles"] = sum(r["n"] for e in ev if e["e"] == "step" for r in e["rows"])
    c.guard(lambda: c.validate("BeamTrace", ev, "beams", ntraces=nb, cfgtext=TCFG))
