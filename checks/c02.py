import json, os
import cfg, tlc

TCFG = tlc.cfg("TraceSpec", dict(NR=1, NZ=1, RD=1, ZD=1, W=2), postcondition="TraceAccepted")


def run(c):
    inv = ["Stitched", "NoSpill"]
    c.design("Stitch", tlc.cfg("Spec", dict(NR=8, NZ=8, RD=2, ZD=2, W=2), inv))
    c.design("Stitch", tlc.cfg("Spec", dict(NR=16, NZ=4, RD=4, ZD=1, W=2), inv))
    if c.thorough:
        c.design("Stitch", tlc.cfg("Spec", dict(NR=8, NZ=16, RD=2, ZD=4, W=2), inv))
        c.design("Stitch", tlc.cfg("Spec", dict(NR=16, NZ=16, RD=4, ZD=4, W=2), inv), timeout=700)
    exe = c.build("default", "stitch.cpp")
    cmds, n = [], 0
    for g in [(8, 8, 2, 2), (4, 4, 1, 1), (8, 12, 2, 2), (14, 8, 2, 2), (16, 10, 4, 2), (4, 16, 1, 4), (20, 6, 4, 1), (8, 24, 2, 6), (16, 20, 4, 4),
              (4, 560, 1, 2), (560, 4, 2, 1), (8, 128, 2, 32), (144, 8, 36, 2)]:
        nr, nz, rd, zd = g
        f = cfg.make(os.path.join(c.tmp, "w%d-%d-%d-%d.json" % g), nr, nz, rd, zd)
        cmds.append(dict(op="world", cfg=f, nr=nr, nz=nz, rd=rd, zd=zd))
        for k in range(12 if c.thorough else 3):
            for op in "JEH":
                cmds.append(dict(op=op, seed=c.rng.randrange(2 ** 30), fill=[100, 8][k % 2], threads=[1, 4, 3][k % 3], order=c.rng.randrange(1000)))
                n += 3
    f = os.path.join(c.tmp, "cmds")
    with open(f, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    ev = c.drive(exe, [f], what="exchange")
    c.validate("StitchTrace", ev, "exchange of the seams", ntraces=n, cfgtext=TCFG)
    c.sample(lambda: dict(world=ev[0], after=dict(kind=ev[2]["kind"], first_rows=ev[2]["v"][0][:2])))
    c.extra["grids_checked"] = n
