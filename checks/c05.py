import json, os
import cfg, tlc

U = 16
TCFG = tlc.cfg("TraceSpec", dict(N=1, U=1, STEPS=0), postcondition="TraceAccepted")


def path(rng, nr, nz, kind, cell=None, near=False):
    """One motion of less than a cell along each direction, inside the mirror planes."""
    lo, hr, hz = U // 2, nr * U - U // 2, nz * U - U // 2
    while True:
        if cell:
            r0, z0 = cell[0] * U + rng.randrange(-4, 5), cell[1] * U + rng.randrange(-4, 5)
        else:
            r0, z0 = rng.randrange(lo, hr + 1), rng.randrange(lo, hz + 1)
        d = [rng.randrange(-U + 1, U), rng.randrange(-U + 1, U)]
        if kind == 1: d[0] = 0
        if kind == 2: d[1] = 0
        if kind == 3: d[1] = d[0] * rng.choice([-1, 1])                               # diagonal: through nodes
        if kind == 4: r0 -= r0 % U                                                    # starts on a border
        if kind == 5: z0 -= z0 % U
        if kind == 6: r0, z0 = r0 - r0 % U, z0 - z0 % U                               # starts on a node
        r1, z1 = r0 + d[0], z0 + d[1]
        if kind == 7: r1 -= r1 % U
        if kind == 8: z1 -= z1 % U
        if kind == 9: r0 = r0 % (2 * U)                                               # near the axis
        if kind == 9: r1 = r0 + d[0]
        if kind == 10: r0 -= r0 % U; r1 = r0                                          # along a border
        if kind == 11: z0 -= z0 % U; z1 = z0
        if not (lo <= min(r0, r1) and max(r0, r1) < hr and lo <= min(z0, z1) and max(z0, z1) < hz):
            continue
        if abs(r1 - r0) >= U or abs(z1 - z0) >= U or abs(r1 // U - r0 // U) > 1 or abs(z1 // U - z0 // U) > 1:
            continue
        off = [0, 0, 0, 0]
        if near:        # almost on the lattice: almost along an axis, almost on a border, at rest but for a breath
            off = [rng.choice([0, 0, 1, -1]) * rng.choice([8, 9, 10, 10, 11, 11, 11, 12, 12, 13, 15, 17]) for _ in off]
            if lo == r0 or lo == r1 or not (8 < r0 < nr * U - 2 * U and 8 < r1) or min(z0, z1) == 0: off = [0, 0, 0, 0]
            if near == 2 and (r0 + r1) % (2 * U) == 0: off[0] = off[2] = 0      # zigzag's volume: that of the cell of the middle
        return [rng.randrange(2), r0, z0, r1, z1, rng.choice([1, 1, 2, 3]), rng.choice([-3, 0, 1, 4])] + off


def run(c):
    c.design("Charge", tlc.cfg("Spec", dict(N=2, U=2, STEPS=4), ["Continuity"]))
    if c.thorough:
        c.design("Charge", tlc.cfg("Spec", dict(N=3, U=4, STEPS=8), ["Continuity"]))
    n = 0
    for variant, mode in (("default", "ring"), ("zigzag", "linear")):
        exe = c.build(variant, "cur.cpp")
        cmds = []
        for (nr, nz, rd, zd, dz, odd) in [w + (1,) for w in [(8, 8, 1, 1, 1), (8, 8, 2, 2, 1), (8, 12, 2, 2, 2), (16, 8, 4, 2, .5), (8, 16, 1, 4, 1), (4, 300, 1, 2, .5), (60, 4, 1, 1, 1)]] + [(12, 12, 2, 2, c.rng.uniform(.7, 1.4), c.rng.uniform(.3, 3)) for _ in range(2 if mode == "ring" else 0)]:
            f = cfg.make(os.path.join(c.tmp, "%s-%d-%d-%d-%d-%d.json" % (mode, nr, nz, rd, zd, len(cmds))), nr, nz, rd, zd, dr=cfg.DR * odd, dz=cfg.DR * dz * odd)
            cmds.append(dict(cfg=f, mode=mode, u=U, threads=c.rng.choice([1, 3])))
            for k in range(3600 if c.thorough else 240):
                cell = None
                if k % 3 == 1:      # around the borders of domains
                    cell = [c.rng.choice([(nr // rd) * a for a in range(1, rd)] or [nr // 2]), c.rng.choice([(nz // zd) * a for a in range(1, zd)] or [nz // 2])]
                many = mode == "ring" and k % 4 == 3
                cmds.append(dict(paths=[path(c.rng, nr, nz, (k + j) % 12, cell, (1 + (mode == "linear")) * (c.rng.random() < .4)) for j in range(c.rng.randrange(2, 7) if many else 1)]))
                n += 1
        f = os.path.join(c.tmp, "cmds-" + mode)
        with open(f, "w") as o:
            o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
        ev = c.drive(exe, [f], what="deposition " + variant)
        c.guard(c.validate, "ChargeTrace", ev, "current deposition (%s)" % variant, ntraces=len(ev), cfgtext=TCFG)
        c.sample(lambda: ev[1])
    c.extra["motions"] = n
