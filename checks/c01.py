import itertools, json, os
import cfg, tlc
from check import Violation

SP = [dict(name="electrons", charge=-1, mass=1, density=1e12, temperature=1),
      dict(name="ions", charge=1, mass=1836, density=1e12, temperature=1),
      dict(name="heavy", charge=1, mass=3672, density=1e12, temperature=1),
      dict(name="twins", charge=1, mass=1836, density=1e12, temperature=1)]
U = 8


def run(c):
    # 1. the design: every order of the sweeps, every move
    big = c.thorough
    props = ["Ends", "OnlyOutsideDropped", "NeverReturns"]
    c.design("Migrate", tlc.cfg("Spec", dict(NR=4, NZ=4, RD=2, ZD=2, Part="{1}", MaxRounds=2, Margin=1), ["TypeOK", "Settled"], props))
    c.design("Migrate", tlc.cfg("Spec", dict(NR=4, NZ=2, RD=4, ZD=2, Part="{1}", MaxRounds=2, Margin=1), ["TypeOK", "Settled"], props))
    if big:
        c.design("Migrate", tlc.cfg("Spec", dict(NR=4, NZ=2, RD=4, ZD=2, Part="{1, 2}", MaxRounds=1, Margin=1), ["TypeOK", "Settled"], props))
    # 2. the code
    exe = c.build("default", "c01.cpp")
    geoms = [(8, 8, 2, 2), (8, 16, 4, 2), (4, 12, 1, 4), (12, 4, 6, 1), (6, 6, 1, 1), (16, 8, 2, 4), (8, 6, 4, 6), (10, 20, 2, 2)]
    if c.thorough:
        geoms += [(16, 16, 8, 8), (24, 4, 12, 2), (4, 24, 2, 12), (20, 20, 10, 10), (6, 10, 2, 2)]
    small = len(geoms)
    # long and finely cut areas: cell and domain numbers beyond 8 bits
    geoms += [(300, 10, 2, 2), (6, 560, 1, 2), (8, 128, 2, 64), (72, 8, 36, 2), (48, 48, 12, 12)]
    cmds, n = [], 0

    def world(g, th, order):
        nr, nz, rd, zd = g
        p = os.path.join(c.tmp, "w%d-%d-%d-%d.json" % g)
        if not os.path.exists(p):
            cfg.make(p, nr, nz, rd, zd, dz=cfg.DR * [.5, 2, 1, 4][geoms.index(g) % 4], species=SP, beams=[cfg.beam()])
        cmds.append(dict(op="world", cfg=p, nr=nr, nz=nz, rd=rd, zd=zd, threads=th, order=order))

    for gi, g in enumerate(geoms):
        nr, nz, rd, zd = g
        cr, cz = nr // rd, nz // zd
        # exhaustive: one particle in every domain x every target cell (and one/two outside), sub-cell offset varied
        tg = [(a, b) for a in range(-2, nr + 3) for b in range(-2, nz + 3)]
        large = gi >= small
        if large:
            tg = [(c.rng.randint(-2, nr + 2), c.rng.randint(-2, nz + 2)) for _ in range(120)]
        for si, (th, order) in enumerate([(4, 0)] if large else [(4, 0), (3, 1)] if not c.thorough else [(4, 0), (3, 1), (8, 5), (1, 0), (2, 9)]):
            world(g, th, order)
            homes = list(itertools.product(range(rd), range(zd)))
            if large:
                pairs = [(c.rng.choice(homes), t) for t in tg]
                for h in homes[:2] + homes[-2:] + c.rng.sample(homes, 2):     # the last cells and the next ones
                    pairs += [(h, ((h[0] + 1) * cr - a, (h[1] + 1) * cz - b)) for a in (0, 1) for b in (0, 1)]
            else:
                pairs = [(h, t) for h in homes for t in tg]
            c.rng.shuffle(pairs)
            cap = 20000 if c.thorough else 900
            pairs = pairs[:cap]
            for k in range(0, len(pairs), 150):
                ch = pairs[k:k + 150]
                parts, pos = [], []
                for (h, t) in ch:
                    sp = c.rng.randrange(5)
                    parts.append([sp, h[0], h[1], (h[0] * cr) * U + c.rng.randrange(cr * U), (h[1] * cz) * U + c.rng.randrange(cz * U)])
                    off = c.rng.choice([0, 0, U - 1, 3])
                    pos.append([t[0] * U + off, t[1] * U + c.rng.choice([0, U - 1, 5])])
                cmds.append(dict(op="place", parts=parts))
                cmds.append(dict(op="round", pos=pos))
                n += 1
        # histories: one-cell and long jumps over several rounds, crowding around domain corners
        for h in range(1 if large else 12 if c.thorough else 4):
            world(g, c.rng.choice([1, 2, 3, 4, 8]), c.rng.randrange(1000))
            npart = 60
            cur = [[c.rng.randrange(nr * U), c.rng.randrange(nz * U)] for _ in range(npart)]
            cmds.append(dict(op="place", parts=[[c.rng.randrange(5), p[0] // U // cr, p[1] // U // cz] + p for p in cur]))
            for r in range(20 if large else 6):
                for p in cur:
                    j = c.rng.choice([U, U, 2 * U, 5 * U])
                    p[0] += c.rng.randint(-j, j)
                    p[1] += c.rng.randint(-j, j)
                cmds.append(dict(op="round", pos=[list(p) for p in cur]))
            n += 1
    # a crowd in one cell that goes over a corner at once, and comes back
    world((8, 8, 2, 2), 4, 3)
    many = 700
    cmds.append(dict(op="place", parts=[[c.rng.randrange(5), 0, 0, 3 * U + c.rng.randrange(U), 3 * U + c.rng.randrange(U)] for _ in range(many)]))
    for lo in ((4, 4), (3, 4), (3, 3), (4, 3)):
        cmds.append(dict(op="round", pos=[[lo[0] * U + c.rng.randrange(U), lo[1] * U + c.rng.randrange(U)] for _ in range(many)]))
    n += 1
    f = os.path.join(c.tmp, "cmds")
    with open(f, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    ev = c.drive(exe, [f], what="collector")
    c.sample(lambda: {"world": cmds[0], "placed": cmds[1]["parts"][:3], "observed": {k: v[:3] if isinstance(v, list) else v for k, v in ev[2].items()}})
    c.validate("MigrateTrace", ev, "particle migration", ntraces=n)
    c.extra["particle_moves"] = sum(len(e["pos"]) for e in ev if e["e"] == "round")
    c.extra["geometries"] = len(geoms)
