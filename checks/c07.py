import json, os
import cfg, tlc, probes

CONST = dict(NR=1, NZ=1, RD=1, ZD=1, MaxStep=0, Rects="{}", Scheds="{1}")
TCFG = tlc.cfg("TraceSpec", CONST, postcondition="TraceAccepted")


def design(c):
    inv, pr = ["OneFramePerSchedule", "Indexing", "IndexingOnto"], ["FramesFinal"]
    c.design("Probe", tlc.cfg("Spec", dict(NR=4, NZ=2, RD=2, ZD=2, MaxStep=2, Rects="{}", Scheds="{1, 2}"), inv, pr))
    if c.thorough:
        c.design("Probe", tlc.cfg("Spec", dict(NR=4, NZ=4, RD=2, ZD=2, MaxStep=3, Rects="{}", Scheds="{1, 2, 3}"), inv, pr))


def world(c, cmds, g, ps, steps, dt=cfg.DT):
    nr, nz, rd, zd = g
    seen, uniq = set(), []
    for p in ps:
        if p[1]["path"] not in seen:
            seen.add(p[1]["path"])
            uniq.append(p)
    f = os.path.join(c.tmp, "o%d.json" % len(cmds))
    cfg.make(f, nr, nz, rd, zd, probes=[p[0] for p in uniq], dt=dt, steps=steps)
    cmds.append(dict(cfg=f, nr=nr, nz=nz, rd=rd, zd=zd, steps=steps, probes=[p[1] for p in uniq]))


def play(c, cmds, what):
    exe = c.build("default", "out.cpp")
    f = os.path.join(c.tmp, "cmds")
    with open(f, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    ev = c.drive(exe, [f], what=what)
    c.sample(lambda: {"world": {k: cmds[0][k] for k in ("nr", "nz", "rd", "zd", "steps")}, "probe": cmds[0]["probes"][:1], "observed": ev[1]})
    c.validate("ProbeTrace", ev, what, ntraces=len(cmds), cfgtext=TCFG)
    c.extra["values_checked"] = c.extra.get("values_checked", 0) + sum(len(e["v"]) for e in ev if e["e"] == "data")


def run(c):
    design(c)
    cmds = []
    R = c.rng
    # every rectangle, column, row and dot of small decompositions, spread over components
    for g in [(4, 4, 2, 2), (4, 8, 1, 4), (8, 4, 4, 2), (6, 4, 2, 1), (3, 5, 1, 1)]:
        nr, nz = g[:2]
        al = [probes.rec(0, a, b, x, y) for a in range(nr) for b in range(nz) for x in range(a + 1, nr + 1) for y in range(b + 1, nz + 1)]
        R.shuffle(al)
        al = al[:(4000 if c.thorough else 90)]
        al += [probes.col(0, z) for z in range(nz)] + [probes.row(0, r) for r in range(nr)] + [probes.dot(0, r, z) for r in range(nr) for z in range(nz)]
        ps = []
        for p in al:        # another component each
            k = R.randrange(9)
            d = p[1]
            ps.append({0: lambda: probes.rec(k, d["r0"], d["z0"], d["r1"], d["z1"]), 1: lambda: probes.col(k, d["z1"]),
                       2: lambda: probes.row(k, d["r1"]), 3: lambda: probes.dot(k, d["r1"], d["z1"])}[d["shape"]]())
        for i in range(0, len(ps), 30):
            world(c, cmds, g, ps[i:i + 30], 1)
    # larger grids, random probes, every component, several schedules and steps
    for k in range(60 if c.thorough else 12):
        g = R.choice([(8, 8, 2, 2), (16, 8, 4, 2), (8, 16, 2, 8), (12, 20, 6, 2), (10, 30, 2, 10), (32, 32, 4, 4)])
        nr, nz = g[:2]
        ps = []
        for _ in range(8):
            s, cm = R.choice([1, 1, 2, 3]), R.randrange(9)
            a, b = R.randrange(nr), R.randrange(nz)
            ps.append(R.choice([lambda: probes.rec(cm, a, b, R.randint(a + 1, nr), R.randint(b + 1, nz), s), lambda: probes.col(cm, b, s),
                                lambda: probes.row(cm, a, s), lambda: probes.dot(cm, a, b, s)])())
        world(c, cmds, g, ps, 4)
    # long and wide areas: cells far beyond 127, 255 (and 32767), from the wall and from the border of their domain
    for g in [(2, 300, 1, 1), (300, 2, 1, 1), (4, 600, 2, 2), (600, 4, 2, 2)] + ([(2, 40000, 1, 1), (40000, 2, 1, 1), (2, 80000, 1, 2), (4, 80000, 2, 10)] if c.thorough else [(2, 40000, 1, 1)]):
        nr, nz = g[:2]
        long = max(nr, nz)
        ps = []
        for k in range(3):
            a = R.randrange(long - long // 8, long - 8)
            b, cm = a + R.randint(1, 8), R.randrange(9)
            ps += [probes.rec(cm, a, 0, b, nz) if nr > nz else probes.rec(cm, 0, a, nr, b),
                   probes.row(cm, a) if nr > nz else probes.col(cm, a), probes.dot(cm, a, 1) if nr > nz else probes.dot(cm, 1, a),
                   probes.rec(cm, long // 2 - 3, 0, long // 2 + 3, nz) if nr > nz else probes.rec(cm, 0, long // 2 - 3, nr, long // 2 + 3)]
        if long < 1000:
            ps += [probes.rec(0, 0, 0, nr, nz), probes.col(0, 1), probes.row(0, 1)]
        world(c, cmds, g, ps, 2)
    world(c, cmds, (8, 8, 2, 2), [], 2)
    play(c, cmds, "content of probe frames")
