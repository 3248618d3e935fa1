import json, math, os
import cfg, tlc
import c15

TCFG = tlc.cfg("TraceSpec", dict(NE=0, NI=0, KICK="{0}"), postcondition="TraceAccepted")
SCHEMES = ("p12", "sk98", "ta77s")
ME, Q, EPS, HBAR, C = 9.1e-31, 1.6e-19, 8.85e-12, 1.0546e-34, 2.998e8
IONS = [(1, 1836), (2, 7344)]


def species(q, m):
    return [dict(name="electrons", charge=-1, mass=1, density=1e12, temperature=1), dict(name="ions", charge=q, mass=m, density=1e12, temperature=1)]


def kick(R, v):
    return [R.gauss(0, v) for _ in range(3)]


def cells(c, s, geo, kinds):
    """A plasma of cells with few particles each, of both kinds, of one kind, and empty ones between."""
    R, (nr, nz, rd, zd) = c.rng, geo
    ve, vi = (1e5, 1e4) if s == "ta77s" else (R.choice([1e5, 3e6, 4e7]), R.choice([0, 1e3, 1e4]))
    parts = []
    for i in range(nr):
        for j in range(nz):
            ne, ni = R.choice(kinds)
            cold = s != "ta77s" and R.random() < .5
            de, di = kick(R, ve), kick(R, vi or 1e2)
            if R.random() < .3:     # exactly along one axis, ions too
                k = R.randrange(3)
                de, di = [[x if m == k else 0 for m, x in enumerate(d)] for d in (de, di)]
            for sp, n, v, d in ((0, ne, ve, de), (1, ni, vi or 1e2, di)):
                # cold: all of a kind move together, so only the meetings with the other kind count
                parts += [[sp, i + R.random(), j + R.random(), 1, *(d if cold else kick(R, v))] for _ in range(n)]
    w = 10 ** R.uniform(13, 16)
    for p in parts:
        p[3] = w * (R.choice([.5, 1, 2, 3]) if s == "ta77s" else 1)
    R.shuffle(parts)
    return parts


def moved(c, parts, geo):
    """The ions of some cells, the electrons of others go to another cell of their domain, so that the rest stays behind."""
    R, (nr, nz, rd, zd) = c.rng, geo
    cr, cz = nr // rd, nz // zd
    out = []
    for k, p in enumerate(parts):
        i, j = int(p[1]), int(p[2])
        if p[0] == (i + j + 1) % 2 or R.random() < .1:
            out.append([k, i // cr * cr + R.randrange(cr) + R.random(), j // cz * cz + R.randrange(cz) + R.random()])
    return out


def s_of(v, n, L, q, mi, dt):
    """P12: mean of 1 - cos of the angle (small angles), electron of speed v meeting an ion at rest"""
    m2 = ME * mi
    if v < 5e7:
        mab = ME * m2 / (ME + m2)
        return n * dt * L * (q * Q * Q) ** 2 / (4 * math.pi * (EPS * mab) ** 2 * v ** 3)
    g = 1 / math.sqrt(1 - v * v / C / C)
    p = ME * g * v
    vc = p / (ME * g + m2)
    gc = 1 / math.sqrt(1 - vc * vc / C / C)
    g1, g2 = (1 - v * vc / C / C) * g * gc, gc
    pc = gc * (p - vc * ME * g)
    return n * dt * L * (q * Q * Q) ** 2 / (4 * math.pi * (EPS * C * C) ** 2 * ME * g * m2) * gc * p / (ME * g + m2) * (ME * g1 * m2 * g2 * C * C / pc ** 2 + 1) ** 2


# seeds whose generator gives a number below exp(-2 / .0985) among the first of every third: ln of it is beyond -2 / s
RARE = (48816, 62778, 80711, 87118, 154825)


def rates(c):
    """One cell, electrons of one velocity and ions at rest: the mean deflection"""
    R, N, out = c.rng, 40000 if c.thorough else 15000, []
    exe = c.build("p12", "coll.cpp")
    goals = [.02, .06, .3, 1.5, 2.5, 4, 5.5, 10]
    R.shuffle(goals)
    for v, ions, rare in [(v, x, 0) for v in (3e5, 3e6, 2e7, 2e8) for x in IONS] + [(3e6, IONS[0], r) for r in (RARE if c.thorough else RARE[:2])]:
        for q, mi in [ions]:
            dt = cfg.DT * R.choice([1, .5, 1e3, 1e5])
            i, j = R.randrange(4), R.randrange(4)
            vol = math.pi * cfg.DR ** 3 * (2 * i + 1)
            goal = .0993 if rare else goals.pop()
            # the number of particles for the deflection wanted; the logarithm depends on it, so look for both
            n = goal / s_of(v, 1, 2, q, mi, dt)
            for _ in range(50):
                te = .5 * ME * v * v / Q
                ti = .5 * ME * mi * (v / 1e6) ** 2 / Q
                debye = 7433.944 / math.sqrt(n / te + n / ti)
                g = 1 / math.sqrt(1 - v * v / C / C)
                u = v
                L = max(2, math.log(debye * (g if v > 5e7 else 1) * ME * mi / (1 + mi) * u / HBAR))
                n = goal / s_of(v, 1, L, q, mi, dt)
            w = n * vol / N
            a, b = kick(R, 1), 1e-6 * v
            k = v / math.sqrt(sum(x * x for x in a))
            pos = [i + .5, j + .5]
            parts = [[0, *pos, w, *(x * k for x in a)] for _ in range(N)] + [[1, *pos, w, b, 0, 0] for _ in range(N)]
            f = cfg.make(os.path.join(c.tmp, "r%g-%d.json" % (v, q)), 4, 4, R.choice([1, 2]), R.choice([1, 2]), dt=dt, species=species(q, mi))
            ci = os.path.join(c.tmp, "rate")
            with open(ci, "w") as o:
                o.write(json.dumps(dict(cfg=f, parts=parts, fresh=int(rare > 0))) + "\n")
            ev = c.drive(exe, [ci], what="rate of collisions", env=dict(VERIF_SEED=str(rare)) if rare else None)
            e = next(x for x in ev if x["e"] == "cell")
            out += [e, dict(e="rate", v=v, q=q, got=e["turn"][0], want=round(1e6 * (goal if goal < .1 else 1 - math.exp(-goal))), tol=50, s=goal, n=n, L=L)]
    # electrons of velocities +v and -v and hardly any ions: half of the pairs of electrons meet head on
    for v, goal in zip((3e5, 3e6, 1e7), R.sample([.01, .02, .05, .1, .3], 3)):
        dt, i, j = cfg.DT * R.choice([1, 1e3]), R.randrange(4), R.randrange(4)
        vol = math.pi * cfg.DR ** 3 * (2 * i + 1)
        n = goal / s_of(2 * v, 1, 2, 1, 1, dt)
        te, ti = .5 * ME * v * v / Q, .5 * ME * 1836 * (v / 1e6) ** 2 / Q
        L = max(2, math.log(7433.944 / math.sqrt(n / te + 3 * n / N / ti) * ME / 2 * 2 * v / HBAR))
        sl = s_of(2 * v, n, L, 1, 1, dt)
        if 2 * v < 1e6 and n > 7e13:
            sl = min(sl, (4 / 3 * math.pi) ** (1 / 3) * n ** (1 / 3) * dt * 2 * 2 * v)
        # the few ions are met as often as if they were as dense as the electrons
        l2 = max(2, math.log(7433.944 / math.sqrt(n / te + 3 * n / N / ti) * ME * 1836 / 1837 / 2 * v * 2 / HBAR))
        si = s_of(v, n, l2, 1, 1836, dt)
        a, w = kick(R, 1), n * vol / N
        k = v / math.sqrt(sum(x * x for x in a))
        pos = [i + .5, j + .5]
        parts = [[0, *pos, w, *(x * k * (-1) ** m for x in a)] for m in range(N)] + [[1, *pos, w, 1e-6 * v, 0, 0] for _ in range(3)]
        f = cfg.make(os.path.join(c.tmp, "l%g.json" % v), 4, 4, R.choice([1, 2]), R.choice([1, 2]), dt=dt, species=species(1, 1836))
        ci = os.path.join(c.tmp, "rate")
        with open(ci, "w") as o:
            o.write(json.dumps(dict(cfg=f, parts=parts)) + "\n")
        ev = c.drive(exe, [ci], what="rate of collisions")
        e = next(x for x in ev if x["e"] == "cell")
        out += [e, dict(e="rate", v=v, q=0, got=e["turn"][0], want=round(1e6 * (1 - .5 * (1 + math.exp(-sl)) * math.exp(-si))), tol=50, s=sl, si=si, n=n, L=L)]
    c.sample(lambda: out[1])
    c.validate("CollideTrace", [dict(e="world", each=False, pair=True)] + out, "rate of collisions", ntraces=len(out) // 2, cfgtext=TCFG)


def mean_turn(s):
    """TA77: mean of 1 - cos, the tangent of half of the angle being normal with the variance s/2"""
    if s < 1e-9:
        return s
    a, h = math.sqrt(s / 2), 1e-3
    return sum(2 * d * d / (1 + d * d) * math.exp(-.5 * x * x) for x, d in ((h * k, a * h * k) for k in range(-7000, 7001))) * h / math.sqrt(2 * math.pi)


def rates_each(c):
    """TA77S: electrons of velocities +v and -v, so that giving back momentum and energy of the kind changes nothing"""
    R, N, out = c.rng, 100000 if c.thorough else 40000, []
    exe = c.build("ta77s", "coll.cpp")
    jobs = [(N, N, 1), (N, 7 * N // 5, 1), (7 * N // 5, N, 1), (N, N, .5), (N, N, 2), (N, 3, 1), (N, 3, 1)] + [(N, 7 * N // 5, .3), (7 * N // 5, N, 3)] * c.thorough
    for k, (ne, ni, wi) in enumerate(jobs):
        v, (q, mi) = R.choice([3e5, 3e6, 2e7]), R.choice(IONS)
        dt, i, j = cfg.DT * R.choice([1, .5, 1e3, 1e5]), R.randrange(4), R.randrange(4)
        vol = math.pi * cfg.DR ** 3 * (2 * i + 1)
        te, ti = .5 * ME * v * v / Q, .5 * ME * mi * (v / 1e6) ** 2 / Q
        # hardly any ions: what is seen are meetings of electrons
        de = (R.choice([.005, .05, .5]) / q ** 2 if ni > 3 else R.choice([.5, 2, 4])) / s_of(v, 1, 2, 1, mi, dt)
        w = de * vol / ne
        di = ni * w * wi / vol
        debye = 7433.944 / math.sqrt(de / te + di / ti)
        L = lambda m, u: max(2, math.log(debye * ME * m * u / HBAR))
        # a meeting with an ion: the lighter macroparticle turns as it must, the heavier one by its share
        ei = min(1, wi) * mean_turn(s_of(v, min(de, di), L(mi / (1 + mi), v), q, mi, dt))
        # a meeting with an electron: half of them fly the other way, the others not at all
        ee = mean_turn(s_of(2 * v, de, L(.5, 2 * v), 1, 1, dt)) / 2
        lo = ni // ne if ni > ne else 1
        more = ni / ne - lo if ni > ne else 0
        want = 1 - (1 - ee) * ((1 - more) * (1 - ei) ** lo + more * (1 - ei) ** (lo + 1))
        a, b = kick(R, 1), 1e-6 * v
        f = v / math.sqrt(sum(x * x for x in a))
        pos = [i + .5, j + .5]
        parts = [[0, *pos, w, *(x * f * (-1) ** m for x in a)] for m in range(ne)] + [[1, *pos, w * wi, *kick(R, b / math.sqrt(3))] for _ in range(ni)]
        fn = cfg.make(os.path.join(c.tmp, "e%d.json" % k), 4, 4, R.choice([1, 2]), R.choice([1, 2]), dt=dt, species=species(q, mi))
        ci = os.path.join(c.tmp, "rate-each")
        with open(ci, "w") as o:
            o.write(json.dumps(dict(cfg=fn, parts=parts, classic=1)) + "\n")
        ev = c.drive(exe, [ci], what="rate of collisions")
        e = next(x for x in ev if x["e"] == "cell")
        out += [e, dict(e="rate", v=v, q=q, ne=ne, ni=ni, wi=wi, got=e["turn"][0], speed=e["speed"][0], want=round(1e6 * want), tol=math.ceil(10 + 6000 * math.sqrt(12 * ee ** 2 + 2 * ei ** 2) / want / math.sqrt(min(ne, max(ni, N)))), ei=ei, ee=ee, n=de)]
    c.sample(lambda: out[1])
    c.validate("CollideTrace", [dict(e="world", each=True, pair=False)] + out, "rate of collisions (ta77s)", ntraces=len(out) // 2, cfgtext=TCFG)


def many(c, s):
    R = c.rng
    exe = c.build(s, "coll.cpp")
    kinds = [(0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 3), (4, 0), (7, 3), (3, 7), (5, 2), (2, 5)] + [(R.randint(0, 40), R.randint(0, 40)) for _ in range(8)]
    cmds = []
    for geo in [(4, 4, 1, 1), (8, 8, 2, 2), (4, 12, 2, 4), (12, 4, 4, 2), (6, 5, 2, 1)] * (6 if c.thorough else 2):
        q, m = R.choice(IONS)
        f = cfg.make(os.path.join(c.tmp, "%s-%d.json" % (s, len(cmds))), *geo, dz=cfg.DR * R.choice([1, .5, 2]), dt=cfg.DT * R.choice([1, .5]), species=species(q, m))
        p = cells(c, s, geo, kinds)
        cmd = dict(cfg=f, parts=p, classic=int(s == "ta77s"))
        if R.random() < .5:
            cmd["move"] = moved(c, p, geo)
        cmds.append(cmd)
    ci = os.path.join(c.tmp, "cells-" + s)
    with open(ci, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    ev = c.drive(exe, [ci], what="collisions (%s)" % s)
    c.sample(lambda: ev[0])
    c.extra["cells_" + s] = len(ev)
    c.validate("CollideTrace", [dict(e="world", each=s == "ta77s", pair=s != "ta77s")] + ev, "collisions (%s)" % s, ntraces=len(cmds), cfgtext=TCFG)


def whole(c, s):
    """Whole runs with collisions: particles and Gauss's law step by step."""
    R = c.rng
    for k, g in enumerate([(8, 8, 2, 2), (12, 8, 4, 2), (8, 16, 1, 4), (6, 10, 1, 1)] * (2 if c.thorough else 1)):
        B = [cfg.beam("b1", 2, .0005, .003, .003, 2e8, 0, density=1e13)] if k % 4 == 2 else []
        kw = dict(temp=R.choice([1e2, 3e4]), dens=R.choice([1e15, 1e20]), macro=R.choice([100, 600]), threads=R.choice([1, 3]), beams=B)
        ev = c.guard(c15.play, c, s, k + 10 * SCHEMES.index(s), g, 40 if c.thorough else 12, **kw)
        if ev:
            c.guard(c.validate, "StepTrace", ev, "steps of a run with collisions (%s, %s)" % (s, g), cfgtext=c15.TCFG)


def run(c):
    inv = ["Inside", "Kept", "Everyone", "Alone"]
    c.design("Collide", tlc.cfg("Spec", dict(NE=9, NI=9, KICK="{1}"), inv))
    c.design("Collide", tlc.cfg("Spec", dict(NE=4 if c.thorough else 3, NI=4 if c.thorough else 3, KICK="{0, 1, 2}"), inv))
    for s in SCHEMES:
        c.guard(many, c, s)
        c.guard(whole, c, s)
    c.guard(rates, c)
    c.guard(rates_each, c)
