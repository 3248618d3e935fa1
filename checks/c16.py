import json, os
import cfg, tlc

U = 64
TCFG = tlc.cfg("TraceSpec", dict(RMAX=1, VMAX=1, STEPS=0), postcondition="TraceAccepted")
PUSHERS = ["default", "boris", "borisrel", "vay", "hc"]


def flights(R, nr, nz, n, count, zf):
    out = []
    while len(out) < count:
        r, z = R.randrange(U // 2 + 1, nr * U - U // 2), R.randrange(U, (nz - 1) * U)
        v = [R.randrange(-9, 10), R.choice([0, 1, -1, 5, -7, 9, 12]), R.randrange(-6, 7)]
        if v[0] ** 2 + v[1] ** 2 + (v[2] * zf) ** 2 > 280:
            continue
        ok = all(((U // 2 + 1) ** 2 < (r + k * v[0]) ** 2 + (k * v[1]) ** 2 < (nr * U - U // 2 - 1) ** 2) and U // 2 < z + k * v[2] < nz * U - U // 2 for k in range(n + 1))
        if ok:
            out.append([r, z] + v)
    return out


def run(c):
    c.design("Motion", tlc.cfg("MSpec", dict(RMAX=6, VMAX=3, STEPS=6), ["Agree", "Lagrange", "NotInward", "NeverBelowImpact"]))
    R = c.rng
    T = 40 if c.thorough else 1
    for var in PUSHERS:
        cmds = []

        def world(nr, nz, rd, zd, zf, **k):
            f = os.path.join(c.tmp, "%s%d.json" % (var, len(cmds)))
            cfg.make(f, nr, nz, rd, zd, dz=cfg.DR * zf)
            cmds.append(dict(cfg=f, nr=nr, nz=nz, u=U, **k))
        ri = lambda a, b: R.randrange(a, b + 1)
        pos = lambda nr, nz: [ri(U // 2 + 1, nr * U - U // 2 - 1), ri(U // 2 + 1, nz * U - U // 2 - 1)]
        nonrel = var == "boris"

        def vel(fast):
            m = 150 if nonrel else (5500 if fast else 900)
            return [ri(-m, m) for _ in range(3)]

        def vec(m):
            return [R.choice([0, ri(-m, m)]) for _ in range(3)]
        for nr, nz, rd, zd in [(8, 8, 1, 1), (8, 8, 2, 2), (8, 16, 2, 4), (12, 8, 1, 2)] * T:
            k, zf = {}, R.choice([1, .5, 2, 1.3])     # dz / dr
            if var == "default":
                k["uniform"] = [pos(nr, nz) for _ in range(20)] + [[U // 2 + 1, U], [U, U], [2 * U, 2 * U], [U // 2 + U, U // 2 + U], [(nr - 1) * U, (nz - 1) * U]]
                k["unit"] = []
                for comp in range(1, 7):
                    for _ in range(6):
                        nd = [ri(0, nr - 1), ri(0, nz - 1)]
                        at = [p for p in [[nd[0] * U + ri(-80, 150), nd[1] * U + ri(-80, 150)] for _ in range(12)] + [[nd[0] * U + a, nd[1] * U + b] for a in (0, U // 2) for b in (0, U // 2)]
                              if U // 2 < p[0] < nr * U - U // 2 and U // 2 < p[1] < nz * U - U // 2]
                        if at:
                            k["unit"].append(dict(comp=comp, node=nd, at=at))
            k["flight"] = dict(parts=flights(R, nr, nz, 5, 40, zf), n=5)
            if (nr, nz, rd) == (8, 8, 1):      # a long way
                world(nr, nz, rd, zd, zf, flight=dict(parts=flights(R, nr, nz, 40, 20, zf), n=40))
            # fields are as large as keep second-order terms below the tolerance
            k["push"] = [[ri(0, 1)] + pos(nr, nz) + vel(j % 2) + vec(3 if nonrel else 60) + vec(120) for j in range(80)]
            if not nonrel:      # strong kicks: the Lorentz factor of the middle of the step turns the momentum
                k["kick"] = [[ri(0, 1)] + pos(nr, nz) + [R.choice([-1, 1]) * ri(2000, 5500) for _ in range(3)] + vec(3000) + vec(300) for j in range(80)]
            k["gyro"] = [[ri(0, 1)] + pos(nr, nz) + vel(j % 2) + [0, 0, 0] + [ri(-30000, 30000), ri(-30000, 30000), ri(1, 30000)] for j in range(40)]
            k["accel"] = [[ri(0, 1)] + pos(nr, nz) + ([0, 0, 0] if j % 4 == 0 else vel(True) if var != "default" else [R.choice([-1, 1]) * ri(2000, 5500) for _ in range(3)]) + [R.choice([0, -1, 1]), R.choice([0, -2, 1]), R.choice([-2, 2])] + [0, 0, 0] for j in range(30)]
            k["tol"] = 100
            k["orbit"] = []
            if nr == 12 or rd == 1:
                for sp in (0, 1):
                    for s in (-1, 1):
                        # gyration about a centre off the axis, and about the axis itself
                        b = R.choice([125, 250])     # 40 or 20 steps per radian
                        w = 10000 // (2 * b)
                        v = 2
                        k["orbit"].append([sp, 4 * U, 4 * U] + [0, s * v, 0] + [0, 0, 0, 0, 0, R.choice([-1, 1]) * b, 6 * w, 80000])
            world(nr, nz, rd, zd, zf, **k)
        f = os.path.join(c.tmp, "cmds")
        with open(f, "w") as o:
            o.write("\n".join(json.dumps(x) for x in cmds) + "\n")

        def part():
            ev = c.drive(c.build(var, "push.cpp"), [f] + (["nonrel"] if nonrel else []), what="motion (%s)" % var)
            c.sample(lambda: next((e["v"][:3] for e in ev if e["e"] == "orbit"), "no orbit"))
            c.validate("MotionTrace", ev, "motion (%s)" % var, ntraces=len(cmds), cfgtext=TCFG)
        c.guard(part)
    c.extra["pushers"] = PUSHERS
