import json, os, subprocess
import cfg, probes, c07
from check import Violation


def runs(c):
    """Whole runs of the program: how many frames each probe ends with."""
    exe = c.build("default", None, with_main=True)
    ev = []
    R = c.rng
    cases = []
    for dt in [1e-12, 1e-11 / 3, 7e-13, cfg.DT, 2.3e-12]:
        for n in ([1, 7, 37, 100] if not c.thorough else [1, 2, 3, 10, 37, 101, 250, 600]):
            cases.append((dt, n))
    for k, (dt, n) in enumerate(cases):
        d = os.path.join(c.tmp, "run%d" % k)
        os.makedirs(d)
        k0 = 0 if k % 3 else R.choice([1, 5, 40, 1003])      # the clock need not start at 0
        sch = [1, R.choice([2, 3, 5]), R.choice([7, 10, 4]), n]
        ps = [probes.dot(0, 1, 1, sch[0]), probes.rec(2, 1, 1, 5, 6, sch[1]), probes.col(4, 3, sch[2]), probes.row(6, 2, sch[3])]
        f = cfg.make(d + "/c.json", 8, 8, 2, 2, dt=dt, probes=[p[0] for p in ps], root=d,
                     extra=dict(time=dict(start=k0 * dt, end=(k0 + n - 0.5) * dt, step=dt)))
        log = d + "/h5.log"
        c.drive(exe, ["-f", f], env=dict(VP_H5_DISK="1", VP_H5_LOG=log), what="whole run")
        w, fr = {}, {}
        for l in open(log):
            e = json.loads(l)
            if e["e"] == "write":
                w.setdefault(e["path"], {}).setdefault(e["off"][0], 0)
                w[e["path"]][e["off"][0]] += 1
            elif e["e"] in ("create", "resize"):
                fr[e["path"]] = e["dims"][0]
        out = []
        for q in ps:
            p = q[1]["path"]
            s = sorted(w.get(p, {}))
            out.append(dict(path=p, sched=q[1]["sched"], frames=fr.get(p, -1), slices=s, times=[w[p][x] for x in s]))
        ev.append(dict(e="run", steps=n, **{"from": k0},  dt=repr(dt), probes=out))
        c.sample(lambda: dict(dt=dt, steps=n, frames=[[o["sched"], o["frames"]] for o in out]))
    c.validate("ProbeTrace", ev, "frames of whole runs", ntraces=len(ev), cfgtext=c07.TCFG)


def run(c):
    c07.design(c)
    R = c.rng
    cmds = []
    # long histories with time steps that are not exact in binary: the clock is a sum of steps
    for dt in [1e-12, 1e-11 / 3, 7e-13, 2.3e-12, cfg.DT, 1.1e-13] + [R.uniform(1e-13, 1e-11) for _ in range(20 if c.thorough else 4)]:
        n = 300 if c.thorough else 120
        c07.world(c, cmds, (4, 4, 2, 2), [probes.dot(0, 1, 2, 1), probes.dot(1, 3, 3, 2), probes.rec(2, 1, 1, 3, 3, 7), probes.col(7, 2, 10),
                                          probes.row(5, 0, 3), probes.dot(8, 0, 0, 1000), probes.dot(4, 2, 1, n - 1)], n, dt)
    # sparse histories of very long runs: frame numbers and schedules beyond 16 bits
    for k in range(12 if c.thorough else 4):
        scheds = [1, R.choice([2, 3, 7]), 100, 1000, 40000, 65535, 65536, 65537, 100000, 131072]
        at = {0, 1, 2, 3, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 65538, 131072, 131073, 200000, 300000}
        at |= {R.randrange(300000) for _ in range(10)} | {x * R.randint(1, 300000 // x) for x in scheds for _ in range(2)}
        if k % 2:       # beyond what a single precision number can count
            scheds = [R.choice([9999, 10007, 12345]), 100000, 1000003, R.choice([3, 7, 11]) * 999983]
            at = {0, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 24 + 3, 2 ** 25 + 5} | {x * R.randint(1, 4 * 10 ** 7 // x) + y for x in scheds for y in (-1, 0, 1) for _ in range(2)}
        g = R.choice([(4, 4, 2, 2), (4, 4, 1, 1)])
        ps = [probes.dot(i % 9, i % 4, i // 4, s) for i, s in enumerate(scheds)] + [probes.col(0, 2, 40000), probes.row(4, 1, 65536), probes.rec(8, 1, 1, 3, 3, 70000)]
        c07.world(c, cmds, g, ps, 1, R.choice([1e-12, cfg.DT, R.uniform(1e-13, 1e-11)]))
        cmds[-1]["at"] = sorted(at)
    c07.play(c, cmds, "frames over long histories")
    runs(c)
