import os, struct, array
import cfg, tlc
from check import Violation

FOOT = dict(extra_flags=["-fsanitize=thread"], extra_src=["stubs/impl/foot.cpp"], defines={"VP_FOOT": "1"},
            link=["-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset", "-ldl", "-rdynamic"])


def read(path):
    b = open(path, "rb").read()
    o, out = 0, []
    while o < len(b):
        n1, n2 = struct.unpack_from("QQ", b, o)
        o += 16
        ps = array.array("d", b[o:o + n1 * 80])
        o += n1 * 80
        fl = array.array("d", b[o:o + n2 * 8])
        o += n2 * 8
        out.append((ps, fl))
    return out


def close(a, b, scale):
    return 0 if a == b or (a != a and b != b) else int(min(1e9, abs(a - b) / scale * 1e12)) if a == a and b == b else 10 ** 9


def compare(ref, got):
    ev = []
    for (p0, f0), (p1, f1) in zip(ref, got):
        a = {(p0[i], p0[i + 1]): p0[i + 2:i + 10] for i in range(0, len(p0), 10)}
        b = {(p1[i], p1[i + 1]): p1[i + 2:i + 10] for i in range(0, len(p1), 10)}
        dev, else_ = 0, 0
        for k in a.keys() & b.keys():
            if a[k][:2] != b[k][:2]:
                else_ += 1
            dev = max([dev] + [close(x, y, max(abs(x), s)) for x, y, s in zip(a[k][2:], b[k][2:], (cfg.DR, cfg.DR, 1e6, 1e6, 1e6, 1))])
        m = max([abs(x) for x in f0 if x == x] or [1]) or 1
        dev = max([dev] + [close(x, y, m) for x, y in zip(f0, f1) if x != y])
        dup = len(p1) // 10 - len(b)
        ev.append(dict(e="outcome", missing=len(a.keys() - b.keys()), extra=len(b.keys() - a.keys()) + dup, elsewhere=else_, dev=dev,
                       n=len(a), fields=len(f0)))
    return ev


def run(c):
    c.design("Par", tlc.cfg("Spec", dict(Threads="{1, 2}", Words="{1, 2}", Len0=3 if c.thorough else 2), ["ScheduleFree"]))
    if c.thorough:
        c.design("Par", tlc.cfg("Spec", dict(Threads="{1, 2, 3}", Words="{1, 2}", Len0=2), ["ScheduleFree"]))
    r = tlc.run("Par", tlc.cfg("Spec", dict(Threads="{1, 2}", Words="{1, 2}", Len0=2), ["AlwaysScheduleFree"]))
    if not r.invariant:
        raise RuntimeError("the premise of Par is vacuous")
    c.extra["mutant_of_spec_rejected"] = 1
    ev, nt = [dict(e="world", tol=10 ** 5)], 0
    # 1. footprints of every region of whole steps, one logical thread per domain (64 at most)
    exe = c.build("default", "par.cpp", **FOOT)
    worlds = [(16, 16, 4, 4, 6000), (32, 8, 8, 2, 4000), (8, 8, 2, 2, 1000)]
    if c.thorough:
        worlds += [(64, 8, 16, 2, 8000), (8, 64, 2, 16, 8000), (16, 16, 4, 4, 20000)]
    for k, (nr, nz, rd, zd, macro) in enumerate(worlds):
        p = cfg.make(os.path.join(c.tmp, "f%d.json" % k), nr, nz, rd, zd, macro=macro, pml=(0.1, 0.1, 0.2),
                     beams=[cfg.beam(radius=nr * cfg.DR * 0.8, length=0.001, amount=1)])
        e = c.drive(exe, [p, 64, 0, 3, 1, os.path.join(c.tmp, "f.bin"), 7 + c.seed], what="footprints of a step")
        w = [x for x in e if x["e"] == "words"]
        c.extra["footprint_words"] = c.extra.get("footprint_words", 0) + sum(x["n"] for x in w)
        c.extra["parallel_regions"] = c.extra.get("parallel_regions", 0) + e[-1]["regions"]
        if not w or e[-1]["regions"] < 20:
            raise RuntimeError("footprints not recorded")
        ev += w
        nt += 1
        c.sample(lambda: {k2: w[0][k2] for k2 in ("phase", "region", "r", "w", "n")})
    # 2. outcomes under other thread counts and orders
    exe = c.build("default", "par.cpp")
    scheds = [(1, 0), (2, 1), (3, 5), (16, 7)] + ([(8, k) for k in range(20, 50)] if c.thorough else [])
    for k, (nr, nz, rd, zd, macro) in enumerate(worlds[:3]):
        p = cfg.make(os.path.join(c.tmp, "o%d.json" % k), nr, nz, rd, zd, macro=macro, pml=(0.1, 0.1, 0.2))
        ref = None
        for th, od in scheds:
            b = os.path.join(c.tmp, "o.bin")
            c.drive(exe, [p, th, od, 3, 0, b, 11 + c.seed], what="step under a schedule")
            got = read(b)
            if ref is None:
                ref = got
            else:
                o = compare(ref, got)
                ev += o
                nt += 1
                c.sample(lambda: dict(world=[nr, nz, rd, zd], threads=th, order=od, outcome=o[-1]))
    c.validate("ParTrace", ev, "parallel phases", ntraces=nt)
