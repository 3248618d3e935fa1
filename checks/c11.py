import copy, json, os, string
import cfg, probes, tlc

TCFG = tlc.cfg("TraceSpec", dict(MAXN=1, NAMES=1, IDS=1), postcondition="TraceAccepted")


def h(s, salt):
    r = salt
    for ch in s:
        r ^= ((r << 5) + ord(ch) + (r >> 2)) & 0xffff
    return r & 0xffff


def alike():
    """Names with one and the same hash: two species, two beams, a specie and a beam."""
    seen, got = {}, {"ss": [], "bb": [], "sb": []}
    names = [a + b + c for a in string.ascii_lowercase for b in string.ascii_lowercase for c in "abcdefgh0123456789"]
    for n in names:
        for k, x in (("s", h(n, 1394)), ("b", h("beam_" + n, 18132))):
            for k2, n2 in seen.get(x, []):
                if n2 != n:
                    got["".join(sorted(k + k2, reverse=True))].append((n2, n) if k2 >= k else (n, n2))
            seen.setdefault(x, []).append((k, n))
    # names of hashes that follow each other, several of one hash: the next free id is itself taken
    got["chain"] = [[seen[x + d] for d in range(3)] for x in seen if len(seen[x]) > 2 and x + 2 in seen and x + 1 in seen]
    return got


def chain(R, hs, back):
    """-> species, beams of neighbouring hashes, those of the higher ones first (back) or in any order"""
    ns = [x for d in ((2, 1, 0) if back else (0, 1, 2)) for x in R.sample(hs[d], 2 if d == 0 else 1)]
    if not back:
        R.shuffle(ns)
    return [n for k, n in ns if k == "s"], [n for k, n in ns if k == "b"]


def base(R, pick=None):
    nr, nz, rd, zd = pick or R.choice([(8, 8, 1, 1), (8, 8, 2, 2), (12, 8, 2, 1), (8, 12, 1, 4), (16, 12, 4, 2), (10, 22, 2, 2), (6, 6, 1, 1)])
    sp = [dict(name="electrons", charge=-1, mass=1, density=1e14, temperature=1),
          dict(name="ions", charge=R.choice([1, 2, 7]), mass=R.choice([1836, 3670, 7294, 400000]), density=1e14, temperature=1)]
    if R.random() < .5:
        sp.append(dict(name=R.choice(["muons", "x", "Ne+10", "a b"]), charge=R.choice([-1, 3, 10]), mass=R.choice([207, 40001, 2]), density=1e12, temperature=2))
    bm = [cfg.beam("q%d" % i, R.choice([1, 1, 2, 3]), R.choice([0, .003]), R.choice([0.002, 0.0013, 0.02]), R.choice([0.002, 0.0031]), 1.5e8, charge=R.choice([-1, 2]), mass=R.choice([1, 1836])) for i in range(R.choice([0, 1, 2]))]
    ps = [probes.rec(R.randrange(9), 0, 0, nr, nz, 2)[0], probes.col(R.randrange(9), R.randrange(nz), 1)[0], probes.row(R.randrange(9), R.randrange(nr), 3)[0]]
    ps.append(dict(component="density", specie=R.choice(["electrons", "ions"]), shape="rec", start=dict(r=0, z=0), end=dict(r=nr, z=nz // 2), schedule=1))
    return dict(nr=nr, nz=nz, rd=rd, zd=zd, macro=R.choice([120, 240, 391, 1000]), ratio=R.choice([1, 2, 3, 8]), sp=sp, beams=bm, probes=ps, dt=R.choice([1e-12, 7e-13, cfg.DT]), end=None,
                size=(R.choice([.05, .0375, nr * cfg.DR]), R.choice([.15, .3, nz * cfg.DR])), well=True,
                pml=[R.choice([0, 1, 2, 3]) for _ in range(3)], sigma=(R.choice([1e-5, 1e-3]), R.choice([.5, 1.5, 7e-2])))


def mutations(R):
    """-> (what, change): each makes one point of a configuration unusual; most have to be refused."""
    A = alike()
    s2 = lambda a, b: [dict(name=a, charge=-1, mass=1, density=1e14, temperature=1), dict(name=b, charge=1, mass=1836, density=1e14, temperature=1)]
    M = [("nothing", lambda c: None)] * 4
    for k, v in [("rd", 0), ("zd", 0), ("rd", 3), ("zd", 3), ("rd", -2), ("zd", -1), ("zd", 5), ("rd", 6), ("zd", 6), ("rd", 4), ("zd", 4), ("rd", 8), ("zd", 100)]:
        M.append(("%s=%d" % (k, v), lambda c, k=k, v=v: c.update({k: v})))
    for k, v in [("nr", 9), ("nz", 9), ("nr", 11), ("nz", 13), ("nz", 10)]:
        M.append(("%s=%d" % (k, v), lambda c, k=k, v=v: c.update({k: v, "probes": []})))
    M += [("dup specie", lambda c: c["sp"].append(dict(c["sp"][0], mass=5))), ("dup last", lambda c: c["sp"].append(dict(c["sp"][-1], mass=5))),
          ("dup beam", lambda c: c.update(beams=[cfg.beam("q", 1), cfg.beam("p", 1), cfg.beam("q", 1, mass=4)])),
          ("beam as specie", lambda c: c.update(beams=[cfg.beam("electrons", 1)])),
          ("specie as beam", lambda c: (c.update(beams=[cfg.beam("q", 1)]), c["sp"].append(dict(c["sp"][0], name="beam_q")))),
          ("no electrons", lambda c: c.update(sp=s2("p", "ions")[1:])), ("positrons", lambda c: c.update(sp=s2("positrons", "ions"))),
          ("no ions", lambda c: c.update(sp=s2("electrons", "protons"))), ("heavy electrons", lambda c: c.update(sp=s2("x", "ions")[1:] + [dict(name="Electron", charge=-1, mass=3, density=1e14, temperature=1)])),
          ("almost electrons", lambda c: c.update(sp=s2("x", "Ion")[1:] + [dict(name="xlectrons", charge=-1, mass=3, density=1e14, temperature=1)]))]
    # names that are almost the same
    for a, b in (("ions", "ion"), ("ion", "ions"), ("ions", "Ions"), ("ions", " ions"), ("ions", "ions "), ("ions", "2ions"), ("ions", "beam_ions"), ("ions", "")):
        M.append(("like specie", lambda c, a=a, b=b: c.update(sp=s2("electrons", a) + [dict(c["sp"][1], name=b)])))
    for a, b in (("q", "qq"), ("qq", "q"), ("q", "Q"), ("electrons", "electron"), ("beam_q", "q"), ("q", "")):
        M.append(("like beam", lambda c, a=a, b=b: c.update(beams=[cfg.beam(a, 1), cfg.beam(b, 1)])))
    for k in range(3):
        M.append(("ids ss", lambda c, p=R.choice(A["ss"]): c.update(sp=s2(*p) + s2('electrons', 'ions'))))
        M.append(("ids bb", lambda c, p=R.choice(A["bb"]): c.update(beams=[cfg.beam(p[0], 1), cfg.beam(p[1], 1)])))
        M.append(("ids sb", lambda c, p=R.choice(A["sb"]): c.update(sp=s2(p[0], "ions") + s2("electrons", "x")[:1], beams=[cfg.beam(p[1], 1)])))

    for k in range(8):
        ss, bb = chain(R, R.choice(A["chain"]), k < 6)
        M.append(("ids chain", lambda c, ss=ss, bb=bb: c.update(sp=[dict(s2(n, "ions")[0], charge=R.choice([-1, 2])) for n in ss] + s2("electrons", "ions"), beams=[cfg.beam(n, 1) for n in bb])))

    def pr(what, **kw):
        M.append(("probe " + what, lambda c: c["probes"].append(dict(dict(component="E/z", shape="rec", schedule=1, start=dict(r=1, z=1), end=dict(r=3, z=3), r=1, z=1), **kw))))
    pr("sch 0", schedule=0), pr("sch -1", schedule=-1), pr("sch .4", schedule=.4), pr("sch .4 dot", schedule=.4, shape="dot"), pr("sch 1.5", schedule=1.5), pr("sch 1e6", schedule=1e6)
    pr("shape", shape="box"), pr("shape none", shape=""), pr("rows up", start=dict(r=4, z=1)), pr("columns up", start=dict(r=1, z=4))
    pr("high", end=dict(r=99, z=3)), pr("far", end=dict(r=3, z=99)), pr("col", shape="col", z=99), pr("row", shape="row", r=99), pr("dot", shape="dot", r=99), pr("dot", shape="dot", z=99)
    pr("high by one", end=dict(r=17, z=3)), pr("dot right", shape="dot", r=2, z=23), pr("row by one", shape="row", r=17), pr("col by one", shape="col", z=23)
    pr("col -1", shape="col", z=-1), pr("row -1", shape="row", r=-1), pr("dot -1", shape="dot", r=-1, z=2), pr("rec -1", start=dict(r=1, z=-1))
    pr("component", component="E/x"), pr("component", component="W"), pr("specie", component="density", specie="nothing"), pr("specie", component="momentum/z", specie=""), pr("specie", component="energy", specie="beam_q9", shape="row")
    for k, v in (("no geometry", "geometry"), ("no time", "time"), ("no particles", "particles"), ("no data", "data"), ("no beams", "beams")):
        M.append((k, lambda c, v=v: c.update(drop=v, well=False)))
    M += [("cut file", lambda c: c.update(cut=True, well=False)), ("empty file", lambda c: c.update(text="", well=False)), ("no file", lambda c: c.update(text=None, well=False)),
          ("text for number", lambda c: c.update(poke=("geometry", "grid", "radius"), well=False)), ("text for step", lambda c: c.update(poke=("time", "step"), well=False)),
          ("twice probe", lambda c: c["probes"].append(dict(c["probes"][0], schedule=5)))]
    # numbers: bad ones of every option, and unusual but good ones
    def num(*at):
        for v in at[-1]:
            M.append(("%s = %r" % (at[:-1], v), lambda c, v=v: (c["beams"].append(cfg.beam("n", 1)), c.setdefault("set", []).append((at[:-1], v)))))
    for d in ("radius", "longitude"):
        num("geometry", "size", d, [0, -1e-3])
        num("geometry", "grid", d, [0, -8, 8.5])
        num("geometry", "domains_amount", d, [1.5, .5])
    for d in ("left_wall", "right_wall", "outer_wall"):
        num("geometry", "pml", d, [R.choice([-.1, 1.001, 3]), R.choice([1, .999])])
    num("geometry", "pml", "sigma_1", [-1e-5, 0])
    num("geometry", "pml", "sigma_2", [-1, 0])
    num("time", "step", [0, -1e-12])
    num("time", "start", [-1e-12, -cfg.DT / 1000, 1e-13, 2e-13])
    num("macro_amount", [-1, 1e12])
    num("beam_plasma_macro_size_ratio", [-1, 1.5])
    k = R.choice([0, 1])
    num("particles", k, "mass", [0, -1, .5, 1836.2, 1e10])
    num("particles", k, "charge", [.5, -1.5])
    num("particles", k, "density", [-1e14])
    num("particles", 1 - k, "temperature", [-1, 0])
    num("beams", -1, "mass", [0, -1, 1.5])
    num("beams", -1, "charge", [.3])
    num("beams", -1, "velocity", [0, -1e8, 3e8, 2.99e8])
    num("beams", -1, "start_time", [-1e-9, 1e-9])
    num("beams", -1, "bunch", "amount", [-1, 1.5])
    num("beams", -1, "bunch", "length", [0, -.01])
    num("beams", -1, "bunch", "radius", [0, -.01])
    num("beams", -1, "bunch", "distance", [-.01, 0])
    num("beams", -1, "bunch", "density", [-1e12, 0])
    for k, d in ((0, "start"), (0, "end")):
        num("data", "probes", k, d, R.choice("rz"), [1.5, -.5, -2])
    num("data", "probes", 1, "z", [1.5, .999])
    num("data", "probes", 2, "r", [2.5, -1])
    num("data", "probes", R.randrange(3), "schedule", [1.5, .5, 0, 2.5, 3e9])
    return M


def values(j):
    """The numbers of a configuration, as the specification speaks of them."""
    out = []

    def put(o, v, limit=2 ** 31 - 1):
        out.append(dict(o=o, s=(v > 0) - (v < 0), whole=v == int(v), big=abs(v) > limit))
    g = j["geometry"]
    for d in ("radius", "longitude"):
        put("size", g["size"][d]), put("grid", g["grid"][d]), put("domains", g["domains_amount"][d])
    for d in ("left_wall", "right_wall", "outer_wall"):
        put("layer", g["pml"][d], 1)
    put("sigma", g["pml"]["sigma_1"]), put("sigma", g["pml"]["sigma_2"]), put("step", j["time"]["step"]), put("start", j["time"]["start"])
    put("macro", j["macro_amount"]), put("ratio", j["beam_plasma_macro_size_ratio"])
    for s in j["particles"]:
        put("mass", s["mass"]), put("charge", s["charge"]), put("density", s["density"]), put("temperature", s["temperature"])
    for s in j["beams"]:
        b = s["bunch"]
        put("mass", s["mass"]), put("charge", s["charge"]), put("velocity", s["velocity"], 299792457.9)
        put("amount", b["amount"]), put("length", b["length"]), put("radius", b["radius"]), put("distance", b["distance"]), put("density", b["density"])
    for p in j["data"]["probes"]:
        put("schedule", p["schedule"])
        for d in ("start", "end"):
            if p["shape"] == "rec":
                put("place", p[d]["r"]), put("place", p[d]["z"])
        for d, sh in (("r", ("row", "dot")), ("z", ("col", "dot"))):
            if p["shape"] in sh:
                put("place", p[d])
    return out


def path(p):
    s = p.get("specie", "unknown") + "/" if p["component"] in ("temperature", "energy", "density", "momentum/r", "momentum/phi", "momentum/z") else ""
    a, b = p.get("start", {}), p.get("end", {})
    return p["component"] + "/" + s + {"rec": "rec/%s-%s_%s-%s" % (a.get("r"), b.get("r"), a.get("z"), b.get("z")), "col": "col/%s" % p.get("z"), "row": "row/%s" % p.get("r"), "dot": "dot/%s_%s" % (p.get("r"), p.get("z"))}.get(p["shape"], "?")


def command(c, k, w):
    d = os.path.join(c.tmp, "k%d" % k)
    os.makedirs(d)
    end = 3.5 * w["dt"]
    f = cfg.make(d + "/c.json", w["nr"], w["nz"], w["rd"], w["zd"], dt=w["dt"], end=end, macro=w["macro"], ratio=w["ratio"], species=w["sp"], beams=w["beams"], probes=w["probes"], root=d, size=w["size"], pml=[x / 8 for x in w["pml"]], sigma=w["sigma"])
    t = open(f).read()
    if w.get("cut"):
        t = t[:int(len(t) * c.rng.uniform(.1, .95))]
    if "text" in w:
        t = w["text"]
    if w.get("drop") or w.get("poke"):
        j = json.loads(t)
        if w.get("drop"):
            del j[w["drop"]]
        else:
            o = j
            for x in w["poke"][:-1]:
                o = o[x]
            o[w["poke"][-1]] = "many"
        t = json.dumps(j)
    for at, v in w.get("set", []):
        j = json.loads(t)
        o = j
        for x in at[:-1]:
            o = o[x]
        o[at[-1]] = v
        t = json.dumps(j)
    if t is None:
        os.unlink(f)
    else:
        open(f, "w").write(t)
    pr = []
    for p in w["probes"]:
        a, b = p.get("start", {}), p.get("end", {})
        dd = [a["r"], a["z"], b["r"], b["z"]] if p["shape"] == "rec" else [0, 0, p.get("r", 0), p.get("z", 0)]
        pr.append(dict(shape=p["shape"], d=dd, sch=round(p["schedule"] * 1000), path=path(p), comp=p["component"], specie=p.get("specie", "unknown")))
    # claims of the species and the beams to the macroparticles, in 1/1000 cells
    dr, dz = (w["size"][k] / max(w[n], 1) for k, n in ((0, "nr"), (1, "nz")))
    share = [1000 * w["nr"] * w["nz"]] * len(w["sp"]) + [round(1000 * b["bunch"]["radius"] / dr * b["bunch"]["length"] * b["bunch"]["amount"] / dz * w["ratio"]) for b in w["beams"]]
    q = dict(vals=values(json.loads(t)) if w["well"] else [], macro=w["macro"], share=share, file=f, dir=d, nr=w["nr"], nz=w["nz"], rd=w["rd"], zd=w["zd"], sp=[s["name"] for s in w["sp"]], beams=[b["name"] for b in w["beams"]], m1=[s["mass"] == 1 for s in w["sp"]],
             m=[s["mass"] for s in w["sp"] + w["beams"]], q=[s["charge"] for s in w["sp"] + w["beams"]], dt=w["dt"], end=end, dr=w["size"][0] / max(w["nr"], 1), dz=w["size"][1] / max(w["nz"], 1), probes=pr)
    q["start"] = next((v for at, v in w.get("set", []) if at == ("time", "start")), 0)
    q.update(lay8=[w["pml"][0], w["pml"][2], w["pml"][1]], s1=w["sigma"][0], s2=w["sigma"][1], nums=[[s["density"], s["density"], s["temperature"]] for s in w["sp"]]
             + [[b["bunch"][k] for k in ("amount", "distance", "length", "radius", "density")] + [b["velocity"], b["start_time"]] for b in w["beams"]])
    for at, v in w.get("set", []):
        o = at[-1]
        # an option made unusual, where the configuration may still be good
        if o in ("left_wall", "right_wall", "outer_wall"):
            q["lay8"] = [-1, -1, -1]
        elif o in ("sigma_1", "sigma_2"):
            q[{"sigma_1": "s1", "sigma_2": "s2"}[o]] = v
        elif at[0] == "particles" and o in ("density", "temperature"):
            q["nums"][at[1]] = [v, v, w["sp"][at[1]]["temperature"]] if o == "density" else q["nums"][at[1]][:2] + [v]
        elif at[0] == "beams":
            k = ["amount", "distance", "length", "radius", "density", "velocity", "start_time"]
            if o in k:
                q["nums"][-1][k.index(o)] = v
    if w["well"]:
        q["well"] = 1
    return q


def run(c):
    big = c.thorough
    c.design("Config", tlc.cfg("CSpec", dict(MAXN=8 if big else 4, NAMES=3, IDS=4), ["OwnId", "Tiled", "NamesApart", "NotTooStrict"]))
    R = c.rng
    cmds = []
    for rep in range(6 if big else 1):
        for what, change in mutations(R):
            w = base(R)
            change(w)
            cmds.append(command(c, len(cmds), w))
    f = os.path.join(c.tmp, "cmds")
    with open(f, "w") as o:
        o.write("\n".join(json.dumps(x) for x in cmds) + "\n")
    ev = c.drive(c.build("default", "cfgx.cpp", with_main="renamed"), [f], what="configurations")
    conf = [e for e in ev if e["e"] == "conf"]
    c.extra["configurations"] = len(conf)
    c.extra["refused"] = sum(e["out"] == "refused" for e in conf)
    for e in conf[5:40:7]:
        c.sample(lambda: dict(out=e["out"], why=e["why"], grid=[e["nr"], e["nz"], e["rd"], e["zd"]]))
    c.validate("ConfigTrace", ev, "configurations", ntraces=len(cmds), cfgtext=TCFG)
