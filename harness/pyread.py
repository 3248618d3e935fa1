"""Asks the reader library of the tree under test; prints what it answers, one JSON object a line.
   pyread.py LIBDIR COMMANDS        run under a python with numpy; h5py is the stand-in beside."""
import json, math, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "pystubs"), sys.argv[1]]
out = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)          # what the library itself prints
import numpy as np
TAG = 5.0 / 2 ** 22         # a part of the value only doubles keep


def say(**k):
    out.write(json.dumps(k) + "\n")


def decode(a):
    return [int(math.floor(x)) if x == math.floor(x) + TAG else -1 for x in np.asarray(a, dtype="float64").ravel().tolist()]


def ask(rd, q):
    s, c, a, b, pos = q["op"], q["component"], q["a"], q["b"], q.get("pos")
    f = getattr(rd, s)
    rng = s.endswith("_range")
    if rng:
        tail = [] if q["how"] == "default" else [a] if b == -1 else [a, b]
    else:
        tail = [a]
    rect = q.get("rect")
    if "_rec" in s:
        r = f(c, *pos, rect, *tail)
    elif s.startswith("rec"):
        r = f(c, rect, *tail)
    else:
        r = f(c, *pos, *tail)
    return r


def strs(x):
    return x if isinstance(x, str) else "none" if x is None else float(x).hex()


def describe(m):
    return [["geometry size"] + [strs(x) for x in m.geometry_size], ["grid"] + [strs(x) for x in m.geometry_grid],
            ["domains"] + [strs(x) for x in m.geometry_domains], ["pml"] + [strs(x) for x in m.geometry_pml],
            ["time"] + [strs(x) for x in m.time], ["data", m.data_path, strs(m.use_compression), strs(m.compression_level)],
            ["figure", m.figure_color, strs(m.figure_width), strs(m.figure_height), strs(m.figure_dpi), m.figure_font_family,
             strs(m.figure_font_size), m.figure_font_name],
            ["plot", m.plot_cmap, strs(m.plot_ticks_x), strs(m.plot_ticks_y), strs(m.plot_ticks_z), strs(m.plot_cbar)],
            ["video", m.video_codec, strs(m.video_fps), strs(m.video_bitrate)]] \
        + [["specie", s.name] + [strs(x) for x in [s.charge, s.mass, s.density[0], s.density[1], s.temperature]] for s in m.species] \
        + [["beam", s.name] + [strs(x) for x in [s.charge, s.mass, s.velocity, s.start_time, s.bunch_density, s.bunch_amount, s.bunch_length,
                                                 s.bunch_radius, s.bunches_distance]] for s in m.beams] \
        + [["probe", p.shape, p.component, strs(p.schedule), strs(p.specie)] + [strs(x) for x in p.size[:{"rec": 4, "dot": 2}.get(p.shape, 2)]] for p in m.probes]


def err(f, *a, **k):
    try:
        return f(*a, **k), ""
    except Exception as x:
        return None, (type(x).__name__ + ": " + str(x)) or "error"


def files(dirs):
    r = set()
    for d in dirs:
        for p, ds, fs in os.walk(d):
            r |= {os.path.join(p, x) for x in ds + fs}
    return r


watch = json.load(open(sys.argv[2]))["watch"]
before = files(watch) | {x for x in os.listdir("/tmp") if x == "tinycache"}
from picopic.h5_reader import H5Reader
from picopic.tinycache import TinyCache
from picopic.meta_reader import MetaReader


def session(c):
    def body(rd):
        m = rd.meta
        for q in c["asks"]:
            r, e = err(ask, rd, q)
            d = []
            if not e:
                r = np.asarray(r)
                d = list(r.shape)
                if q["op"] in ("dot", "dot_rec") and r.size == 1:
                    d = []
            say(e="read", op=q["op"], probe=q["probe"], part=q["part"], range=q["op"].endswith("_range"), a=q["a"], b=q["b"], r=q["r"], z=q["z"],
                err=e, dims=d, v=decode(r) if not e else [])
        dt = m.time[2]
        for i, p in enumerate(m.probes):
            if c["timed"]:
                fs = list(range(0, 200)) + [10 ** 3, 10 ** 4 + 7, 10 ** 6 - 1]
                ts = [m.get_timestamp_by_frame_number(f, p.schedule) for f in fs]
                near = [(f, f + x) for f in fs for x in (-.4, .3) if f + x >= 0]
                say(e="time", probe=i + 1, f=fs, back=[int(m.get_frame_number_by_timestamp(t, p.schedule)) for t in ts],
                    step=[int(round(t / dt)) if abs(t / dt - round(t / dt)) < 1e-6 else -1 for t in ts],
                    nf=[x[0] for x in near], near=[int(m.get_frame_number_by_timestamp(x[1] * p.schedule * dt, p.schedule)) for x in near])
        nr, nz = c["nr"], c["nz"]
        R = [m.get_radius_by_row(i) for i in range(nr + 1)]
        Z = [m.get_longitude_by_col(i) for i in range(nz + 1)]
        q = 8
        away = (-.45, -.2, .3, .45)
        size = m.geometry_size
        say(e="place", q=q, nrow=[[int(m.get_row_by_radius((i + x) * size[0] / nr)) for x in away if i + x >= 0] for i in range(nr + 1)],
            ncol=[[int(m.get_col_by_longitude((i + x) * size[1] / nz)) for x in away if i + x >= 0] for i in range(nz + 1)], row=[m.get_row_by_radius(x) for x in R], col=[m.get_col_by_longitude(x) for x in Z],
            r=[int(round(x / c["dr"] * q)) if abs(x / c["dr"] * q - round(x / c["dr"] * q)) < 1e-6 else -1 for x in R],
            z=[int(round(x / c["dz"] * q)) if abs(x / c["dz"] * q - round(x / c["dz"] * q)) < 1e-6 else -1 for x in Z])
        say(e="meta", got=describe(m), want=c["want"])
        if c.get("config"):
            got, e = err(lambda: describe(MetaReader(c["config"])))
            say(e="meta", got=e or got, want=c["want2"])

    kw = dict(c.get("kw", {}))
    o = dict(e="open", steps=c["steps"], nr=c["nr"], nz=c["nz"], rd=c["rd"], zd=c["zd"], probes=c["probes"])
    if c["way"] == "with":
        def w():
            with H5Reader(c["path"], **kw) as rd:
                o["err"] = ""
                say(**o)
                body(rd)
        r, e = err(w)
        if e:
            o["err"] = e
            say(**o)
    else:
        rd, e = err(H5Reader, c["path"], **kw)
        o["err"] = e
        say(**o)
        if not e:
            body(rd)
            del rd


def cache(c):
    t = TinyCache(c["path"])
    kept = {}

    def look(t, k):
        g, e = err(t.get_cache, k)
        w = kept.get(k)
        say(e="cache", what="get " + k, got=[("in" if k in t else "out"), e] + ([] if e else [float(x).hex() for x in np.asarray(g).ravel()]),
            want=[("in" if w is not None else "out"), ""] + [float(x).hex() for x in np.asarray(w if w is not None else []).ravel()])
    for op in c["ops"]:
        if op[0] == "new":
            t = TinyCache(c["path"])
        elif op[0] == "put":
            v = [float.fromhex(x) for x in op[2]]
            v = np.array(v).reshape(op[3]) if op[3] else v
            _, e = err(t.update_cache, op[1], v)
            if e:
                say(e="cache", what="put", got=[e], want=[""])
            kept[op[1]] = v
        else:
            look(t, op[1])


for c in json.load(open(sys.argv[2]))["cmds"]:
    {"session": session, "cache": cache}[c["do"]](c)
after = files(watch) | {x for x in os.listdir("/tmp") if x == "tinycache"}
say(e="made", files=sorted(after - before)[:5])
out.flush()
os._exit(0)
