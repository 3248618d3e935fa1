"""Build the code under test, from /repo's working tree, against the harness stand-ins.

Everything under src/ (except the program entry point) and include/ is taken as it is
found: new or renamed files are picked up by the glob.  Objects are cached by content in
/verif/.build (git-ignored); a changed source or header always gives a new object.
"""
import concurrent.futures as cf, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD") or os.path.join(VERIF, ".build")
STUBS = os.path.join(VERIF, "harness", "stubs")
MAIN = "PiCoPiC.cpp"

BASE = {
    "CXXFLAGS": '"-vp"', "PACKAGE_NAME": '"PiCoPiC"', "PACKAGE_VERSION": '"vp"',
    "PACKAGE_STRING": '"PiCoPiC vp"', "PACKAGE_TARNAME": '"picopic"', "PACKAGE_URL": '""',
    "PACKAGE_BUGREPORT": '"none"', "PACKAGE_DEPS": '"none"', "REL_LIMIT": "5e7",
    "ENABLE_HDF5": "true", "ENABLE_PML": "true", "SWITCH_CCS_VB": "true",
    "SWITCH_MAXWELL_SOLVER_YEE": "true", "SWITCH_PLASMA_SPATIAL_FLAT": "true",
    "SWITCH_PLASMA_VELOCITY_THERMAL": "true", "SWITCH_PUSHER_BORIS_ADAPTIVE": "true",
}
# variant -> (removed defines, added defines)
VARIANTS = {
    "default": ([], {}),
    "nopml": (["ENABLE_PML"], {}),
    "mpi": ([], {"ENABLE_MPI": "true"}),
    "mpizz": (["SWITCH_CCS_VB"], {"ENABLE_MPI": "true", "SWITCH_CCS_ZIGZAG": "true"}),
    "mpinopml": (["ENABLE_PML"], {"ENABLE_MPI": "true"}),
    "zigzag": (["SWITCH_CCS_VB"], {"SWITCH_CCS_ZIGZAG": "true"}),
    "regular": (["SWITCH_PLASMA_SPATIAL_FLAT"], {"SWITCH_PLASMA_SPATIAL_REGULAR": "true"}),
    "centered": (["SWITCH_PLASMA_SPATIAL_FLAT"], {"SWITCH_PLASMA_SPATIAL_CENTERED": "true"}),
    "random": (["SWITCH_PLASMA_SPATIAL_FLAT"], {"SWITCH_PLASMA_SPATIAL_RANDOM": "true"}),
    "eigen": (["SWITCH_PLASMA_VELOCITY_THERMAL"], {"SWITCH_PLASMA_VELOCITY_EIGEN": "true"}),
    "rectvel": (["SWITCH_PLASMA_VELOCITY_THERMAL"], {"SWITCH_PLASMA_VELOCITY_RECTANGULAR": "true"}),
    "boris": (["SWITCH_PUSHER_BORIS_ADAPTIVE"], {"SWITCH_PUSHER_BORIS": "true"}),
    "borisrel": (["SWITCH_PUSHER_BORIS_ADAPTIVE"], {"SWITCH_PUSHER_BORIS_RELATIVISTIC": "true"}),
    "vay": (["SWITCH_PUSHER_BORIS_ADAPTIVE"], {"SWITCH_PUSHER_VAY": "true"}),
    "hc": (["SWITCH_PUSHER_BORIS_ADAPTIVE"], {"SWITCH_PUSHER_HC": "true"}),
    "ta77s": ([], {"ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_TA77S": "true"}),
    "sk98": ([], {"ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_SK98": "true"}),
    "p12": ([], {"ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_P12": "true"}),
    "single": ([], {"ENABLE_SINGLETHREAD": "true"}),
    "ext": ([], {"ENABLE_EXTERNAL_FIELDS": "true"}),
}
FLAGS = ["-std=c++17", "-O1", "-w", "-fno-access-control", "-fopenmp", "-ffp-contract=off", "-pthread"]

# what configure makes by default (without --enable-ieee), on any machine
PROD = ["-O3", "-ffast-math", "-funroll-loops", "-freciprocal-math", "-mavx"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _tree(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])


def _compile(job):
    cmd, obj = job
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    _run(cmd + ["-o", tmp])
    os.replace(tmp, obj)


def build(variant, driver, extra_flags=(), with_main=False, extra_src=(), skip=(), link=(), defines=None):
    """-> path of an executable: all of src/ (variant's defines) + driver (+ stand-ins)."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    rem, add = VARIANTS[variant]
    defs = {k: v for k, v in BASE.items() if k not in rem}
    defs.update(add)
    defs.update(defines or {})
    dtext = "".join("#define %s %s\n" % kv for kv in sorted(defs.items()))
    incs = _tree(os.path.join(REPO, "include"), (".hpp", ".h", ".tpp", ".ipp", ".inl"))
    incs = [i for i in incs if os.path.basename(i) != "defines.hpp"]
    stub_h = _tree(STUBS, (".hpp", ".h"))
    srcs = _tree(os.path.join(REPO, "src"), (".cpp", ".hpp", ".h", ".inl"))
    ih = _sha(dtext, *[x for i in incs + stub_h + [s for s in srcs if not s.endswith(".cpp")]
                       for x in (os.path.relpath(i, REPO), _read(i))])
    flags = FLAGS + list(extra_flags)
    idir = os.path.join(BUILD, "inc-" + ih)
    if not os.path.isdir(idir):
        tmp = idir + ".%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        for i in incs:
            d = os.path.join(tmp, os.path.relpath(i, os.path.join(REPO, "include")))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(i, d)
        for s in srcs:
            if not s.endswith(".cpp"):
                d = os.path.join(tmp, "_src", os.path.relpath(s, os.path.join(REPO, "src")))
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(s, d)
        with open(os.path.join(tmp, "defines.hpp"), "w") as f:
            f.write(dtext)
        try:
            os.rename(tmp, idir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    # collision schemes are mutually exclusive translation units guarded by include
    # only inside domain.hpp; the unused ones are skipped
    inc = ["-I" + idir, "-I" + os.path.join(idir, "_src"), "-I" + STUBS]
    jobs, objs = [], []

    def add_obj(path, fl):
        key = _sha(ih, path if path.startswith(VERIF) else os.path.relpath(path, REPO), _read(path), *fl)
        o = os.path.join(BUILD, "obj", os.path.basename(path).replace(".cpp", "") + "-" + key + ".o")
        src = path
        if not path.startswith(VERIF):
            # compile a copy, so that the include directory is the only source of headers
            src = os.path.join(BUILD, "src", _sha(_read(path)), os.path.basename(path))
            os.makedirs(os.path.dirname(src), exist_ok=True)
            if not os.path.exists(src):
                t = src + ".%d" % os.getpid()
                shutil.copyfile(path, t)
                os.replace(t, src)
        jobs.append((["g++"] + fl + inc + ["-c", src], o))
        objs.append(o)

    for s in srcs:
        if not s.endswith(".cpp"):
            continue
        b = os.path.basename(s)
        fl = list(flags) + (PROD if os.environ.get("VP_PROD") else [])
        if b == MAIN:
            if not with_main:
                continue
            if with_main == "renamed":
                fl = fl + ["-Dmain=picopic_main"]
        if b in skip:
            continue
        if b.startswith("collisions") and b != "collisions.cpp":
            on = {"TA77S": "SWITCH_COULOMB_COLLISIONS_TA77S", "SK98": "SWITCH_COULOMB_COLLISIONS_SK98",
                  "P12": "SWITCH_COULOMB_COLLISIONS_P12"}.get(b[len("collisions"):-4])
            if on and on not in defs:
                continue
        if b == "collisions.cpp" and "ENABLE_COULOMB_COLLISIONS" not in defs:
            continue
        if b == "externalFields.cpp" and "ENABLE_EXTERNAL_FIELDS" not in defs:
            continue
        add_obj(s, fl)
    plain = [f for f in flags if not f.startswith("-fsanitize=thread")]
    for s in ("support.cpp", "gomp.cpp"):
        add_obj(os.path.join(STUBS, "impl", s), plain)
    for s in extra_src:
        add_obj(os.path.join(VERIF, "harness", s), plain)
    if driver:
        add_obj(os.path.join(VERIF, "harness", driver), plain)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(_compile, jobs))
    lflags = [f for f in flags if f not in ("-fopenmp", "-fsanitize=thread")]
    exe = os.path.join(BUILD, "bin", (driver or "main").replace(".cpp", "") + "-" + variant + "-" + _sha(*objs, *lflags, *link))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        _run(["g++"] + lflags + objs + ["-o", tmp] + list(link))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None, with_main=len(sys.argv) <= 2))
