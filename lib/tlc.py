"""Run TLC on a specification, with constants and trace files chosen by the caller."""
import os, re, subprocess, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.rejected = None
        m = re.search(r'<<\s*"REJECTED_AT",\s*(\d+)', out)
        if m:
            self.rejected = int(m.group(1))
        m = re.search(r"Error: Invariant (\S+) is violated", out)
        self.invariant = m.group(1) if m else None
        self.property = bool(re.search(r"Error: (Action property|Temporal properties)", out))
        self.deadlock = "Error: Deadlock reached" in out
        self.assumption = "Assumption" in out and "is false" in out
        m = re.search(r'"VIOLATED",\s*([^\n]*)', out)
        self.note = m.group(1).strip() if m else None
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out or \
            (rc == 0 and "The number of states generated" in out)
        self.semantic = bool(self.rejected is not None or self.invariant or self.property or self.deadlock or self.assumption)


def run(module, cfg, workers=4, timeout=800, env=None, args=(), dfs=False, heap="4g", keep=None):
    """cfg: text of the configuration.  -> Result; TlcError when TLC itself failed."""
    tmp = tempfile.mkdtemp(prefix="vp-tlc-")
    try:
        cp = os.path.join(tmp, module + ".cfg")
        with open(cp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        jv = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + tmp]
        if dfs:
            jv.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd = jv + ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(tmp, "md"), "-workers", str(workers),
                    "-config", cp] + list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TlcError("TLC timed out on %s" % module)
        r = Result(p.returncode, p.stdout)
        if keep:
            with open(keep, "w") as f:
                f.write(p.stdout)
        if not r.ok and not r.semantic:
            # values the specification cannot represent (numbers beyond 32 bits, missing frames, ...)
            x = re.search(r"(Overflow when computing[^\n]*|Attempted to [^\n]*|[^\n]* is not in the domain[^\n]*)", p.stdout)
            if x and r.distinct:
                r.beyond = x.group(1)[:200]
                m = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
                r.rejected, r.semantic, r.note = int(m.group(1)) if m else None, True, "not representable: " + r.beyond
                return r
            raise TlcError("TLC failed on %s:\n%s" % (module, "\n".join(x for x in p.stdout.split("\n") if x.startswith("Error"))[:1500] + p.stdout[-2500:]))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cfg(spec="Spec", constants=None, invariants=(), properties=(), postcondition=None, deadlock=False, constraint=None, view=None,
        init=None, next_=None, symmetry=None, action_constraint=None):
    s = []
    if init:
        s += ["INIT " + init, "NEXT " + next_]
    elif spec:
        s.append("SPECIFICATION " + spec)
    for k, v in (constants or {}).items():
        s.append("CONSTANT %s %s" % (k, v if str(v).startswith("<-") else "= " + str(v)))
    for i in invariants:
        s.append("INVARIANT " + i)
    for i in properties:
        s.append("PROPERTY " + i)
    if postcondition:
        s.append("POSTCONDITION " + postcondition)
    if constraint:
        s.append("CONSTRAINT " + constraint)
    if action_constraint:
        s.append("ACTION_CONSTRAINT " + action_constraint)
    if view:
        s.append("VIEW " + view)
    if symmetry:
        s.append("SYMMETRY " + symmetry)
    s.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(s) + "\n"


TRACE_CFG = cfg("TraceSpec", postcondition="TraceAccepted")
