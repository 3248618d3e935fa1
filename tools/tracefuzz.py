#!/usr/bin/env python3
"""Which recorded facts does the specification really look at?

python3 tools/tracefuzz.py <ID> [attempts [pattern]]   Runs the check of <ID>, keeps every trace it validates, and damages them one fact at a
time (a number moved, a boolean flipped, a text or a list changed).  A fact whose damage is never rejected is printed: it
is either a plain label, or a conjunct of the specification is missing or vacuous.  A tool for the author, not a check."""
import copy, importlib, json, os, random, re, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
import check, tlc

KEPT = []


def keep(orig):
    def validate(self, module, events, what, ntraces=1, cfgtext=None, env=None, **kw):
        KEPT.append((module, copy.deepcopy(events), what, cfgtext or tlc.TRACE_CFG, dict(env or {})))
        return orig(self, module, events, what, ntraces=ntraces, cfgtext=cfgtext, env=env, **kw)
    return validate


def paths(v, at=()):
    """All places of facts; positions within lists are '*'."""
    if isinstance(v, dict):
        for k, x in v.items():
            yield from paths(x, at + (k,))
    elif isinstance(v, list):
        yield at + ("#",)
        for x in v[:50]:
            yield from paths(x, at + ("*",))
    else:
        yield at


def damage(R, v, at):
    """A changed copy of v at the place, or None."""
    if not at:
        if isinstance(v, bool):
            return not v
        if isinstance(v, float):
            return v + R.choice([1, -1]) * R.choice([max(3.0, abs(v) / 3), abs(v) + 50])
        if isinstance(v, int):
            return v + R.choice([1, -1]) * R.choice([max(3, abs(v) // 3), abs(v) + 50])
        if isinstance(v, str):
            return v + "x"
        return None
    k, rest = at[0], at[1:]
    if k == "#":
        if not isinstance(v, list) or not v:
            return None
        return v[:-1] if R.random() < .5 else v + [copy.deepcopy(v[-1])]
    if k == "*":
        if not isinstance(v, list) or not v:
            return None
        i = R.randrange(len(v))
        x = damage(R, v[i], rest)
        return None if x is None else v[:i] + [x] + v[i + 1:]
    if not isinstance(v, dict) or k not in v:
        return None
    x = damage(R, v[k], rest)
    return None if x is None else dict(v, **{k: x})


def main(pid, attempts, only):
    R = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    check.Check.validate = keep(check.Check.validate)
    m = importlib.import_module(pid.lower())
    if check.main(pid, m.run, "quick", 1, getattr(m, "LEVEL", "model_checking")):
        return 1
    groups = {}
    for t in KEPT:
        groups.setdefault((t[0], t[3]), []).append(t)
    for (mod, ct), L in groups.items():
        want = {}
        for n, t in enumerate(L):
            for k, e in enumerate(t[1]):
                for p in set(paths(e)) | {("dropped",), ("repeated",)}:
                    want.setdefault((e.get("e"), p), []).append((n, k))

        def one(item):
            (et, p), places = item
            if p == ("e",):
                return None
            rr = random.Random(str(item[0]))
            tried = 0
            for _ in range(attempts * 3):
                n, k = rr.choice(places)
                if p in (("dropped",), ("repeated",)):
                    x = [] if p == ("dropped",) else [L[n][1][k]] * 2
                else:
                    x = damage(rr, L[n][1][k], p)
                    if x is None or x == L[n][1][k]:
                        continue
                    x = [x]
                tried += 1
                if tried > attempts:
                    break
                f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False)
                for j, e in enumerate(L[n][1]):
                    for y in x if j == k else [e]:
                        f.write(json.dumps(y) + "\n")
                f.close()
                try:
                    if tlc.run(mod, ct, workers=1, env=dict(L[n][4], TRACE=f.name), heap="2g").semantic:
                        return None
                except tlc.TlcError:
                    return None
                finally:
                    os.unlink(f.name)
            return et, p, tried, len(places)
        with ThreadPoolExecutor(5) as ex:
            res = [r for r in ex.map(one, [x for x in sorted(want.items(), key=str) if re.search(only, '.'.join((str(x[0][0]),) + x[0][1]))]) if r]
        print("%s %s: %d kinds of facts, %d never rejected" % (pid, mod, len(want), len(res)))
        for et, p, tried, n in res:
            print("   %s.%s  (%d tries, %d places)" % (et, ".".join(p), tried, n), flush=True)


sys.exit(main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 3, sys.argv[3] if len(sys.argv) > 3 else ""))
