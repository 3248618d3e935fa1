#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY NEEDS BREAKS [variant] < demo.cpp/py text already in seeded/ID/demo.cpp
Takes the patch from the scratch tree /tmp/seed (git diff), lays the kit beside the demo, and
confirms: builds, repository tests pass, demo 0 on /repo and nonzero with the patch."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seed"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def kit(d):
    k = os.path.join(d, "kit")
    shutil.rmtree(k, ignore_errors=True)
    shutil.copytree(os.path.join(V, "harness/stubs"), os.path.join(k, "harness/stubs"))
    os.makedirs(os.path.join(k, "lib"))
    for f in ("build.py", "cfg.py"):
        shutil.copy(os.path.join(V, "lib", f), os.path.join(k, "lib", f))
    shutil.copy(os.path.join(V, "harness/drv.hpp"), os.path.join(k, "harness/drv.hpp"))
    if os.path.exists(os.path.join(d, "demo.cpp")):
        shutil.move(os.path.join(d, "demo.cpp"), os.path.join(k, "harness/demo.cpp"))


DEMO = """#!/bin/bash
# demonstration: builds the sources under $PWD with the stand-ins in kit/, runs demo.py
here=$(cd "$(dirname "$0")" && pwd)
export VP_REPO=$PWD VP_BUILD=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1
trap 'rm -rf "$VP_BUILD"' EXIT
cd "$VP_BUILD" && python3 "$here/demo.py" "$here/kit"
"""

if __name__ == "__main__":
    sid, prop, needs, breaks = sys.argv[1:5]
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    with open(d + "/patch.diff", "w") as f:
        f.write(sh("git -C %s diff" % SCR).stdout)
    if os.path.exists(d + "/kit/harness/demo.cpp") and not os.path.exists(d + "/demo.cpp"):
        shutil.copy(d + "/kit/harness/demo.cpp", d + "/demo.cpp")
    if os.path.exists(d + "/demo.cpp") or not os.path.exists(d + "/nokit"):
        kit(d)
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd="/repo")
    b = sh("bash %s/demo.sh" % d, cwd=SCR)
    print("unchanged:", a.returncode, a.stdout[-600:] if a.returncode else "")
    print("patched:  ", b.returncode, b.stdout[-600:])
    print("patch lines:", len(open(d + "/patch.diff").read().splitlines()))
