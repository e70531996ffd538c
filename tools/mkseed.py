#!/usr/bin/env python3
"""mkseed.py <id> <property> <spec.json>: spec = {file, edits:[[old,new]...], demo (C++ text), srcs:[...], needs, breaks}
Applies the edit to /repo, builds, runs the stable tests, runs the demonstration with and without, stores seeded/<id>/, undoes the edit."""
import json, os, subprocess, sys
sid, spec = sys.argv[1], json.load(open(sys.argv[2]))
V = "/verif/seeded/" + sid
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


assert sh("git -C /repo status --porcelain").stdout == ""
os.makedirs(V, exist_ok=True)
open(V + "/demo.cpp", "w").write(spec["demo"])
open(V + "/demo.sh", "w").write("""#!/bin/bash
# cwd: the repository, built
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
clang++-18 -std=gnu++20 -O2 -maes -mpclmul -w %s -include cstring -include algorithm -include memory -include stdexcept -include array -include vector -include string -I include "$D/demo.cpp" %s -o "$T/demo" || exit 3
cd "$T" && timeout 280 ./demo
""" % (spec.get("flags", ""), " ".join(spec["srcs"])))
os.chmod(V + "/demo.sh", 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(V + "/meta.json", "w"), indent=1)
ok = True
try:
    d = sh("bash %s/demo.sh" % V, cwd=R)
    print("clean demo", d.returncode, (d.stdout + d.stderr)[-500:])
    ok &= d.returncode == 0
    for f, a, b in spec["edits"]:
        s = open(R + "/" + f).read()
        assert s.count(a) >= 1, (f, a)
        if s.count(a) > 1:
            print("edit text occurs", s.count(a), "times; first replaced")
        open(R + "/" + f, "w").write(s.replace(a, b, 1))
    open(V + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    b = sh("bash /opt/vp/build.sh")
    print("build", b.returncode, b.stdout[-800:] if b.returncode else "")
    ok &= b.returncode == 0
    t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = json.load(open("/tmp/seed_out.json"))
    miss = base - set(out["passed"])
    print("tests missing:", sorted(miss)[:5], "of", len(base))
    ok &= not miss and len(base) > 0
    d = sh("bash %s/demo.sh" % V, cwd=R)
    print("patched demo", d.returncode, (d.stdout + d.stderr)[-500:])
    ok &= d.returncode not in (0, 3)
    if ok and "--check" in sys.argv:
        c = sh("python3-vt check.py " + spec["property"], cwd="/verif")
        print("CHECK rc", c.returncode, "\n".join(c.stdout.splitlines()[-6:])[:1800])
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
print("KEEP" if ok else "REJECT")
if not ok:
    sh("rm -rf /verif/seeded/" + sid)
