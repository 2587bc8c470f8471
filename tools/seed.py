#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and keeps it as seeded/<id>/.
usage: seed.py SPEC.py     SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (C++), LIBS (optional), EXTRA
Not used by any check."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns["ID"]
W = f"/tmp/seed_{ID}"
shutil.rmtree(W, ignore_errors=True)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f"cp -a /repo {W}")
for f, old, new in ns["EDITS"]:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) >= 1, ("not found", old)
    n = ns.get("NTH", {}).get(old)
    if n is None:
        assert s.count(old) == 1, ("ambiguous", s.count(old), old)
        s = s.replace(old, new)
    else:
        parts = s.split(old)
        s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    open(p, "w").write(s)
diff = sh(f"git -C {W} diff").stdout
d = os.path.join(VERIF, "seeded", ID)
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.cpp", "w").write(ns["DEMO"])
FL = "-std=gnu++14 -O1 -w -fno-rtti -fno-exceptions -DTESTS_ENABLED -DNO_SAFE_CAST -DUSING_SFW -DDEBUG_ENABLED -DNDEBUG -DX11_ENABLED -DUNIX_ENABLED -Iplatform/x11 -Iplatform -I."
SRC = ns.get("SRC", "platform/sfw.cpp")
RUN = ns.get("RUN", 'cd "$T" && timeout 120 ./demo')
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ {FL} "$D/demo.cpp" {SRC} -o "$T/demo" -lpthread || exit 2
{RUN}
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
ok = sh(f"bash {d}/demo.sh", cwd="/repo")
print("clean:", ok.returncode, ok.stdout[-300:], ok.stderr[-500:])
bad = sh(f"bash {d}/demo.sh", cwd=W)
print("patched:", bad.returncode, bad.stdout[-300:], bad.stderr[-300:])
if ok.returncode or not bad.returncode or bad.returncode == 2:
    print("DEMO WRONG")
    shutil.rmtree(W)
    sys.exit(1)
if "--notest" not in sys.argv:
    # build and test the patched tree in place of /repo, as the scripts have the path built in
    sys.stdout.flush()
    assert not sh("git -C /repo status --porcelain").stdout
    assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
    try:
        r = sh("bash /opt/vp/build.sh")
        print("build", r.returncode, r.stderr[-500:])
        r2 = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        import json as J
        base = J.load(open("/opt/vp/BASELINE.json")); out = J.load(open("/tmp/seed_out.json"))
        def passed(x):
            x = x.get("stable", x.get("passed")) if isinstance(x, dict) else x
            return set(x)
        miss = passed(base) - passed(out)
        print("tests missing:", sorted(miss)[:5])
        good = r.returncode == 0 and not miss
    finally:
        sh("git -C /repo checkout -- .")
    if not good:
        print("NOT KEPT")
        shutil.rmtree(d)
        shutil.rmtree(W)
        sys.exit(1)
    for cid in [ns["PROP"]] + ns.get("ALSO", []):
        e = dict(os.environ, SIM_REPO=W)
        b = subprocess.run(["python3", VERIF + "/tools/build.py"], env=e, capture_output=True, text=True)
        exe = b.stdout.strip().splitlines()[-1] if b.returncode == 0 else None
        if not exe:
            print("sim build failed", b.stderr[-800:])
            continue
        os.makedirs("/tmp/seed_r", exist_ok=True)
        r = sh(f"{exe} --prop {cid} --seed 1 --budget 14 --workers 8 --out /tmp/seed_e.json --replay-dir /tmp/seed_r")
        print(cid, "rc", r.returncode, "|", (r.stdout.strip().splitlines() or [""])[-3:])
shutil.rmtree(W)
