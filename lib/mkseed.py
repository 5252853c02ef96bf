#!/usr/bin/env python3
"""Development helper (not used by any check): mkseed.py <seed id> <property> <file under library/> — reads a JSON
{old,new,needs,breaks,demo} from stdin (old/new may be lists, files too), makes /verif/seeded/<id>, and confirms it: builds, stable tests pass,
demo passes without and fails with the change, then runs the property's check against it."""
import json, os, subprocess, sys, tempfile
sid, prop = sys.argv[1], sys.argv[2]
j = json.load(sys.stdin)
R = "/repo"
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "repo dirty"
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
open(d + "/demo.cpp", "w").write(j["demo"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository. Exit 0 iff the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++-10 -std=gnu++17 -O1 -w -I . -o "$t/demo" "$here/demo.cpp" || exit 3
timeout 120 "$t/demo"
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def demo():
    return subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True, text=True)
ok = True
try:
    r = demo()
    print("demo clean:", r.returncode, r.stdout[-300:], r.stderr[-600:])
    ok &= r.returncode == 0
    for ed in j["edits"]:
        p = R + "/library/" + ed["file"]
        s = open(p).read()
        assert s.count(ed["old"]) == 1, (ed["file"], s.count(ed["old"]))
        open(p, "w").write(s.replace(ed["old"], ed["new"]))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    r = demo()
    print("demo patched:", r.returncode, r.stdout[-300:], r.stderr[-300:])
    ok &= r.returncode not in (0, 3)
    t = tempfile.mkdtemp()
    if not os.environ.get("NOBUILD"):
        b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        print("build rc", b.returncode)
        subprocess.run(["bash", "/opt/vp/test.sh", t + "/o.json"], capture_output=True, text=True)
        o = json.load(open(t + "/o.json"))
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(o.get("passed", []))
        bad = [x for x in st if x not in passed]
        print("stable failing:", bad)
        ok &= not bad
    c = subprocess.run(["python3", "/verif/run.py", prop, "quick"], capture_output=True, text=True)
    print("check rc", c.returncode, c.stdout[-700:])
    print("CAUGHT" if c.returncode == 1 else "*** MISSED")
finally:
    subprocess.run(["git", "-C", R, "checkout", "--", "."])
    subprocess.run(["rm", "-rf", t]) if "t" in dir() else None
print("SEED", sid, "VALID" if ok else "*** INVALID")
