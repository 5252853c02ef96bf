#!/usr/bin/env python3
"""setup_cmd: checks that the tool chain is there and that every TLA+ module parses."""
import glob, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "javac", "g++"):
    if not shutil.which(t):
        print("missing", t)
        sys.exit(1)
cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mods = sorted(glob.glob(ROOT + "/spec/*.tla"))
r = subprocess.run(["java", "-cp", cp, "tla2sany.SANY", *[os.path.basename(m) for m in mods]], cwd=ROOT + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
o = r.stdout.decode()
if "Fatal errors" in o or "*** Errors" in o or "Could not parse" in o:
    print(o[-3000:])
    sys.exit(1)
print("setup ok:", len(mods), "modules")
