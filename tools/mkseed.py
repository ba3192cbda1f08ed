#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source using nx)."""
import json, os, shutil, subprocess, sys, tempfile
g = {}
exec(open(sys.argv[1]).read(), g)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = f"{here}/seeded/{g['ID']}"
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkseed-")
subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
for f, a, b in g["EDITS"]:
    p = f"{t}/r/{f}"
    s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
diff = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode()
open(d + "/patch.diff", "w").write(diff)
shutil.rmtree(t)
if "DEMO_MJS" in g:
    shutil.copy(here + "/tools/seedlib/sdk.mjs", d + "/sdk.mjs")
    open(d + "/demo.mjs", "w").write("import { loadSdk, fakeServer, connect, outcome, check, done, sleep, enc, frame } from './sdk.mjs';\n" + g["DEMO_MJS"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print(diff)
    sys.exit(0)
shutil.copy(here + "/tools/seedlib/nx.py", d + "/nx.py")
open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom nx import *\n" + g["DEMO"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print(diff)
