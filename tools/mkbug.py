"""mkbug.py DEFS.py -- writes seeded/<id>/ from a list BUGS of
(id, property, [(file, old, new)...], demo source, needs, what_it_breaks)."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i, prop, edits, demo, needs, breaks in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) > 2 and i not in sys.argv[2:]:
        continue
    w = "/tmp/mkbug"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in edits:
        p = os.path.join(w, "jpylyzer", f)
        s = open(p, encoding="utf-8").read()
        if s.count(old) != 1:
            print(i, "old text occurs %d times in %s" % (s.count(old), f))
            sys.exit(1)
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=w)
    d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "wb").write(diff)
    shutil.copy(V + "/tools/demo_mk.py", d + "/mk.py")
    open(d + "/demo.py", "w").write("from mk import *\n\n" + demo.strip() + "\nprint('ok')\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
