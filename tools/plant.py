"""plant.py ID... : confirms planted bugs in a scratch copy (builds, tests, demo both ways) and
runs the property's check (--check, or --check=C01,C02) against the changed copy."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main():
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        d = V + "/seeded/" + i
        w = "/tmp/plant-" + i
        shutil.rmtree(w, ignore_errors=True)
        demo = "/tmp/plantdemo-" + i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo)
        sh("git clone -q /repo " + w, "/tmp")
        meta = json.load(open(d + "/meta.json"))
        out = [i, meta["property"]]
        a = sh("bash %s/demo.sh" % demo, w, timeout=300)
        out.append("demo clean ok" if a.returncode == 0 else "DEMO FAILS CLEAN %s %s" % (a.stdout[-300:], a.stderr[-300:]))
        p = sh("git apply %s/patch.diff" % d, w)
        if p.returncode:
            out.append("PATCH DOES NOT APPLY " + p.stderr)
        b = sh("bash %s/demo.sh" % demo, w, timeout=300)
        out.append("demo detects" if b.returncode else "DEMO DOES NOT DETECT")
        t = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider 2>&1 | tail -3", w)
        out.append(t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?")
        for f in flags:
            if f.startswith("--check"):
                props = f.split("=")[1].split(",") if "=" in f else [meta["property"]]
                for q in props:
                    c = sh("python3 check.py " + q, V, env=dict(os.environ, VERIF_REPO=w))
                    lines = c.stdout.splitlines()
                    m = [k for k, l in enumerate(lines) if l.startswith("VIOLATION")]
                    out.append("%s rc=%d %s" % (q, c.returncode, lines[m[0] + 1].strip()[:150] if m else lines[-1:]))
        print(" | ".join(out), flush=True)
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)


main()
