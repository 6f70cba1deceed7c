#!/usr/bin/env python3
"""Undo each repair in a scratch clone and see whether its property's check reports it again."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for e in json.load(open(HERE + "/known_findings.json"))["fixed"]:
    s = e if isinstance(e, str) else json.dumps(e)
    prop = re.search(r"property=(C\d\d)", s).group(1)
    com = re.search(r"\b([0-9a-f]{7,40})\b", s.split(prop, 1)[1]).group(1)
    if want and com not in want and prop not in want:
        continue
    d = tempfile.mkdtemp(prefix="refix-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        p = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", com],
                           cwd=d + "/r", capture_output=True, text=True)
        if p.returncode:
            print(prop, com, "revert conflicts", flush=True)
            continue
        q = subprocess.run([sys.executable, HERE + "/check.py", prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d + "/r"))
        l = [x for x in q.stdout.splitlines() if "VIOLATION" not in x and x.strip()]
        print(prop, com, "rc=%d" % q.returncode, (l or [""])[0][:160], "|", s[-80:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
