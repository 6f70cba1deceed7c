"""Runs the inputs of the known findings (known_findings.json) and reports those that
still fail.  Each finding is one fixed input; anything else is a violation."""
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile

import engine

LIST = os.path.join(engine.VERIF, "known_findings.json")
BALLOON = os.path.join(engine.REPO, "example_files", "balloon.jp2")


def box(t, content):
    return struct.pack(">I", len(content) + 8) + t + content


SIG = box(b"jP  ", b"\r\n\x87\n")
FTYP = box(b"ftyp", b"jp2 \0\0\0\0jp2 ")


def nested_superboxes():
    n = 5000
    inner = b"".join(struct.pack(">I", 8 * (n - i)) + b"jp2h" for i in range(n))
    return SIG + FTYP + inner


def codestream(extra=b""):
    seg = lambda m, d: struct.pack(">HH", m, len(d) + 2) + d
    siz = struct.pack(">HIIIIIIIIH", 0, 8, 8, 0, 0, 8, 8, 0, 0, 1) + b"\x07\x01\x01"
    cod = b"\0\0\0\1\0" + b"\0\4\4\0\1"
    qcd = b"\x40\x48"
    return b"\xff\x4f" + seg(0xFF51, siz) + seg(0xFF52, cod) + seg(0xFF5C, qcd) + extra + \
        struct.pack(">HHHIBB", 0xFF90, 10, 0, 15, 0, 1) + b"\xff\x93\0\xff\xd9"


def container(cs, extra=b""):
    ihdr = box(b"ihdr", struct.pack(">IIHBBBB", 8, 8, 1, 7, 7, 0, 0))
    colr = box(b"colr", b"\1\0\0" + struct.pack(">I", 17))
    return SIG + FTYP + box(b"jp2h", ihdr + colr) + extra + box(b"jp2c", cs)


def nested_xml():
    n = 3000
    return container(codestream(), box(b"xml ", b"<a>" * n + b"</a>" * n))


def plm_groups():
    d = bytes([0, 1, 5, 1, 7])
    return codestream(struct.pack(">HH", 0xFF57, len(d) + 2) + d)


DRIVER = '''
import sys
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
from jpylyzer.jpylyzer import checkOneFile
r = checkOneFile(sys.argv[1], sys.argv[2], True, True, False, 0)
print("success", r.findtext("statusInfo/success"))
for e in r.iter("plm"):
    print("plm", [x.text for x in e.iter() if len(x) == 0])
'''


def lib(path, fmt):
    q = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", DRIVER % engine.REPO, path, fmt],
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
    return q.returncode, q.stdout.decode("utf-8", "replace")


def app(path):
    env = dict(os.environ, PYTHONPATH=engine.REPO, PYTHONDONTWRITEBYTECODE="1")
    q = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "jpylyzer", path], env=env,
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
    return q.returncode, q.stdout


def fails(ident, d):
    p = os.path.join(d, "known.jp2")
    data = {"nested-superboxes": nested_superboxes, "nested-xml": nested_xml, "plm-groups": plm_groups}[ident]()
    with open(p, "wb") as f:
        f.write(data)
    if ident == "nested-superboxes":
        rc, out = lib(p, "jp2")
        return rc != 0 or "success True" not in out
    if ident == "nested-xml":
        rc, out = app(p)
        return rc != 0 or not out.rstrip().endswith(b"</jpylyzer>")
    rc, out = lib(p, "j2c")
    return rc != 0 or "05,01,07" in out


def check(prop):
    out = []
    for k in json.load(open(LIST))["known"]:
        if k["property"] != prop:
            continue
        d = tempfile.mkdtemp(prefix="verif-known-")
        try:
            if fails(k["id"], d):
                out.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
            else:
                out.append("note: known finding %s of %s does not fail (any more)" % (k["id"], prop))
        except subprocess.TimeoutExpired:
            out.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out
