"""Builds small images for the demonstrations (copied next to each demo)."""
import os
import shutil
import struct
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True


def box(t, content, xl=False):
    if xl:
        return struct.pack(">I", 1) + t + struct.pack(">Q", len(content) + 16) + content
    return struct.pack(">I", len(content) + 8) + t + content


def seg(marker, d):
    return struct.pack(">HH", marker, len(d) + 2) + d


def siz(w=8, h=8, ncomp=1, depth=7, tw=None, th=None, xo=0, yo=0, xto=0, yto=0, rsiz=0, ss=None):
    ss = ss or [depth] * ncomp
    return seg(0xFF51, struct.pack(">HIIIIIIIIH", rsiz, w, h, xo, yo, tw or w, th or h, xto, yto, len(ss)) +
               b"".join(bytes([s, 1, 1]) for s in ss))


COD = seg(0xFF52, b"\0\0\0\1\0" + b"\0\4\4\0\1")
QCD = seg(0xFF5C, b"\x40\x48")


def sot(isot, psot, tp=0, tn=1):
    return struct.pack(">HHHIBB", 0xFF90, 10, isot, psot, tp, tn)


def tilepart(isot=0, tp=0, tn=1, head=b"", data=b"\0", psot=None):
    n = 12 + len(head) + 2 + len(data)
    return sot(isot, n if psot is None else psot, tp, tn) + head + b"\xff\x93" + data


def codestream(extra=b"", parts=None, sz=None, cod=COD, qcd=QCD, eoc=b"\xff\xd9"):
    return b"\xff\x4f" + (sz or siz()) + cod + qcd + extra + (parts or tilepart()) + eoc


SIG = box(b"jP  ", b"\r\n\x87\n")


def ftyp(b=b"jp2 "):
    return box(b"ftyp", b + b"\0\0\0\0" + b)


def ihdr(w=8, h=8, nc=1, bpc=7, unk=0, ipr=0):
    return box(b"ihdr", struct.pack(">IIHBBBB", h, w, nc, bpc, 7, unk, ipr))


COLR = box(b"colr", b"\1\0\0" + struct.pack(">I", 17))


def container(cs=None, header=b"", extra=b"", ih=None, colr=COLR, brand=b"jp2 ", tail=b""):
    return SIG + ftyp(brand) + box(b"jp2h", (ih or ihdr()) + colr + header) + extra + \
        box(b"jp2c", cs or codestream()) + tail


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="demo-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def analyse(data, fmt="jp2", verbose=True, pm=True, nullxml=False, mix=0, name="x.jp2"):
    from jpylyzer.jpylyzer import checkOneFile
    with Scratch() as d:
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(data)
        return checkOneFile(p, fmt, verbose, pm, nullxml, mix)


def valid(rep):
    return rep.findtext("isValid") == "True"


def must(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)
