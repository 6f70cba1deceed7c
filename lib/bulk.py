"""Very many small things, and small things ahead of a very large one: images on which work that
grows faster than the file (however it is hidden in single steps) becomes visible."""
import struct

import extremes
import jpgen as g
from jpgen import Box, Fields, TilePart


class Raw:
    def __init__(self, b):
        self.b = b

    def ser(self):
        return self.b


def seg(m, body=b""):
    return struct.pack(">HH", m, len(body) + 2) + body


def box(t, body=b""):
    return struct.pack(">I", len(body) + 8) + t + body


SEGS = {"unknown": seg(0xFF70), "com": seg(0xFF64, b"\0\1x"), "ppm": seg(0xFF60, b"\0"),
        "plm": seg(0xFF57, b"\0\1\1"), "tlm": seg(0xFF55, b"\0\0"), "rgn": seg(0xFF5E, b"\0\0\1"),
        "coc": seg(0xFF53, b"\0\0\0\4\4\0\1"), "qcc": seg(0xFF5D, b"\0\x40\x48"), "cod": seg(0xFF52, b"\0\0\0\1\0\0\4\4\0\1"),
        "qcd": seg(0xFF5C, b"\x40\x48"), "poc": seg(0xFF5F, b"\0\0\0\1\1\1\0"), "crg": seg(0xFF63, b"\0\0\0\0"),
        "cap": seg(0xFF50, b"\0\2\0\0\0\0"), "prf": seg(0xFF56, b"\0\1"), "cpf": seg(0xFF59, b"\0\1"),
        "plt": seg(0xFF58, b"\0\1"), "ppt": seg(0xFF61, b"\0"), "eph": b"\xff\x92", "badlen": b"\xff\x70\0\0"}
BOXES = {"unknown": box(b"abcd"), "uuid": box(b"uuid", b"0123456789abcdefx"), "xml": box(b"xml ", b"<a/>"), "uinf": box(b"uinf"),
         "jp2h": box(b"jp2h"), "jp2c": box(b"jp2c"), "colr": box(b"colr", b"\1\0\0\0\0\0\x10"), "res": box(b"res "),
         "bpcc": box(b"bpcc", b"\7"), "ihdr": box(b"ihdr", b"\0\0\0\1\0\0\0\1\0\1\7\7\0\0"), "jp2i": box(b"jp2i"),
         "url": box(b"url ", b"\0\0\0\0a\0"), "ulst": box(b"ulst", b"\0\0"), "ftyp": box(b"ftyp", b"jp2 \0\0\0\0jp2 "),
         "jP": box(b"jP  ", b"\r\n\x87\n"), "resc": box(b"resc", b"\0\1\0\1\0\1\0\1\0\0"), "cdef": box(b"cdef", b"\0\1\0\0\0\0\0\1"),
         "cmap": box(b"cmap", b"\0\0\0\0"), "pclr": box(b"pclr", b"\0\1\1\7x"), "tiny": b"\0\0\0\2abcd"[:2] * 4,
         "xl": b"\0\0\0\1abcd\0\0\0\0\0\0\0\x10"}


def names():
    out = [("main", k) for k in SEGS] + [("tp", k) for k in SEGS] + [("parts", "-"), ("tiles", "-")]
    out += [(w, k) for w in ("top", "jp2h", "res", "uinf") for k in BOXES]
    out += [("in", k) for k in ("cL", "bpcc", "cmap", "cdef", "ulst", "pclr", "elems", "attrs", "text", "comment", "depths",
                                "loc", "payload", "entities", "icc", "nulls", "cdata", "ns", "deep")]
    return out


def copies(r, table, what, n, noise, hd):
    """n copies, some of them with other contents; what: - for one of each kind in turn"""
    out = []
    for i in range(n):
        b = table[what if what != "-" else r.choice(sorted(table))]
        if len(b) > hd and r.random() < noise:
            b = bytearray(b)
            b[r.randrange(hd, len(b))] = g.pick(r, 0, 1, 255, r.randrange(256))
        out.append(bytes(b))
    return b"".join(out)


HARMFUL = {k: v for k, v in SEGS.items() if k not in ("badlen", "eph")}


def make(r, fmt, where, what, n, tail, noise=0):
    """n repetitions; tail: number of idle bytes that follow; noise: how many of them differ."""
    if noise or what == "-":
        if where in ("main", "tp"):
            many = lambda t, w, n: copies(r, t if w != "-" else HARMFUL, w, n, noise, 4)
        else:
            many = lambda t, w, n: copies(r, t, w, n, noise, 8)
    else:
        many = lambda t, w, n: t[w] * n
    raw = fmt in ("j2c", "jhc")
    segs, head, extra, kids = [], [], [], []
    tps = None
    idle = b"\0" * tail
    if where == "main":
        segs = [Raw(many(SEGS, what, n))]
    elif where == "tp":
        head = [Raw(many(SEGS, what, n))]
    elif where == "parts":
        tps = [Raw(TilePart(0, 0, 0, [], b"").ser() * n)] if not noise else [part(r, 0, noise) for _ in range(n)]
    elif where == "tiles":
        n = min(n, 5000)        # the search of tile numbers is quadratic up to 65535 tiles
        tps = [TilePart(i, 0, 1, [], b"") if not noise else part(r, i, noise) for i in range(n)]
    elif where == "in":
        extra, kids = inner(r, what, n)
    elif where == "top":
        extra = [Raw(many(BOXES, what, n))]
    elif where == "jp2h":
        kids = [Raw(many(BOXES, what, n))]
    else:
        sup = box(b"res " if where == "res" else b"uinf", many(BOXES, what, n))
        (kids if where == "res" else extra).append(Raw(sup))
    if tps is None:
        tps = [TilePart(0, 0, 1, head, idle if raw or where in ("main", "tp") else b"x")]
    else:
        tps.append(TilePart(0, 0, 0, [], idle))
    cs = extremes._cs(r, fmt, segs=segs, tps=tps, nt=(100, n // 100 + 1) if where == "tiles" else (1, 1))
    if where == "in" and what == "payload":
        cs.tps[0].payload = b"\xff\x90\0\x0a\0\0\0\0\0\x0e\0\1\xff\x93" * n
    if raw:
        return g.Image(fmt, cs=cs).ser()
    ih = Raw(box(b"ihdr", b"\0\0\0\x10\0\0\0\x10\0\1\7\7\0\0"))
    b = [g.box_sig(), g.box_ftyp(r, fmt), Box(b"jp2h", kids=[ih, g.box_colr(r, fmt, 1)] + kids)]
    before = tail or r.random() < 0.5
    b += (extra if before else []) + [Box(b"jp2c", cs=cs)] + ([] if before else extra)
    if tail:
        b.append(Raw(box(b"free", idle)))
    d = b"".join(x.ser() for x in b)
    if where == "in" and what == "cL":
        d = d.replace(d[12:12 + struct.unpack(">I", d[12:16])[0]], box(b"ftyp", (b"jp2 " if fmt == "jp2" else b"jph ") + b"\0\0\0\0" + b"abcd" * n), 1)
    return d


def part(r, i, noise):
    if r.random() > noise:
        return TilePart(i, 0, 1, [], b"")
    return TilePart(i, g.pick(r, 0, 1, 255, 255, 255, 255, r.randrange(256)) if noise < 1 else 255, g.pick(r, 0, 1, 2, 255),
                    [Raw(copies(r, HARMFUL, "-", g.pick(r, 0, 1, 1, 2), 0.5, 4))], b"")


def items(tier, seed, want, fmts=("jp2", "jph", "j2c", "jhc"), sizes=(1030, 2100)):
    """Work items of these images for comparison with the model."""
    r = g.rng(seed, "bulk", fmts)
    out = []
    for where, what in names() + [(w, "-") for w in ("main", "tp", "top", "jp2h", "res", "uinf")]:
        if not want(where, what) or where == "in" and what in ("pclr", "deep"):
            continue
        fm = [f for f in fmts if where in ("main", "tp", "parts", "tiles") or f in ("jp2", "jph")]
        for n in sizes if tier == "quick" else tuple(sizes) + (300, 513, 4100, 9000):
            for noise in (0, 30, 100) if where != "in" else (0,):
                for f in ([r.choice(fm)] if tier == "quick" else fm):
                    out.append(["b", f, where, what, n + r.randrange(9), noise])
    return out


def make_item(item, seed):
    _, fmt, where, what, n, noise = item
    r = g.rng(seed, "bulk", item)
    im = g.Image(fmt)
    im.notes.append("%d times %s %s, %d %% altered" % (n, where, what, noise))
    return im, make(r, fmt, where, what, n, 0, noise / 100), fmt


def inner(r, what, n):
    x = None
    if what == "bpcc":
        return [], [Raw(box(b"bpcc", b"\7" * n))]
    if what == "cmap":
        return [], [Raw(box(b"cmap", b"\0\0\1\0" * n))]
    if what == "cdef":
        return [], [Raw(box(b"cdef", struct.pack(">H", min(n, 65535)) + b"\0\0\0\0\0\1" * n))]
    if what == "pclr":
        return [], [Raw(box(b"pclr", b"\4\0\xff" + b"\7" * 255 + b"\1" * (1024 * 255)))]
    if what == "ulst":
        return [Raw(box(b"uinf", box(b"ulst", struct.pack(">H", min(n, 65535)) + b"0123456789abcdef" * min(n, 65535))))], []
    if what == "loc":
        return [Raw(box(b"uinf", box(b"url ", b"\0\0\0\0" + b"a" * n * 8 + b"\0" * n)))], []
    if what == "icc":
        t = b"".join(b"t%03dXXXXYYYY" % (i % 1000) for i in range(min(n, 4096)))
        p = struct.pack(">I", 132 + len(t)) + b"\0" * 124 + struct.pack(">I", min(n, 4096)) + t
        return [], [Raw(box(b"colr", b"\2\0\0" + p))]
    x = {"elems": lambda: b"<r>" + b"<e/>" * n + b"</r>",
         "attrs": lambda: b"<r " + b" ".join(b"a%d='%d'" % (i, i) for i in range(n // 4)) + b"/>",
         "text": lambda: b"<r>" + b"\xc3\xa9 \x7f\n" * n + b"</r>",
         "comment": lambda: b"<r>" + b"<!-- -->x" * n + b"</r>",
         "depths": lambda: b"<r>" + (b"<a>" * 100 + b"</a>" * 100) * (n // 100) + b"</r>",
         "deep": lambda: b"<a>" * n + b"</a>" * n,
         "entities": lambda: b"<r>" + b"&lt;&#x41;" * n + b"</r>",
         "nulls": lambda: b"<r/>" + b"\0" * n * 8,
         "cdata": lambda: b"<r>" + b"<![CDATA[<]]>" * n + b"</r>",
         "ns": lambda: b"<r>" + b"".join(b"<p:e xmlns:p='urn:%d'/>" % i for i in range(n // 4)) + b"</r>",
         }.get(what, lambda: b"<r/>")()
    u = g.XMP_UUID if isinstance(g.XMP_UUID, bytes) else bytes(g.XMP_UUID)
    return [Raw(box(b"xml ", x) if r.random() < 0.5 else box(b"uuid", u + x))], []
