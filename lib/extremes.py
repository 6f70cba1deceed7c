"""Large conforming images: counts and sizes near the limits of the format."""
import struct

import jpgen as g
from jpgen import Box, Fields, Seg, TilePart, CS, Image


def _cs(r, fmt, csiz=1, nt=(1, 1), depth=7, segs=(), tps=None, sub=False, payload=3):
    nx, ny = nt
    f = [("rsiz", 2, 0x4000 if fmt in ("jph", "jhc") else 0), ("xsiz", 4, 16 * nx),
         ("ysiz", 4, 16 * ny), ("xOsiz", 4, 0), ("yOsiz", 4, 0), ("xTsiz", 4, 16), ("yTsiz", 4, 16),
         ("xTOsiz", 4, 0), ("yTOsiz", 4, 0), ("csiz", 2, csiz)]
    for c in range(csiz):
        f += [("ssiz", 1, depth if not sub else (c * 7 % 38)), ("xRsiz", 1, 1 + c % 255),
              ("yRsiz", 1, 1 + c // 255 % 255)]
    main = [g.seg_cap(r, [15])] if fmt in ("jph", "jhc") else []
    main += [g.seg_cod(r, fmt), g.seg_qcd(r)] + list(segs)
    if tps is None:
        tps = [TilePart(i, 0, 1, [], g.payload(r, payload)) for i in range(nx * ny)]
    return CS(Seg("siz", 0xFF51, Fields(*f)), main, tps)


def _wrap(r, fmt, cs, kids=(), extra=(), bpc=None, pos="after"):
    gg = cs.siz.fields.get
    depths = [x[2] for x in cs.siz.fields.f if x[0] == "ssiz"]
    same = len(set(depths)) == 1
    ih = Box(b"ihdr", Fields(("height", 4, gg("ysiz")), ("width", 4, gg("xsiz")),
                             ("nC", 2, gg("csiz")), ("bPC", 1, depths[0] if same else 255),
                             ("c", 1, 7), ("unkC", 1, 0), ("iPR", 1, 0)))
    k = [ih]
    if not same:
        k.append(Box(b"bpcc", Fields(*[("bPC", 1, d) for d in depths])))
    if not any(b.typ == b"colr" for b in kids):
        k.append(g.box_colr(r, fmt, 1))
    k += kids
    bx = [g.box_sig(), g.box_ftyp(r, fmt), Box(b"jp2h", kids=k)]
    if pos == "before":
        bx += list(extra)
    bx.append(Box(b"jp2c", cs=cs))
    if pos == "after":
        bx += list(extra)
    return Image(fmt, boxes=bx)


def _img(r, fmt, cs, **kw):
    return Image(fmt, cs=cs) if fmt in ("j2c", "jhc") else _wrap(r, fmt, cs, **kw)


def _xml(n):
    return ("<r xmlns:p='urn:p'>" + "".join("<p:e i='%d'>t%d</p:e>" % (i, i) for i in range(n)) +
            "</r>").encode()


CASES = {}


def case(name, areas, fmts):
    def deco(fn):
        CASES[name] = (fn, set(areas.split()), fmts)
        return fn
    return deco


ALL = ("jp2", "jph", "j2c", "jhc")
BOX = ("jp2", "jph")


@case("comp16384", "cs siz", ALL)
def _(r, f):
    return _img(r, f, _cs(r, f, csiz=16384, sub=True))


@case("comp257crg", "cs", ALL)
def _(r, f):
    n = 300
    segs = [g.seg_crg(r, n)] + [g.seg_coc(r, f, n, c) for c in (0, 255, 256, 299)]
    segs += [g.seg_qcc(r, n, c) for c in range(0, 300)]
    segs += [g.seg_rgn(r, f, n, c) for c in (0, 255, 256, 299)] + [g.seg_poc(r, n)]
    return _img(r, f, _cs(r, f, csiz=n, segs=segs))


@case("comp256", "cs", ALL)
def _(r, f):
    n = 256
    segs = [g.seg_crg(r, n)] + [g.seg_coc(r, f, n, c) for c in range(0, 256)]
    segs += [g.seg_qcc(r, n, c) for c in range(0, 256)]
    segs += [g.seg_rgn(r, f, n, c) for c in (0, 1, 254, 255)] + [g.seg_poc(r, n)]
    return _img(r, f, _cs(r, f, csiz=n, segs=segs))


@case("tiles300", "cs tp", ALL)
def _(r, f):
    return _img(r, f, _cs(r, f, nt=(300, 1)))


@case("tiles2000", "cs tp", ("jp2", "jhc"))
def _(r, f):
    return _img(r, f, _cs(r, f, nt=(40, 50)))


@case("tiles2000rev", "cs tp", ("j2c", "jph"))
def _(r, f):
    cs = _cs(r, f, nt=(2000, 1))
    cs.tps.reverse()
    return _img(r, f, cs)


@case("tileparts255", "cs tp", ALL)
def _(r, f):
    tps = []
    for k in range(255):
        for t in range(2):
            tps.append(TilePart(t, k, 255 if k % 2 or k == 254 else 0, [g.seg_plt(r, k)] if k % 50 == 0 else [],
                                b"ab"))
    return _img(r, f, _cs(r, f, nt=(2, 1), tps=tps))


@case("bigpayload", "cs tp", ALL)
def _(r, f):
    tps = [TilePart(0, 0, 2, [], b"\0" * 70000), TilePart(0, 1, 2, [], b"\1" * (1 << 24))]
    return _img(r, f, _cs(r, f, tps=tps))


@case("com65533", "cs", ALL)
def _(r, f):
    segs = [Seg("com", 0xFF64, Fields(("rcom", 2, 0), ("ccom", None, g.rbytes(r, 65531)))),
            Seg("com", 0xFF64, Fields(("rcom", 2, 1), ("ccom", None, b"x" * 65531)))]
    segs += [g.seg_com(r) for _ in range(300)]
    return _img(r, f, _cs(r, f, segs=segs))


@case("plt65532", "cs tp packet", ALL)
def _(r, f):
    p1 = Seg("plt", 0xFF58, Fields(("zplt", 1, 255), ("iplt", None, b"\x05" * 65532)))
    p2 = Seg("plt", 0xFF58, Fields(("zplt", 1, 0), ("iplt", None, b"\x85\x80\x7f" * 21844)))
    tps = [TilePart(0, 0, 1, [p1, p2] + [g.seg_plt(r, z) for z in range(120)] +
                    [g.seg_ppt(r) for _ in range(70)], b"q")]
    segs = [g.seg_plm(r, z) for z in range(130)] + [g.seg_ppm(r) for _ in range(140)]
    return _img(r, f, _cs(r, f, segs=segs, tps=tps))


@case("poc9000", "cs", ALL)
def _(r, f):
    fs = []
    for i in range(9361):
        fs += [("rspoc", 1, i % 33), ("cspoc", 1, 0), ("lyepoc", 2, 1 + i % 65535),
               ("repoc", 1, 33), ("cepoc", 1, 0), ("order", 1, i % 5)]
    return _img(r, f, _cs(r, f, segs=[Seg("poc", 0xFF5F, Fields(*fs))]))


@case("prf40", "cs", ALL)
def _(r, f):
    s1 = Seg("prf", 0xFF56, Fields(*[("pprf", 2, 1 + i) for i in range(40)]))
    s2 = Seg("cpf", 0xFF59, Fields(*[("pcpf", 2, 65535 - i) for i in range(40)]))
    return _img(r, f, _cs(r, f, segs=[s1, s2]))


@case("capall", "cs", ALL)
def _(r, f):
    cs = _cs(r, f)
    cap = g.seg_cap(r, list(range(1, 33)))
    cap.fields.f[15][2] &= 0xFFFF
    cs.segs = [cap] + [s for s in cs.segs if s.tag != "cap"]
    return _img(r, f, cs)


@case("segs1000", "cs tp", ALL)
def _(r, f):
    segs = [g.seg_unknown(r) for _ in range(700)]
    tps = [TilePart(0, 0, 1, [g.seg_unknown(r) for _ in range(300)] +
                    [g.seg_com(r) for _ in range(50)], b"")]
    return _img(r, f, _cs(r, f, segs=segs, tps=tps))


@case("lastpsot0", "cs tp", ALL)
def _(r, f):
    cs = _cs(r, f, nt=(5, 5), payload=5000)
    cs.tps[-1].psot = 0
    return _img(r, f, cs)


@case("pal255x1024", "box", BOX)
def _(r, f):
    bs = [i % 38 | (128 if i % 3 == 0 else 0) for i in range(255)]
    fl = [("nE", 2, 1024), ("nPC", 1, 255)] + [("B", 1, b) for b in bs]
    raw = b"".join(r.randrange(1 << 8 * (((b & 127) + 8) // 8)).to_bytes(((b & 127) + 8) // 8, "big")
                   for _ in range(1024) for b in bs)
    return _wrap(r, f, _cs(r, f), kids=[Box(b"pclr", Fields(*fl, ("raw", None, raw))),
                                        g.box_cmap(r, 255)])


@case("cdef5000", "box", BOX)
def _(r, f):
    fl = [("n", 2, 5000)]
    for i in range(5000):
        fl += [("cN", 2, i), ("cTyp", 2, 0 if i % 2 else 65535), ("cAssoc", 2, i * 13 % 65536)]
    return _wrap(r, f, _cs(r, f), kids=[Box(b"cdef", Fields(*fl))])


@case("cmap3000", "box", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f), kids=[g.box_pclr(r), g.box_cmap(r, 3000)])


@case("colr200", "box icc", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f), kids=[g.box_colr(r, f) for _ in range(200)])


@case("icc300tags", "box icc", BOX)
def _(r, f):
    tags = [b"T%03d" % i for i in range(300)]
    tags.insert(170, b"desc")
    prof = g.icc_profile(r, tags=tags)
    return _wrap(r, f, _cs(r, f), kids=[Box(b"colr", Fields(("meth", 1, 2), ("prec", 1, 0), ("approx", 1, 0),
                                                            *[tuple(x) for x in prof.f]))])


@case("icc300tagsA2B0", "icc", BOX)
def _(r, f):
    tags = [b"T%03d" % i for i in range(300)]
    tags.insert(255, b"A2B0")
    prof = g.icc_profile(r, tags=tags)
    return _wrap(r, f, _cs(r, f), kids=[Box(b"colr", Fields(("meth", 1, 2), ("prec", 1, 0), ("approx", 1, 0),
                                                            *[tuple(x) for x in prof.f]))])


@case("iccbig", "box icc", BOX)
def _(r, f):
    prof = g.icc_profile(r, tags=[b"rTRC", b"desc"])
    prof.f[-1][2] += b"\0" * 100000
    prof.set("profileSize", prof.get("profileSize") + 100000)
    return _wrap(r, f, _cs(r, f), kids=[Box(b"colr", Fields(("meth", 1, 2), ("prec", 1, 0), ("approx", 1, 0),
                                                            *[tuple(x) for x in prof.f]))])


@case("ftyp2000", "box", BOX)
def _(r, f):
    im = _wrap(r, f, _cs(r, f))
    br = b"jp2 " if f == "jp2" else b"jph "
    im.boxes[1] = Box(b"ftyp", Fields(("br", 4, br), ("minV", 4, 0), *[("cL", 4, b"%04d" % i) for i in range(2000)],
                                      ("cL", 4, br)))
    return im


@case("xmlbig", "box meta", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f), extra=[Box(b"xml ", Fields(("data", None, _xml(9000))))])


@case("xmltext", "box meta", BOX)
def _(r, f):
    d = b"<a>" + "é x".encode() * 90000 + b"</a>"
    return _wrap(r, f, _cs(r, f), extra=[Box(b"xml ", Fields(("data", None, d))),
                                         Box(b"uuid", Fields(("id", 16, g.XMP_UUID), ("data", None, d)))])


@case("xmldeep60", "box meta", BOX)
def _(r, f):
    d = b"".join(b"<e%d>" % i for i in range(60)) + b"t" + b"".join(b"</e%d>" % i for i in reversed(range(60)))
    return _wrap(r, f, _cs(r, f), extra=[Box(b"xml ", Fields(("data", None, d)))], pos="before")


@case("xml400", "box meta", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f), extra=[g.box_xml(r) for _ in range(400)])


@case("uuid400", "box meta", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f), extra=[g.box_uuid(r) for _ in range(300)] + [g.box_uinf(r) for _ in range(100)],
                 pos="before")


@case("uuidbig", "box meta", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f), extra=[Box(b"uuid", Fields(("id", 16, g.rbytes(r, 16)),
                                                             ("data", None, b"\0" * 3000000)))])


@case("ulst3000", "box meta", BOX)
def _(r, f):
    lst = Box(b"ulst", Fields(("nU", 2, 3000), *[("id", 16, g.rbytes(r, 16)) for _ in range(3000)]))
    url = Box(b"url ", Fields(("version", 1, 0), ("flag", 3, 0), ("loc", None, b"http://" + b"a" * 100000 + b"\0")))
    return _wrap(r, f, _cs(r, f), extra=[Box(b"uinf", kids=[lst, url])])


@case("unknownbig", "box unknown", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f), pos="before",
                 extra=[Box(b"free", Fields(("raw", None, b"\xff\x4f\xff\x51" * 800000)))] +
                 [g.box_unknown(r) for _ in range(300)])


@case("extended17M", "box", BOX)
def _(r, f):
    im = _wrap(r, f, _cs(r, f, tps=[TilePart(0, 0, 1, [], b"\2" * (17 << 20))]))
    for b in im.boxes:
        b.mode = "x"
    im.boxes[-1].mode = "z"
    return im


@case("bpcc3000", "box consist", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f, csiz=3000, sub=True))


@case("headers", "box", BOX)
def _(r, f):
    return _wrap(r, f, _cs(r, f), kids=[g.box_unknown(r) for _ in range(300)] + [g.box_res(r)])


@case("tiles65535", "huge", ("jp2", "jhc"))
def _(r, f):
    return _img(r, f, _cs(r, f, nt=(255, 257), payload=0))


@case("tiles32900", "large", ("jp2", "jhc"))
def _(r, f):
    return _img(r, f, _cs(r, f, nt=(100, 329), payload=0))


def items(areas, fmts=ALL):
    """['x', fmt, name]"""
    a = set(areas.split())
    return [["x", f, n] for n, (_, ar, fm) in CASES.items() if ar & a for f in fm if f in fmts]


def make(item, seed):
    _, fmt, name = item[:3]
    r = g.rng(seed, "x", name, fmt)
    im = CASES[name][0](r, fmt)
    im.notes.append("extreme " + name)
    return im, im.ser(), fmt


# ---------------------------------------------------------------------------
# Sizes: every countable dimension of an image at many sizes, so that nothing the
# code does may depend on a silent limit.  Item: ['n', fmt, dimension, count]

SIZES = (3, 5, 9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 254, 255,
         256, 257, 258, 300, 499, 500, 501, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1500,
         2000, 2047, 2048, 2049, 3000, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001,
         16383, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 65000, 65500, 65535, 65536, 65537,
         100000, 131072, 200000, 262145, 300000, 1000000, 1048576, 1048577, 2000000)
DIMS = {}


def dim(name, areas, fmts, top, full=None):
    """top: largest count in the quick tier, full: in the thorough one."""
    def deco(fn):
        DIMS[name] = (fn, set(areas.split()), fmts, top, full or top)
        return fn
    return deco


def _bx(r, f, **kw):
    return _wrap(r, f, _cs(r, f), **kw)


def _icc(r, f, prof, meth=2):
    return _bx(r, f, kids=[Box(b"colr", Fields(("meth", 1, meth), ("prec", 1, 0), ("approx", 1, 0),
                                               *[tuple(x) for x in prof.f]))])


def _mh(name, areas, fn, top, full=None):
    @dim("main." + name, areas, ALL, top, full)
    def _(r, f, n):
        return _img(r, f, _cs(r, f, segs=[fn(r) for _ in range(n)]))


def _th(name, areas, fn, top, full=None):
    @dim("tp." + name, areas, ALL, top, full)
    def _(r, f, n):
        tps = [TilePart(0, 0, 1, [fn(r) for _ in range(n)], b"zz")]
        return _img(r, f, _cs(r, f, tps=tps))


_mh("com", "cs", g.seg_com, 1100, 20000)
_mh("ppm", "cs packet", g.seg_ppm, 2100, 20000)
_mh("plm", "cs packet", lambda r: g.seg_plm(r, r.randrange(256)), 1100, 10000)
_mh("unknown", "cs", g.seg_unknown, 2100, 20000)
_mh("tlm", "cs", g.seg_tlm, 1100, 10000)
_th("com", "tp", g.seg_com, 1100, 10000)
_th("plt", "tp packet", lambda r: g.seg_plt(r, r.randrange(256)), 1100, 10000)
_th("ppt", "tp packet", g.seg_ppt, 2100, 10000)
_th("unknown", "tp", g.seg_unknown, 2100, 10000)


@dim("main.rgn", "cs", ALL, 20)
def _(r, f, n):
    return _img(r, f, _cs(r, f, segs=[g.seg_rgn(r, f, 1, 0) for _ in range(n)]))


@dim("comps", "cs siz consist", ALL, 2100, 16384)
def _(r, f, n):
    cs = _cs(r, f, csiz=n, sub=True)
    if r.random() < 0.3:
        d = r.randrange(38)
        for x in cs.siz.fields.f:
            if x[0] == "ssiz":
                x[2] = d
    return _img(r, f, cs)


@dim("coc", "cs", ALL, 520, 2100)
def _(r, f, n):
    c = n + r.randrange(3)
    segs = [g.seg_coc(r, f, c, k) for k in range(n)] + [g.seg_qcc(r, c, k) for k in range(n)]
    return _img(r, f, _cs(r, f, csiz=c, segs=segs))


@dim("tp.coc", "tp cs", ALL, 520, 1100)
def _(r, f, n):
    c = n + r.randrange(3)
    segs = [g.seg_coc(r, f, c, k) for k in range(n)] + [g.seg_qcc(r, c, k) for k in range(n)]
    return _img(r, f, _cs(r, f, csiz=c, tps=[TilePart(0, 0, 1, segs, b"abc")]))


@dim("poc", "cs", ALL, 2100, 9000)
def _(r, f, n):
    fs = []
    for i in range(n):
        fs += [("rspoc", 1, r.randrange(33)), ("cspoc", 1, 0), ("lyepoc", 2, r.randrange(1, 65536)),
               ("repoc", 1, 33), ("cepoc", 1, 0), ("order", 1, r.randrange(5))]
    return _img(r, f, _cs(r, f, segs=[Seg("poc", 0xFF5F, Fields(*fs))]))


@dim("prf", "cs", ALL, 9000, 32765)
def _(r, f, n):
    v = [r.randrange(65536) for _ in range(n - 1)] + [r.randrange(1, 65536)]
    a, b = ("prf", 0xFF56, "pprf"), ("cpf", 0xFF59, "pcpf")
    return _img(r, f, _cs(r, f, segs=[Seg(t, m, Fields(*[(k, 2, x) for x in v])) for t, m, k in (a, b)]))


@dim("tiles", "cs tp", ALL, 1100, 10001)
def _(r, f, n):
    cs = _cs(r, f, nt=(n, 1) if r.random() < 0.5 else (1, n), payload=2)
    if r.random() < 0.5:
        r.shuffle(cs.tps)
    return _img(r, f, cs)


@dim("tileparts", "tp", ALL, 255)
def _(r, f, n):
    tps = [TilePart(0, k, n if k == n - 1 or r.random() < 0.5 else 0, [], b"%d" % k) for k in range(n)]
    return _img(r, f, _cs(r, f, tps=tps))


@dim("comlen", "cs", ALL, 65531)
def _(r, f, n):
    return _img(r, f, _cs(r, f, segs=[
        Seg("com", 0xFF64, Fields(("rcom", 2, 1), ("ccom", None, (b"abcdefghij" * (n // 10 + 1))[:n]))),
        Seg("com", 0xFF64, Fields(("rcom", 2, 0), ("ccom", None, g.rbytes(r, n))))]))


@dim("pltlen", "tp packet", ALL, 65532)
def _(r, f, n):
    b = g.pick(r, b"\x05" * n, b"\xff" * (n - 1) + b"\0" if n < 200 else b"\x07" * n, g.rbytes(r, n - 1) + b"\x01",
               (b"\x81\x02" * n)[-n:])
    p = Seg("plt", 0xFF58, Fields(("zplt", 1, 0), ("iplt", None, b)))
    return _img(r, f, _cs(r, f, tps=[TilePart(0, 0, 1, [p], b"q")]))


@dim("plmlen", "cs packet", ALL, 255)
def _(r, f, n):
    b = g.pick(r, b"\x05" * n, g.rbytes(r, n - 1) + b"\x01", (b"\x81\x02" * n)[-n:])
    return _img(r, f, _cs(r, f, segs=[Seg("plm", 0xFF57, Fields(("zplm", 1, 0), ("nplm", 1, n),
                                                                ("iplm", None, b)))]))


@dim("payload", "cs tp box", ALL, 2000000)
def _(r, f, n):
    tps = [TilePart(0, 0, 2, [], b"\x11" * n), TilePart(0, 1, 2, [], b"\x22")]
    return _img(r, f, _cs(r, f, tps=tps))


@dim("unklen", "cs", ALL, 65533)
def _(r, f, n):
    s = Seg("unknown", 0xFF70, Fields(("raw", None, b"\xff\x90" * (n // 2) + b"\0" * (n % 2))))
    return _img(r, f, _cs(r, f, segs=[s]))


@dim("cdef", "box", BOX, 3000, 10922)
def _(r, f, n):
    fl = [("n", 2, n)]
    for i in range(n):
        fl += [("cN", 2, i), ("cTyp", 2, r.choice((0, 65535))), ("cAssoc", 2, r.randrange(65536))]
    return _bx(r, f, kids=[Box(b"cdef", Fields(*fl))])


@dim("cmap", "box", BOX, 2100, 16384)
def _(r, f, n):
    return _bx(r, f, kids=[g.box_pclr(r), g.box_cmap(r, n)])


@dim("palrows", "box", BOX, 1024)
def _(r, f, n):
    fl = [("nE", 2, n), ("nPC", 1, 2), ("B", 1, 7), ("B", 1, 15)]
    return _bx(r, f, kids=[Box(b"pclr", Fields(*fl, ("raw", None, g.rbytes(r, 3 * n)))), g.box_cmap(r, 2)])


@dim("palcols", "box", BOX, 255)
def _(r, f, n):
    fl = [("nE", 2, 3), ("nPC", 1, n)] + [("B", 1, 7) for _ in range(n)]
    return _bx(r, f, kids=[Box(b"pclr", Fields(*fl, ("raw", None, g.rbytes(r, 3 * n)))), g.box_cmap(r, n)])


@dim("colr", "box icc", BOX, 600, 3000)
def _(r, f, n):
    return _bx(r, f, kids=[g.box_colr(r, f) for _ in range(n)])


@dim("icctags", "icc box", BOX, 2100, 20000)
def _(r, f, n):
    tags = [b"%04x" % (i & 65535) for i in range(n)]
    for t in g.pick(r, (), (b"desc",), (b"desc",), (b"A2B0",), (b"A2B0", b"desc")):
        tags[g.pick(r, 0, n - 1, n - 1, r.randrange(n))] = t
    return _icc(r, f, g.icc_profile(r, tags=tags))


@dim("iccdesc", "icc box", BOX, 70000, 1000000)
def _(r, f, n):
    t = g.pick(r, "d" * n, ("Adobe RGB (1998) é " * n)[:n])
    return _icc(r, f, g.icc_profile(r, tags=[b"cprt", b"desc"], name=t.strip() or "x"))


@dim("iccsize", "icc box", BOX, 2000000)
def _(r, f, n):
    prof = g.icc_profile(r, tags=[b"rTRC", b"desc"])
    prof.f[-1][2] += b"\0" * n
    prof.set("profileSize", prof.get("profileSize") + n)
    return _icc(r, f, prof, 2)


@dim("vendor", "box", BOX, 300000)
def _(r, f, n):
    return _bx(r, f, kids=[Box(b"colr", Fields(("meth", 1, 1), ("prec", 1, 0), ("approx", 1, 0), ("enumCS", 4, 16))),
                           Box(b"colr", Fields(("meth", 1, 4), ("prec", 1, 0), ("approx", 1, 0),
                                               ("raw", None, g.rbytes(r, 16) + b"\x55" * n)))])


@dim("cL", "box", BOX, 2100, 20000)
def _(r, f, n):
    im = _bx(r, f)
    br = b"jp2 " if f == "jp2" else b"jph "
    cl = [b"%04x" % i for i in range(n)]
    cl[g.pick(r, 0, n - 1, r.randrange(n))] = br
    im.boxes[1] = Box(b"ftyp", Fields(("br", 4, br), ("minV", 4, 0), *[("cL", 4, c) for c in cl]))
    return im


@dim("xmlelems", "box meta", BOX, 5000, 100000)
def _(r, f, n):
    return _bx(r, f, extra=[Box(b"xml ", Fields(("data", None, _xml(n))))], pos=g.pick(r, "before", "after"))


@dim("xmltext", "box meta", BOX, 300000, 2000000)
def _(r, f, n):
    d = b"<a>" + g.pick(r, "é x", "xyz", "a\nb").encode() * (n // 3) + b"</a>"
    return _bx(r, f, extra=[Box(b"xml ", Fields(("data", None, d))),
                            Box(b"uuid", Fields(("id", 16, g.XMP_UUID), ("data", None, d)))])


@dim("xmlattr", "box meta", BOX, 300000, 2000000)
def _(r, f, n):
    d = b"<a k='" + b"v" * n + b"'/>"
    return _bx(r, f, extra=[Box(b"xml ", Fields(("data", None, d)))])


@dim("xmldepth", "box meta", BOX, 129)
def _(r, f, n):
    d = b"".join(b"<e%d>" % i for i in range(n)) + b"t" + b"".join(b"</e%d>" % i for i in reversed(range(n)))
    return _bx(r, f, extra=[Box(b"xml ", Fields(("data", None, d)))])


@dim("xml", "box meta", BOX, 520, 3000)
def _(r, f, n):
    return _bx(r, f, extra=[g.box_xml(r) for _ in range(n)])


@dim("uuid", "box meta", BOX, 1100, 10000)
def _(r, f, n):
    return _bx(r, f, extra=[g.box_uuid(r) for _ in range(n)], pos=g.pick(r, "before", "after"))


@dim("uuidlen", "box meta", BOX, 2000000)
def _(r, f, n):
    return _bx(r, f, extra=[Box(b"uuid", Fields(("id", 16, g.rbytes(r, 16)), ("data", None, b"\0" * n)))])


@dim("uinf", "box meta", BOX, 520, 3000)
def _(r, f, n):
    return _bx(r, f, extra=[g.box_uinf(r) for _ in range(n)])


@dim("ulst", "box meta", BOX, 2100, 65535)
def _(r, f, n):
    lst = Box(b"ulst", Fields(("nU", 2, n), *[("id", 16, g.rbytes(r, 16)) for _ in range(n)]))
    url = Box(b"url ", Fields(("version", 1, 0), ("flag", 3, 0), ("loc", None, b"http://a\0")))
    return _bx(r, f, extra=[Box(b"uinf", kids=[lst, url])])


@dim("urllen", "box meta", BOX, 300000, 2000000)
def _(r, f, n):
    lst = Box(b"ulst", Fields(("nU", 2, 0)))
    url = Box(b"url ", Fields(("version", 1, 0), ("flag", 3, 0), ("loc", None, b"http://" + b"a" * n + b"\0")))
    return _bx(r, f, extra=[Box(b"uinf", kids=[lst, url])])


@dim("unknown", "box unknown", BOX, 2100, 10000)
def _(r, f, n):
    return _bx(r, f, extra=[g.box_unknown(r) for _ in range(n)], pos=g.pick(r, "before", "after"))


@dim("unknownh", "box unknown", BOX, 2100, 10000)
def _(r, f, n):
    return _bx(r, f, kids=[g.box_unknown(r) for _ in range(n)])


@dim("unknownlen", "box unknown", BOX, 2000000)
def _(r, f, n):
    b = Box(b"free", Fields(("raw", None, b"\x01" * n)))
    return _bx(r, f, extra=[b], pos=g.pick(r, "before", "after")) if r.random() < 0.5 else _bx(r, f, kids=[b])


@dim("jp2i", "box", BOX, 300000)
def _(r, f, n):
    return _bx(r, f, extra=[Box(b"jp2i", Fields(("raw", None, b"\x01" * n)))], pos="before")


def sized(areas, fmts=ALL, tier="quick", seed=1, frac=1.0, cap=None):
    """Each dimension at each size, in one (thorough: every) format."""
    a = set(areas.split())
    r = g.rng(seed, "sized", areas)
    out = []
    for name, (_, ar, fm, top, full) in sorted(DIMS.items()):
        if not ar & a:
            continue
        fm = [x for x in fm if x in fmts]
        if not fm:
            continue
        lim = full if tier == "thorough" else top
        if cap:
            lim = min(lim, cap)
        for n in [s for s in SIZES if s < lim] + [lim]:
            if tier != "thorough" and r.random() > frac:
                continue
            for f in (fm if tier == "thorough" else [r.choice(fm)]):
                out.append(["n", f, name, n])
    return out


def make_sized(item, seed):
    _, fmt, name, n = item[:4]
    r = g.rng(seed, "n", name, fmt, n)
    im = DIMS[name][0](r, fmt, n)
    im.notes.append("size %s %d" % (name, n))
    return im, im.ser(), fmt
