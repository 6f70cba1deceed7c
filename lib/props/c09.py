"""C09: derived metrics."""
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C09"


def want(areas, path):
    return "derived" in areas


EDGE = [0, 1, 2, 3, 7, 8, 15, 16, 17, 255, 256, 257, 1000, 4095, 4096, 65535, 65536, 2 ** 31 - 1,
        2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1]
E16 = [0, 1, 2, 3, 5, 7, 10, 100, 127, 128, 254, 255, 256, 300, 999, 1000, 2540, 10000, 32767, 32768,
       39370, 65534, 65535]


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["res", f, i] for f in work.CONT for i in range(6000 * k)]
    out += [["geo", f, i] for f in work.FMTS for i in range(3500 * k)]
    out += [["ovr", f, i] for f in work.FMTS for i in range(1500 * k)]
    for fmt in work.FMTS:
        out += work.sweep_fields(seed, fmt, tier, lambda q: q in ("siz", "resc", "resd", "ihdr", "bpcc"),
                                 0.1, 0.4)
    out += work.stream("conf", 2500 * k)
    out += work.stream("mut", 1000 * k)
    out += extremes.items("cs siz box")
    out += extremes.sized("cs siz box", tier=tier, seed=seed)
    return work.shuffled(out, seed)


def resolution(item, seed):
    _, fmt, i = item
    r = g.rng(seed, "res", fmt, i)
    im = _plain(seed, fmt, i)
    kids = []
    for t in g.pick(r, [b"resc"], [b"resd"], [b"resc", b"resd"]):
        v = [g.pick(r, r.choice(E16), r.randrange(1, 65536)) for _ in range(4)]
        e = [g.pick(r, 0, 1, 2, 3, 255, 254, 253, 4, 250, r.randrange(256)) for _ in range(2)]
        kids.append(g.Box(t, g.Fields(("vRN", 2, v[0]), ("vRD", 2, v[1]), ("hRN", 2, v[2]),
                                      ("hRD", 2, v[3]), ("vRE", 1, e[0]), ("hRE", 1, e[1]))))
    im.jp2h().kids.append(g.Box(b"res ", kids=kids))
    return im, im.ser(), fmt


_P = {}


def _plain(seed, fmt, i):
    key = (seed, fmt, i % 5)
    if key not in _P:
        _P[key] = g.image(g.rng(seed, "plain", fmt, i % 5), fmt, small=True, rich=0.0, plain=True)
    return _P[key].copy()


def geometry(item, seed):
    _, fmt, i = item
    r = g.rng(seed, "geo", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.0, plain=True)
    cs = im.codestreams()[0]
    f = cs.siz.fields
    st = i % 4
    for n in ("xsiz", "ysiz", "xOsiz", "yOsiz", "xTsiz", "yTsiz", "xTOsiz", "yTOsiz"):
        if st == 0 and r.random() < 0.5:
            f.set(n, g.pick(r, r.choice(EDGE), r.randrange(2 ** 32)))
        elif st == 1 and r.random() < 0.4:
            f.set(n, r.randrange(1, 400))
        elif st == 2:
            f.set(n, g.u32(r))
    if st == 3:
        # exact multiples and their neighbours
        t, k, o = r.randrange(1, 300), r.randrange(1, 20), r.randrange(0, 300)
        for a in "xy":
            f.set(a + "Tsiz", t)
            f.set(a + "TOsiz", o)
            f.set(a + "siz", o + t * k + g.pick(r, -1, 0, 1))
            f.set(a + "Osiz", o + r.randrange(0, t))
    if im.boxes is not None and r.random() < 0.7:
        ih = im.hdr(b"ihdr").fields
        w = f.get("xsiz") - f.get("xOsiz")
        h = f.get("ysiz") - f.get("yOsiz")
        if w > 0 and h > 0:
            ih.set("width", w)
            ih.set("height", h)
        else:
            ih.set("width", r.choice(EDGE))
            ih.set("height", r.choice(EDGE))
    im.notes.append("geometry")
    return im, im.ser(), fmt


def overrun(item, seed):
    """Size of the file against what its structure claims: lengths that reach past the
    end, bytes after the last box, truncation, extended and zero lengths."""
    _, fmt, i = item
    r = g.rng(seed, "ovr", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.0, plain=r.random() < 0.3)
    w, h = r.randrange(1, 60000), r.randrange(1, 60000)
    for cs in im.codestreams():
        f = cs.siz.fields
        for a, v in (("x", w), ("y", h)):
            f.set(a + "siz", v)
            f.set(a + "Osiz", 0)
            f.set(a + "TOsiz", 0)
            f.set(a + "Tsiz", v)
    if im.boxes is not None:
        ih = im.hdr(b"ihdr").fields
        ih.set("width", w)
        ih.set("height", h)
        k = r.randrange(7)
        b = im.boxes[-1] if r.random() < 0.6 else r.choice(im.boxes)
        if k == 0:
            b.lenadj = g.pick(r, 1, 2, 8, 100, 5000, 10 ** 6, 2 ** 30)
        elif k == 1:
            b.mode = "x"
            b.lenadj = g.pick(r, 0, 1, 9, 5000, 2 ** 40)
        elif k == 2:
            im.boxes[-1].mode = "z"
        elif k == 3:
            im.boxes.append(g.box_unknown(r))
            im.boxes[-1].lenadj = g.pick(r, 1, 1000, 2 ** 31)
    elif r.random() < 0.5:
        cs = im.codestreams()[0]
        cs.tps[-1].psotadj = g.pick(r, 1, 100, 10 ** 6, -1)
    data = im.ser()
    k = r.randrange(6)
    if k == 0:
        data += g.rbytes(r, g.pick(r, 1, 2, 7, 8, 9, 300, 5000))
    elif k == 1:
        data += b"\0" * g.pick(r, 1, 8, 70000)
    elif k == 2:
        data = data[:len(data) - r.randrange(1, min(40, len(data)))]
    im.notes.append("file size")
    return im, data, fmt


def run(item, ctx):
    if item[0] == "ovr":
        im, data, fmt = overrun(item, ctx.seed)
    elif item[0] == "res":
        im, data, fmt = resolution(item, ctx.seed)
    elif item[0] == "geo":
        im, data, fmt = geometry(item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
    rep, _ = diff.check_case(ctx, item, im, data, fmt, want)
    ctx.n["items_" + item[0]] += 1
    if not isinstance(rep, diff.engine.Raised):
        for e in rep.find("properties").iter():
            if e.tag in diff.DERIVED or "InPixelsPer" in str(e.tag):
                ctx.note("values_" + e.tag, e.text)
    if ctx.cases % 1997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return [k for k in ("values_compressionRatio", "values_numberOfTiles",
                        "values_vRescInPixelsPerMeter", "values_hResdInPixelsPerInch")
            if len(seen.get(k, ())) < 50]
