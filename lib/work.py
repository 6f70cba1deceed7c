"""Workloads shared by the checks: systematic sweeps and random streams of images.

Every work item is a short JSON list; make() turns it into (image, bytes, format)
deterministically from the seed."""

import copy

import jpgen as g

FMTS = ("jp2", "jph", "j2c", "jhc")
CONT = ("jp2", "jph")
RAW = ("j2c", "jhc")


# ---------------------------------------------------------------------------
# base images: for every kind of node some conforming images that contain it

_BASES = {}


def kind_of(n):
    return n.typ.decode("latin-1") if isinstance(n, g.Box) else n.tag


def nodes_by_kind(im):
    """kind -> list of nodes; marker segments in tile-parts are separate kinds."""
    out = {}
    for b in im.all_boxes():
        if b.typ in g.KNOWN_TYPES:
            out.setdefault(kind_of(b), []).append(b)
    for cs in im.codestreams():
        if cs.siz:
            out.setdefault("siz", []).append(cs.siz)
        for s in cs.segs:
            out.setdefault(s.tag, []).append(s)
        for t in cs.tps:
            for s in t.segs:
                out.setdefault(s.tag + "@tp", []).append(s)
    return out


def colr_kinds(im):
    """Colour boxes are further told apart by method."""
    out = nodes_by_kind(im)
    for b in out.pop("colr", []):
        out.setdefault("colr%d" % b.fields.get("meth"), []).append(b)
    for b in out.pop("uuid", []):
        out.setdefault("uuidx" if b.fields.get("id") == g.XMP_UUID else "uuid", []).append(b)
    for tag in ("coc", "qcc", "rgn", "poc"):
        for sfx in ("", "@tp"):
            for s in out.pop(tag + sfx, []):
                f = {"coc": "ccoc", "qcc": "cqcc", "rgn": "crgn", "poc": "cspoc"}[tag]
                w = [x[1] for x in s.fields.f if x[0] == f][0]
                out.setdefault("%s%s/%d" % (tag, sfx, w), []).append(s)
    for tag, f in (("qcd", "sq"), ("cod", "scod")):
        for sfx in ("", "@tp"):
            for s in out.pop(tag + sfx, []):
                v = s.fields.get(f)
                v = v & 31 if tag == "qcd" else v & 1
                out.setdefault("%s%s.%d" % (tag, sfx, v), []).append(s)
    return out


CSKINDS = {"siz", "cod", "coc", "qcd", "qcc", "rgn", "poc", "crg", "com", "cap", "prf", "cpf",
           "tlm", "plm", "ppm", "plt", "ppt", "unknown"}


def is_cs(kind):
    return kind.replace("@", "/").replace(".", "/").split("/")[0] in CSKINDS


def bases(seed, fmt, per=5):
    """{kind: [image, ...]}"""
    key = (seed, fmt)
    if key in _BASES:
        return _BASES[key]
    out = {}
    if fmt in CONT:
        # box kinds: rich container around a small codestream
        _collect(out, seed, fmt, per, False,
                 lambda r, i: g.image(r, fmt, small=True, rich=0.0,
                                      csiz=None if i % 9 else r.randrange(1, 9)))
    # segment kinds: rich codestream, minimal container
    _collect(out, seed, fmt, per, True,
             lambda r, i: g.image(r, fmt, small=True, rich=0.9, plain=True,
                                  csiz=r.randrange(257, 262) if i % 5 == 4 else None))
    _BASES[key] = out
    return out


def _collect(out, seed, fmt, per, cs, fn):
    i = since = 0
    while i < 1500 and since < 300:
        r = g.rng(seed, "base", fmt, cs, i)
        im = fn(r, i)
        i += 1
        new = False
        wide = im.codestreams()[0].siz.fields.get("csiz") > 256
        if len(im.ser()) > (4000 if wide else 1800):
            since += 1
            continue
        for k in colr_kinds(im):
            if is_cs(k) != cs or (wide and not k.endswith("/2") and k != "siz"):
                continue
            l = out.setdefault(k, [])
            if len(l) < per:
                l.append(im)
                new = True
        since = 0 if new else since + 1


# ---------------------------------------------------------------------------
# value lists

def core_values(n):
    """Values that are always tried: boundaries and powers of two."""
    top = (1 << (8 * n)) - 1
    vals = set(g.boundary(None, n))
    for k in range(8 * n):
        vals |= {1 << k, (1 << k) - 1, (1 << k) + 1}
    return {v for v in vals if v <= top}


def int_values(n, tier):
    top = (1 << (8 * n)) - 1
    if n == 1:
        return list(range(256))
    vals = set(g.boundary(None, n))
    for k in range(8 * n):
        vals |= {1 << k, (1 << k) - 1, (1 << k) + 1}
    vals |= set(range(0, 66))
    if tier == "thorough" and n == 2:
        vals |= set(range(0, 65536, 37))
    return sorted(v for v in vals if v <= top)


CODES = [b"jp2 ", b"jph ", b"jpx ", b"JP2 ", b"jp2\0", b"\r\n\x87\n", b"\n\r\x87\n", b"acsp",
         b"scnr", b"mntr", b"prtr", b"link", b"spac", b"abst", b"nmcl", b"SCNR", b"A2B0", b"A2B1",
         b"a2b0", b"B2A0", b"desc", b"DESC", b"APPL", b"MSFT", b"SGI ", b"SUNW", b"TGNT", b"RGB ",
         b"GRAY", b"Lab ", b"XYZ ", b"\0\0\0\0", b"\xff\xff\xff\xff", b"    ", b"a\0bc", b"\x01\x02ab",
         "é€".encode()[:4], b"\xc3\x28ab", b"<a>&", b"jpm ", b"mjp2", b"jpch", b"jhc ", b"j2c "]


SKIP_SWEEP = {"unknown", "tlm", "ppm", "ppt", "ppt@tp"}


def sweep_fields(seed, fmt, tier, want=None, frac=1.0, core=1.0, half=None):
    """Items setting every field of every kind of node to every listed value;
    frac: share of the non-core values tried in this run; half (0 or 1): that half of the
    values in any case, so that two formats together try all of them."""
    out = []
    r = g.rng(seed, "sweep", fmt)
    if tier == "thorough":
        frac = core = 1.0
    for kind, ims in sorted(bases(seed, fmt).items()):
        if kind.split("@")[0] in SKIP_SWEEP or (want and not want(kind)):
            continue
        node = colr_kinds(ims[0])[kind][0]
        if node.__dict__.get("kids") is not None or node.__dict__.get("cs") is not None:
            continue
        widths = {}
        for im in ims:
            for nd in colr_kinds(im)[kind]:
                for name, w, v in nd.fields.f:
                    widths.setdefault(name, (w, isinstance(v, bytes)))
        for name, (w, isb) in sorted(widths.items()):
            if isb:
                if w == 4:
                    out += [["f", fmt, kind, name, k] for k in range(len(CODES))]
                else:
                    out += [["f", fmt, kind, name, k] for k in range(24)]
            else:
                must = core_values(w)
                odd = seed + len(kind) + len(name)
                vals = [v for j, v in enumerate(int_values(w, tier))
                        if r.random() < (core if v in must else frac) or (j + odd) % 2 == half]
                out += [["f", fmt, kind, name, v] for v in vals]
    return out


def make_field(item, seed, salt=0):
    _, fmt, kind, name, v = item[:5]
    r = g.rng(seed, "f", item, salt)
    ims = [im for im in bases(seed, fmt)[kind]
           if any(n.fields.has(name) for n in colr_kinds(im)[kind])]
    im = r.choice(ims).copy()
    nodes = [n for n in colr_kinds(im)[kind] if n.fields.has(name)]
    n = r.choice(nodes)
    f = r.choice([x for x in n.fields.f if x[0] == name])
    if isinstance(f[2], bytes):
        if f[1] == 4:
            f[2] = CODES[v]
        else:
            b = bytearray(f[2])
            if f[1] is None and v % 3 == 0:
                b = b[:r.randrange(len(b) + 1)]
            elif f[1] is None and v % 3 == 1:
                b += g.rbytes(r, r.randrange(1, 6))
            elif b:
                b[r.randrange(len(b))] = r.randrange(256)
            f[2] = bytes(b)
    else:
        f[2] = v
    im.notes.append("%s.%s := %r" % (kind, name, f[2]))
    return im, im.ser(), fmt


def make_pair(item, seed, salt=0):
    """Two (or more) fields of the same node set together."""
    _, fmt, kind = item[:3]
    r = g.rng(seed, "p", item, salt)
    im = r.choice(bases(seed, fmt)[kind]).copy()
    n = r.choice(colr_kinds(im)[kind])
    for name, v in item[3:]:
        fs = [x for x in n.fields.f if x[0] == name]
        if fs:
            f = fs[0] if len(fs) == 1 else fs[-1]
            f[2] = v % (1 << 8 * f[1])
            im.notes.append("%s.%s := %r" % (kind, name, f[2]))
    if r.random() < 0.5 and any(x[0] == "levels" for x in n.fields.f) and item[3][0] in ("scod", "scoc"):
        # make the number of precinct bytes fit
        user = n.fields.get(item[3][0]) & 1
        lev = n.fields.get("levels")
        n.fields.f = [x for x in n.fields.f if x[0] != "precinct"]
        if user:
            n.fields.f += [["precinct", 1, 0x11 + r.randrange(0xEE)] for _ in range(lev + 1)]
    return im, im.ser(), fmt


def sweep_lengths(seed, fmt, want=None):
    out = []
    for kind in sorted(bases(seed, fmt)):
        if want and not want(kind):
            continue
        for op in ("adj", "cut", "ext"):
            out += [["l", fmt, kind, op, k] for k in range(12)]
        out += [["l", fmt, kind, "over", k] for k in range(len(OVER))]
        if isinstance(colr_kinds(bases(seed, fmt)[kind][0])[kind][0], g.Box):
            out += [["l", fmt, kind, "xl", k] for k in range(len(XL))]
    return out


OVER = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 24, 41, 42, 43, 44, 45, 46,
        196, 197, 198, 199, 200, 255, 256, 49190, 49191, 65534, 65535, 2 ** 31, 2 ** 32 - 1]


# errors in a 64 bit length
XL = [0, 1, -1, 8, -8, -16, 1 << 8, 1 << 16, 1 << 24, 1 << 32, 1 << 40, 1 << 48, 1 << 56, 1 << 63,
      (1 << 32) - 1, -1 << 32, (1 << 64) - 1 - (1 << 32)]


def make_length(item, seed, salt=0):
    _, fmt, kind, op, k = item[:5]
    r = g.rng(seed, "l", item, salt)
    im = r.choice(bases(seed, fmt)[kind]).copy()
    n = r.choice(colr_kinds(im)[kind])
    if op == "adj":
        n.lenadj = [-1, 1, -2, 2, -3, 3, -4, 4, -8, 8, 16, -16][k]
    elif op == "over":
        n.lenover = OVER[k]
    elif op == "xl":
        if isinstance(n, g.Box):
            n.mode = "x"
            n.lenadj = XL[k]
    elif n.__dict__.get("kids") is not None or n.__dict__.get("cs") is not None:
        if op == "cut" and n.kids:
            n.kids = n.kids[:k % (len(n.kids) + 1)]
        elif n.kids is not None:
            n.kids.append(g.Box(b"ab", g.Fields(("raw", None, g.rbytes(r, k)))))
        else:
            n.mode = "x"
    elif op == "cut":
        body = n.fields.ser()
        c = len(body) - 1 - k if k < 6 else r.randrange(len(body) + 1)
        n.fields = g.Fields(("raw", None, body[:max(0, c)]))
    else:
        n.fields.f.append(["pad", None, g.rbytes(r, k + 1)])
    im.notes.append("length %s %s %d" % (kind, op, k))
    return im, im.ser(), fmt


TPOPS = ([["isot", v] for v in (0, 1, 2, 3, 5, 11, 12, 100, 255, 256, 1000, 65533, 65534, 65535)] +
         [["tpsot", v] for v in range(256)] + [["tnsot", v] for v in range(256)] +
         [["psot", v] for v in list(range(0, 40)) + [100, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]] +
         [["psotadj", v] for v in list(range(-30, 31)) + [256, 65536, -256]] +
         [["lsot", v] for v in list(range(0, 24)) + [255, 256, 65535]] +
         [["sod", v] for v in range(8)] + [["eoc", v] for v in range(10)] +
         [["del", v] for v in range(24)] + [["dup", v] for v in range(24)] +
         [["swap", v] for v in range(24)] + [["seg", v] for v in range(60)] +
         [["segs", v] for v in range(40)] + [["pay", v] for v in range(24)])

_SODS = [b"", b"\xff\x92", b"\xff\x93\xff\x93", b"\x00\x93", b"\xff", b"\xff\x94", b"\xff\x64\x00\x02\xff\x93",
         b"\xff\x30\xff\x93"]
_EOCS = [b"", b"\xff", b"\xff\xd8", b"\xd9\xff", b"\xff\xd9\x00", b"\x00\xff\xd9", b"\xff\xd9\xff\xd9",
         b"\xff\x90", b"\xff\x4f", b"\xfe\xd9"]


def sweep_tileparts(fmt):
    return [["t", fmt, op, v] for op, v in TPOPS]


def make_tilepart(item, seed, salt=0):
    _, fmt, op, v = item[:4]
    r = g.rng(seed, "t", item, salt)
    im = g.image(r, fmt, small=True, extras=r.random() < 0.5)
    cs = r.choice(im.codestreams())
    i = r.randrange(len(cs.tps))
    if r.random() < 0.3:
        i = 0
    elif r.random() < 0.3:
        i = len(cs.tps) - 1
    t = cs.tps[i]
    csiz = cs.siz.fields.get("csiz")
    if op in ("isot", "tpsot", "tnsot", "psot", "psotadj", "lsot"):
        setattr(t, op, v)
    elif op == "sod":
        t.sod = _SODS[v]
    elif op == "eoc":
        cs.eoc = _EOCS[v]
    elif op == "del":
        del cs.tps[i]
    elif op == "dup":
        cs.tps.insert(r.randrange(len(cs.tps) + 1), copy.deepcopy(t))
    elif op == "swap":
        j = r.randrange(len(cs.tps))
        cs.tps[i], cs.tps[j] = cs.tps[j], cs.tps[i]
    elif op == "seg":
        s = [g.seg_cod(r, fmt), g.seg_qcd(r), g.seg_coc(r, fmt, csiz, 0), g.seg_qcc(r, csiz, 0),
             g.seg_rgn(r, fmt, csiz, 0), g.seg_poc(r, csiz), g.seg_plt(r), g.seg_com(r),
             g.seg_ppt(r), g.seg_unknown(r)][v % 10]
        t.segs.insert(r.randrange(len(t.segs) + 1), s)
    elif op == "segs":
        k = r.randrange(2, 6)
        for _ in range(k):
            c = r.randrange(min(csiz, 3))
            t.segs.append([g.seg_coc(r, fmt, csiz, c), g.seg_qcc(r, csiz, c)][v % 2])
    elif op == "pay":
        t.payload = g.pick(r, b"\xff\xd9", b"\xff\x90\x00\x0a", g.rbytes(r, 20), b"\xff\xd9\xff\xd9",
                           b"\xff\x90\x00\x0a\x00\x00\x00\x00\x00\x0e\x00\x01\xff\x93")
    im.notes.append("tile-part %d: %s %r" % (i, op, v))
    return im, im.ser(), fmt


def struct_lists(im):
    """Named sibling lists."""
    out = []
    if im.boxes is not None:
        out.append(("top", im.boxes))
        out += [(kind_of(b), b.kids) for b in im.all_boxes() if b.kids is not None]
    for cs in im.codestreams():
        out.append(("main", cs.segs))
        for t in cs.tps:
            out.append(("tp", t.segs))
    return out


OPS = ("del", "dupadj", "dupfirst", "duplast", "first", "last", "swapnext", "swapprev", "unknown",
       "delall", "dupfar", "third")


def sweep_struct(seed, fmt, want=None):
    seen = set()
    for kind, ims in bases(seed, fmt).items():
        for im in ims:
            for name, l in struct_lists(im):
                for x in l:
                    k = kind_of(x)
                    if isinstance(x, g.Box) and x.typ not in g.KNOWN_TYPES:
                        k = "unk"
                    seen.add((name, k))
    return [["s", fmt, a, b, op, v] for a, b in sorted(seen) if not want or want(a, b)
            for op in OPS for v in range(3)]


def make_struct(item, seed, salt=0):
    _, fmt, ln, kind, op, v = item[:6]
    r = g.rng(seed, "s", item, salt)
    im = None
    for attempt in range(60):
        im = g.image(g.rng(seed, "s", item, salt, attempt), fmt, small=True, rich=0.9)
        cand = [(l, i) for name, l in struct_lists(im) if name == ln for i, x in enumerate(l)
                if kind_of(x) == kind or (kind == "unk" and isinstance(x, g.Box) and
                                          x.typ not in g.KNOWN_TYPES)]
        if cand:
            break
    else:
        return im, im.ser(), fmt
    l, i = r.choice(cand)
    x = l[i]
    k = kind_of(x)
    if op == "del":
        l.pop(i)
    elif op == "delall":
        l[:] = [y for y in l if kind_of(y) != k]
    elif op == "dupadj":
        l.insert(i, copy.deepcopy(x))
    elif op == "dupfirst":
        l.insert(0, copy.deepcopy(x))
    elif op == "duplast":
        l.append(copy.deepcopy(x))
    elif op == "dupfar":
        l.insert(r.randrange(len(l) + 1), copy.deepcopy(x))
    elif op == "first":
        l.insert(0, l.pop(i))
    elif op == "third":
        l.insert(min(2, len(l)), l.pop(i))
    elif op == "last":
        l.append(l.pop(i))
    elif op == "swapnext" and i + 1 < len(l):
        l[i], l[i + 1] = l[i + 1], l[i]
    elif op == "swapprev" and i:
        l[i], l[i - 1] = l[i - 1], l[i]
    elif op == "unknown":
        l[i] = g.box_unknown(r) if isinstance(x, g.Box) else g.seg_unknown(r)
    im.notes.append("struct %s/%s %s" % (ln, kind, op))
    return im, im.ser(), fmt


# ---------------------------------------------------------------------------
# random streams

def make_random(item, seed, salt=0):
    what, fmt, i = item[:3]
    r = g.rng(seed, what, fmt, i, salt)
    f2 = fmt
    if what == "conf":
        im = g.image(r, fmt)
        return im, im.ser(), fmt
    if what == "mut":
        im = g.image(r, fmt, small=r.random() < 0.9)
        for _ in range(g.pick(r, 1, 1, 1, 2, 4)):
            g.mutate(r, im)
        return im, im.ser(), fmt
    if what == "cross":
        src = r.choice(FMTS)
        im = g.image(r, src, small=True)
        if r.random() < 0.3:
            g.mutate(r, im)
        return im, im.ser(), fmt
    # hostile bytes
    im = g.image(r, fmt if r.random() < 0.8 else r.choice(FMTS), small=True)
    if r.random() < 0.5:
        for _ in range(g.pick(r, 1, 2, 4)):
            g.mutate(r, im)
    d = g.hostile(r, im.ser(), g.image(r, r.choice(FMTS), small=True).ser()
                  if r.random() < 0.2 else b"")
    return im, d, fmt


def stream(what, n, fmts=FMTS):
    return [[what, fmts[i % len(fmts)], i] for i in range(n)]


MAKERS = {"f": make_field, "p": make_pair, "l": make_length, "t": make_tilepart, "s": make_struct,
          "conf": make_random, "mut": make_random, "host": make_random, "cross": make_random}


def make(item, seed, salt=0):
    if item[0] == "x":
        import extremes
        return extremes.make(item, seed)
    if item[0] == "n":
        import extremes
        return extremes.make_sized(item, seed)
    if item[0] == "b":
        import bulk
        return bulk.make_item(item, seed)
    return MAKERS[item[0]](item, seed, salt)


def thin(items, n, r):
    """At most n items, chosen at random but stratified by order."""
    if len(items) <= n:
        return items
    idx = sorted(r.sample(range(len(items)), n))
    return [items[i] for i in idx]


def shuffled(items, seed):
    items = list(items)
    g.rng(seed, "order").shuffle(items)
    return items
