"""C16: embedded metadata."""
import bulk
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C16"


def want(areas, path):
    return "meta" in areas or "verdict" in areas


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["meta", f, i] for f in work.CONT for i in range(7500 * k)]
    for fmt in work.CONT:
        out += work.sweep_fields(seed, fmt, tier,
                                 lambda q: q in ("xml ", "uuid", "uuidx", "ulst", "url "), 0.5)
        out += work.sweep_lengths(seed, fmt, lambda q: q in ("xml ", "uuid", "uuidx", "ulst", "url ", "uinf"))
        out += work.sweep_struct(seed, fmt, lambda a, b: a == "uinf" or b in ("xml ", "uuid", "uinf"))
    out += work.stream("conf", 1500 * k, work.CONT)
    out += extremes.items("meta")
    out += extremes.sized("meta", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: w == "in" or k in ("xml", "uuid", "uinf", "url", "ulst", "-") and
                      w not in ("main", "tp", "parts", "tiles"), work.CONT)
    # documents of one to four megabytes
    out += [["b", work.CONT[i % 2], "in", k, n + i, 0] for i, k in enumerate(
        ("elems", "text", "comment", "depths", "entities", "nulls", "cdata", "ns", "loc", "attrs"))
            for n in ((300000,) if k != "attrs" else (30000,))]
    return work.shuffled(out, seed)


XSI = "http://www.w3.org/2001/XMLSchema-instance"
VOCABULARY = [
    '<{p}:mets xmlns:{p}="http://www.loc.gov/METS/" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xsi="%s" '
    'xsi:schemaLocation="http://www.loc.gov/METS/ mets.xsd" schemaLocation="{t}" OBJID="{t}"><{p}:FLocat '
    'xlink:href="{t}" href="x" LOCTYPE="URL"/></{p}:mets>' % XSI,
    '<gml:FeatureCollection xmlns="http://www.opengis.net/gml" xmlns:gml="http://www.opengis.net/gml" '
    'xmlns:xsi="%s" xsi:schemaLocation="{t} {t}"><gml:boundedBy><gml:Null>withheld</gml:Null></gml:boundedBy>'
    '<rectifiedGridDomain xsi:nil="true" xsi:type="gml:T" type="{t}" gml:id="{t}" id="{t}">{t}</rectifiedGridDomain>'
    '</gml:FeatureCollection>' % XSI,
    '<a xml:lang="en" lang="de" xml:space="preserve" xml:id="i1" id="i2" xml:base="http://b/">  {t}  <b/>  </a>',
    '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"><use xlink:href="#{p}"/>'
    '<text x="1" y="2">{t}<tspan>{t}</tspan>{t}</text></svg>',
    '<file><fileInfo/><isValid format="jp2">False</isValid><tests><x>False</x></tests><properties>{t}</properties></file>',
    '<jpylyzer xmlns="http://openpreservation.org/ns/jpylyzer/v2/"><toolInfo/><{p}>{t}</{p}></jpylyzer>',
    '<mix:mix xmlns:mix="http://www.loc.gov/mix/v20"><mix:{p} a="{t}">{t}</mix:{p}></mix:mix>',
    '<p:a xmlns:p="urn:1"><p:b xmlns:p="urn:2" p:c="{t}" c="{t}"><p:d/></p:b><p:e/></p:a>',
    '<a xmlns="urn:1"><b xmlns=""><c xmlns="urn:1"/>{t}</b></a>',
    '<!DOCTYPE a [<!ENTITY e "{t}"><!ATTLIST a k CDATA "dflt">]><a>&e;<b>x</b></a>',
    '<meth>1</meth>', '<siz><csiz>9</csiz><ssizDepth>3</ssizDepth>{t}</siz>', '<boxType>{t}</boxType>',
]


def vocabulary(r):
    d = r.choice(VOCABULARY).replace("{p}", r.choice(["mets", "m", "p1", "x"])).replace(
        "{t}", r.choice(["t", "a b", "\u00e9\u4e2d", "1.5", ""]))
    return (g.pick(r, "", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>\n") + d).encode()


def content(r):
    k = r.random()
    if k < 0.08:
        return vocabulary(r)
    if k < 0.45:
        return g.xml_doc(r)
    if k < 0.6:
        return g.xmp_doc(r)
    if k < 0.72:
        return g.bad_xml(r)
    if k < 0.84:
        d = g.xml_doc(r) if r.random() < 0.6 else g.xmp_doc(r)
        return d + b"\0" * g.pick(r, 1, 1, 2, 7)
    if k < 0.88:
        return g.bad_xml(r) + b"\0" * g.pick(r, 1, 2)
    d = bytearray(g.xml_doc(r))
    for _ in range(g.pick(r, 1, 1, 3)):
        p = r.randrange(len(d) + 1)
        d[p:p + g.pick(r, 0, 1, 4)] = g.pick(r, b"", b"<", b">", b"&", b"\0", b"\xff", b"&amp;", b"&#10;",
                                            b"]]>", b" ", b"<!--", b"<a/>", b"\"", b"'", b"\r\n", b"\xc2\xa0")
    return bytes(d)


def url(r):
    loc = g.pick(r, b"", b"http://example.org/", "http://é漢.org/?q=<&>".encode(), b"\xff\xfe", b"a\0b",
                 g.text(r, r.randrange(1, 30)).encode(), b"\xc3\x28", b"\xe2\x82", b"x" * 300)
    end = g.pick(r, b"\0", b"\0", b"\0", b"", b"\0\0", b"\n")
    return g.Box(b"url ", g.Fields(("version", 1, g.pick(r, 0, 0, 0, 0, 1, 255)),
                                   ("flag", 3, g.pick(r, 0, 0, 0, 0, 1, 65536, 2 ** 24 - 1)),
                                   ("loc", None, loc + end)))


def ulst(r):
    n = g.pick(r, 0, 1, 2, 3, 12, 40)
    m = n + g.pick(r, 0, 0, 0, 0, 1, -1)
    f = g.Fields(("nU", 2, max(0, m)), *[("id", 16, g.pick(r, g.rbytes(r, 16), g.XMP_UUID, b"\0" * 16,
                                                         b"\xff" * 16)) for _ in range(n)])
    return g.Box(b"ulst", f)


def near(r):
    u = bytearray(g.XMP_UUID)
    u[r.randrange(16)] ^= 1 << r.randrange(8)
    return bytes(u)


def meta(item, seed):
    _, fmt, i = item
    r = g.rng(seed, "meta", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.0, plain=True)
    for _ in range(g.pick(r, 1, 1, 2, 4)):
        k = r.random()
        if k < 0.4:
            b = g.Box(b"xml ", g.Fields(("data", None, content(r))))
        elif k < 0.65:
            b = g.Box(b"uuid", g.Fields(("id", 16, g.XMP_UUID), ("data", None, content(r))))
        elif k < 0.8:
            b = g.Box(b"uuid", g.Fields(("id", 16, g.pick(r, near(r), g.rbytes(r, 16), b"\0" * 16)), (
                "data", None, g.pick(r, content(r), g.rbytes(r, 9), b"", b"\0"))))
        else:
            kids = [ulst(r), url(r)]
            if r.random() < 0.2:
                r.shuffle(kids)
            if r.random() < 0.2:
                kids.append(g.pick(r, ulst(r), url(r), g.box_unknown(r)))
            if r.random() < 0.1:
                kids.pop(r.randrange(len(kids)))
            b = g.Box(b"uinf", kids=kids)
        if r.random() < 0.1:
            b.mode = "x"
        im.boxes.insert(r.randrange(2, len(im.boxes) + 1), b)
    if r.random() < 0.1:
        im.boxes[-1].mode = "z"
    return im, im.ser(), fmt


def run(item, ctx):
    if item[0] == "meta":
        im, data, fmt = meta(item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
    nullxml = ctx.odd(3) == 1
    rep, _ = diff.check_case(ctx, item, im, data, fmt, want, nullxml=nullxml)
    ctx.n["items_" + item[0]] += 1
    if not isinstance(rep, diff.engine.Raised):
        p = rep.find("properties")
        for t in ("xmlBox", "uuidBox"):
            for e in p.findall(t):
                ctx.n["documents_" + t] += len(e)
                for q in e.iter():
                    ctx.note("xml_elements", str(q.tag))
        for e in p.findall("uuidInfoBox/uuidListBox/uuid"):
            ctx.note("uuids", e.text)
    if ctx.cases % 1997 == 0:
        ctx.sample(data[-200:])


def gaps(n, seen):
    return [k for k in ("documents_xmlBox", "documents_uuidBox") if n[k] < 100]
