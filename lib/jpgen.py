"""Workload generator: JPEG 2000 images as editable structures.

An image is built from nodes whose fields can be addressed individually, so that
conforming images, single-field boundary values, structural mutations and directed
rule violations all come from one representation.  Nothing here imports jpylyzer.
"""

import copy
import pickle
import random
import struct
import uuid as _uuid
import zlib

XMP_UUID = _uuid.UUID("be7acfcb-97a9-42e8-9c71-999491e3afac").bytes


class Fields:
    """Ordered list of [name, nbytes or None, value]."""

    def __init__(self, *items):
        self.f = [list(i) for i in items]

    def get(self, name, k=0):
        return [x for x in self.f if x[0] == name][k][2]

    def set(self, name, value, k=0):
        [x for x in self.f if x[0] == name][k][2] = value

    def names(self):
        return [x[0] for x in self.f]

    def has(self, name):
        return any(x[0] == name for x in self.f)

    def ser(self):
        out = []
        for _, n, v in self.f:
            if isinstance(v, bytes):
                out.append(v)
            else:
                out.append((v & ((1 << (8 * n)) - 1)).to_bytes(n, "big"))
        return b"".join(out)


class Box:
    """A JP2 box: leaf (fields) or superbox (kids) or codestream holder (cs)."""

    def __init__(self, typ, fields=None, kids=None, cs=None, mode="n"):
        self.typ = typ
        self.fields = fields
        self.kids = kids
        self.cs = cs
        self.mode = mode      # n: 32 bit length, x: extended, z: zero
        self.lenadj = 0       # error added to the declared length
        self.lenover = None   # declared length replaced

    def body(self):
        if self.kids is not None:
            return b"".join(k.ser() for k in self.kids)
        if self.cs is not None:
            return self.cs.ser()
        return self.fields.ser()

    def ser(self):
        b = self.body()
        if self.mode == "x":
            n = len(b) + 16 + self.lenadj
            if self.lenover is not None:
                n = self.lenover
            return (struct.pack(">I", 1) + self.typ +
                    (n % 2 ** 64).to_bytes(8, "big") + b)
        n = len(b) + 8 + self.lenadj
        if self.mode == "z":
            n = 0
        if self.lenover is not None:
            n = self.lenover
        return (n % 2 ** 32).to_bytes(4, "big") + self.typ + b


class Seg:
    """A marker segment; the length field is computed unless overridden."""

    def __init__(self, tag, marker, fields, raw=False):
        self.tag = tag
        self.marker = marker
        self.fields = fields
        self.lenover = None
        self.lenadj = 0

    def ser(self):
        b = self.fields.ser()
        n = len(b) + 2 + self.lenadj
        if self.lenover is not None:
            n = self.lenover
        return struct.pack(">HH", self.marker, n % 65536) + b


class TilePart:
    def __init__(self, isot, tpsot, tnsot, segs, payload):
        self.isot, self.tpsot, self.tnsot = isot, tpsot, tnsot
        self.segs, self.payload = segs, payload
        self.psot = None       # None: correct value
        self.psotadj = 0
        self.lsot = 10
        self.sod = b"\xff\x93"

    def tail(self):
        return b"".join(s.ser() for s in self.segs) + self.sod + self.payload

    def ser(self):
        t = self.tail()
        n = 12 + len(t) + self.psotadj
        if self.psot is not None:
            n = self.psot
        return struct.pack(">HHHIBB", 0xFF90, self.lsot % 65536, self.isot % 65536,
                           n % 2 ** 32, self.tpsot & 255, self.tnsot & 255) + t


class CS:
    def __init__(self, siz, segs, tps):
        self.soc = b"\xff\x4f"
        self.siz = siz
        self.segs = segs
        self.tps = tps
        self.eoc = b"\xff\xd9"

    def ser(self):
        return (self.soc + (self.siz.ser() if self.siz else b"") +
                b"".join(s.ser() for s in self.segs) +
                b"".join(t.ser() for t in self.tps) + self.eoc)


class Image:
    def __init__(self, fmt, boxes=None, cs=None):
        self.fmt = fmt
        self.boxes = boxes
        self.cs = cs
        self.notes = []
        self.frozen = None     # pickled form, for base images that are copied often

    def ser(self):
        if self.boxes is not None:
            return b"".join(b.ser() for b in self.boxes)
        return self.cs.ser()

    def copy(self):
        if self.frozen is None:
            self.frozen = pickle.dumps(self, -1)
        return pickle.loads(self.frozen)

    # -- navigation
    def codestreams(self):
        if self.cs is not None:
            return [self.cs]
        return [b.cs for b in self.boxes if b.cs is not None]

    def box(self, typ, parent=None):
        for b in (self.boxes if parent is None else parent.kids):
            if b.typ == typ:
                return b
        return None

    def jp2h(self):
        return self.box(b"jp2h")

    def hdr(self, typ):
        h = self.jp2h()
        return None if h is None else self.box(typ, h)

    def all_boxes(self):
        out = []

        def walk(bs):
            for b in bs:
                out.append(b)
                if b.kids is not None:
                    walk(b.kids)
        if self.boxes is not None:
            walk(self.boxes)
        return out

    def all_segs(self):
        out = []
        for cs in self.codestreams():
            if cs.siz:
                out.append(cs.siz)
            out += cs.segs
            for t in cs.tps:
                out += t.segs
        return out

    def leaf_nodes(self):
        return [b for b in self.all_boxes() if b.fields is not None] + self.all_segs()


# ---------------------------------------------------------------------------
# random material

def pick(r, *xs):
    return xs[r.randrange(len(xs))]


def u32(r, lo=0, hi=2 ** 32 - 1):
    """Skewed random integer: small, boundary or uniform."""
    k = r.random()
    if k < 0.35:
        v = lo + r.randrange(0, 64)
    elif k < 0.5:
        v = hi - r.randrange(0, 3)
    elif k < 0.75:
        v = 1 << r.randrange(0, 32)
    else:
        v = r.randrange(lo, hi + 1)
    return min(max(v, lo), hi)


def rbytes(r, n):
    return r.randbytes(n)


ALPHA = ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
         "éßøЖДω漢字あ€ñ𝄞😀")
SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def text(r, n, specials=True):
    out = []
    for _ in range(n):
        k = r.random()
        if specials and k < 0.08:
            out.append(pick(r, " ", "  ", "\t", "\n", "-", ".", ",", ":", ";", "'", '"',
                            "&", "<", ">", "]]>", "=", "/", "%"))
        elif k < 0.2:
            out.append(" ")
        else:
            out.append(r.choice(ALPHA if specials else SAFE))
    return "".join(out)


def payload(r, n):
    """Packet data: no marker codes, and not ending with 0xFF."""
    b = bytearray(rbytes(r, n))
    for i in range(len(b)):
        if b[i] == 0xFF and (i + 1 == len(b) or b[i + 1] > 0x8F):
            b[i] = 0x7E
    return bytes(b)


# ---------------------------------------------------------------------------
# XML

def xml_name(r):
    return r.choice("abcdefgTUVxyz_") + "".join(
        r.choice(SAFE + "-._é") for _ in range(r.randrange(0, 5)))


def esc(s, attr=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    if attr:
        s = s.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    return s


NSURIS = ["http://example.org/a", "urn:b", "http://ns.adobe.com/xap/1.0/",
          "http://www.w3.org/1999/xlink", "urn:uuid:1234", "http://example.org/ns?x=1&y=2",
          "a b", " urn:c", "urn:d ", "no uri", "\u00e9 \u4e2d", "%", "a  b c"]


def xml_tree(r, depth=0, prefixes=()):
    name = xml_name(r)
    attrs, names = [], set()
    pfx = list(prefixes)
    if r.random() < (0.5 if depth == 0 else 0.12):
        p = xml_name(r)
        uri = r.choice(NSURIS)
        if not p.lower().startswith("xml"):
            attrs.append('xmlns:%s="%s"' % (p, esc(uri, True)))
            pfx = [(q, w) for q, w in pfx if q != p and w != uri] + [(p, uri)]
    if r.random() < 0.15:
        attrs.append('xmlns="%s"' % esc(r.choice(NSURIS[:2]), True))
    if pfx and r.random() < 0.4:
        name = r.choice(pfx)[0] + ":" + name
    for _ in range(r.randrange(0, 3)):
        n = xml_name(r)
        if n in names or n.lower().startswith("xml"):
            continue
        names.add(n)
        if pfx and r.random() < 0.3:
            n = r.choice(pfx)[0] + ":" + n
        attrs.append('%s="%s"' % (n, esc(text(r, r.randrange(0, 8)), True)))
    if r.random() < 0.08:
        attrs.append('xml:lang="en"')
    head = "<" + " ".join([name] + attrs)
    kids = []
    nk = r.randrange(0, 4) if depth < 4 else 0
    for _ in range(nk):
        k = r.random()
        if k < 0.5:
            kids.append(xml_tree(r, depth + 1, tuple(pfx)))
        elif k < 0.8:
            kids.append(esc(text(r, r.randrange(1, 12))))
        elif k < 0.87:
            kids.append("<![CDATA[" + text(r, 6).replace("]]>", "") + "]]>")
        elif k < 0.93:
            kids.append("<!-- " + text(r, 5, False) + " -->")
        elif k < 0.96:
            kids.append("<?pi " + text(r, 5, False) + "?>")
        else:
            kids.append("&#x%X;&#65;" % r.randrange(0xA1, 0xAC))
    if not kids and r.random() < 0.5:
        return head + "/>"
    return head + ">" + "".join(kids) + "</" + name + ">"


MOCK = {
    "jp2HeaderBox": ["imageHeaderBox", "bitsPerComponentBox", "colourSpecificationBox", "resolutionBox", "channelDefinitionBox"],
    "imageHeaderBox": ["height", "width", "nC", "bPCSign", "bPCDepth", "c", "unkC", "iPR"],
    "bitsPerComponentBox": ["bPCSign", "bPCDepth", "bPCDepth"],
    "colourSpecificationBox": ["meth", "prec", "approx", "enumCS", "icc"],
    "icc": ["profileSize", "profileClass", "colourSpace", "description", "tag"],
    "channelDefinitionBox": ["n", "cN", "cTyp", "cAssoc"],
    "resolutionBox": ["captureResolutionBox", "displayResolutionBox"],
    "captureResolutionBox": ["vRcN", "hRescInPixelsPerMeter", "vRescInPixelsPerMeter", "hRescInPixelsPerInch"],
    "displayResolutionBox": ["vRdN", "hResdInPixelsPerMeter", "vResdInPixelsPerMeter"],
    "contiguousCodestreamBox": ["siz", "cod", "coc", "qcd", "com", "tileParts", "ppmCount", "plmCount"],
    "siz": ["lsiz", "rsiz", "xsiz", "ysiz", "xOsiz", "yOsiz", "xTsiz", "yTsiz", "numberOfTiles", "csiz", "ssizSign", "ssizDepth"],
    "cod": ["lcod", "layers", "levels", "transformation", "order"],
    "coc": ["ccoc", "levels"],
    "qcd": ["qStyle", "epsilon"],
    "com": ["rcom", "comment"],
    "tileParts": ["tilePart"],
    "tilePart": ["sot", "cod", "plt", "pltCount", "foundSODMarker"],
    "sot": ["isot", "psot", "tpsot", "tnsot"],
    "plt": ["zplt", "iplt"],
    "properties": ["jp2HeaderBox", "contiguousCodestreamBox", "compressionRatio", "xmlBox", "uuidBox"],
    "tests": ["jp2HeaderBox", "contiguousCodestreamBox", "containsSignatureBox"],
    "file": ["fileInfo", "statusInfo", "isValid", "tests", "properties", "warnings"],
    "fileInfo": ["fileName", "filePath", "fileSizeInBytes"],
    "statusInfo": ["success", "failureMessage"],
    "warnings": ["warning"],
    "uuidBox": ["uuid"],
    "xmlBox": ["containsWellformedXML"],
}


def mock_report(r):
    """Metadata that looks like (part of) a report: elements named like properties and tests."""
    def make(tag, depth):
        kids = MOCK.get(tag)
        if not kids or depth > 5:
            return "<%s>%s</%s>" % (tag, pick(r, "0", "1", "7", "255", "False", "True", "None", "x", "8.5", ""), tag)
        use = kids if r.random() < 0.5 else r.sample(kids, r.randrange(1, len(kids) + 1))
        return "<%s>%s</%s>" % (tag, "".join(make(k, depth + 1) for k in use), tag)
    body = make(r.choice(sorted(MOCK)), 0)
    return pick(r, "%s", "<r>%s</r>", "<properties>%s</properties>", "<jp2HeaderBox>%s</jp2HeaderBox>") % body


def xml_doc(r):
    """A well-formed XML document as bytes."""
    body = xml_tree(r) if r.random() < 0.85 else mock_report(r)
    k = r.random()
    if k < 0.5:
        return body.encode("utf-8")
    if k < 0.75:
        return ('<?xml version="1.0" encoding="UTF-8"?>\n' + body + pick(r, "", "\n")
                ).encode("utf-8")
    if k < 0.82:
        return b"\xef\xbb\xbf" + body.encode("utf-8")
    if k < 0.88:
        return ("\ufeff" + pick(r, "", '<?xml version="1.0" encoding="UTF-16"?>', "<?xml version='1.0' encoding='utf-16'?>\n") +
                body + pick(r, "", "\n", " ", "\r\n")).encode(pick(r, "utf-16-le", "utf-16-be"))
    if k < 0.94:
        return ('<?xml version="1.0" encoding="ISO-8859-1"?>' + body).encode(
            "iso-8859-1", "xmlcharrefreplace")
    return ("<!-- head --><?p i?>" + body + "<!-- tail -->\n").encode("utf-8")


def bad_xml(r):
    """Ill-formed content for an XML box."""
    good = xml_tree(r).encode("utf-8")
    k = r.randrange(14)
    if k == 0:
        return b""
    if k == 1:
        return good + b"<x>"
    if k == 2:
        return good + good
    if k == 3:
        return good + b"\x00"
    if k == 4:
        return b"<a>" + good
    if k == 5:
        return good[:-1]
    if k == 6:
        return b"<a b='1' b='2'/>"
    if k == 7:
        return b"<a>&undefined;</a>"
    if k == 8:
        return b"<p:a/>"
    if k == 9:
        return b"<a>\x01</a>"
    if k == 10:
        return b"<a>\xff\xfe</a>"
    if k == 11:
        return b" <?xml version='1.0'?><a/>"
    if k == 12:
        return b"<a>&#0;</a>"
    return b"text only"


RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"


def xmp_doc(r):
    """XMP packet as scanners write it."""
    vals = {}
    for k, ns in (("xmp:CreateDate", 1), ("tiff:Artist", 1), ("tiff:Make", 1),
                  ("tiff:Model", 1), ("aux:SerialNumber", 1), ("xmp:CreatorTool", 1)):
        if r.random() < 0.6:
            v = text(r, r.randrange(1, 9), False).strip() or "x"
            if k == "xmp:CreatorTool" and r.random() < 0.6:
                v += " %d.%d" % (r.randrange(20), r.randrange(10))
            vals[k] = v
    asattr = {k: r.random() < 0.5 for k in vals}
    ns = ('xmlns:rdf="%s" xmlns:xmp="http://ns.adobe.com/xap/1.0/" '
          'xmlns:tiff="http://ns.adobe.com/tiff/1.0/" '
          'xmlns:aux="http://ns.adobe.com/exif/1.0/aux/"' % RDF)
    at = "".join(' %s="%s"' % (k, esc(v, True)) for k, v in vals.items() if asattr[k])
    el = "".join("<%s>%s%s%s</%s>" % (k, pick(r, "", " ", "\n"), esc(v),
                                      pick(r, "", " "), k)
                 for k, v in vals.items() if not asattr[k])
    if r.random() < 0.05:
        inner = ""
    elif r.random() < 0.05:
        inner = "<rdf:Bag/>"
    else:
        inner = "<rdf:Description rdf:about=''%s>%s</rdf:Description>" % (at, el)
    body = '<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF %s>%s</rdf:RDF></x:xmpmeta>' % (
        ns, inner)
    if r.random() < 0.5:
        body = ('<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>' + body +
                "\n  \n<?xpacket end='w'?>")
    return body.encode("utf-8")


# ---------------------------------------------------------------------------
# ICC

def icc_profile(r, klass=None, tags=None, restricted=True, hints=None, name=None):
    h = hints or {}
    klass = klass or pick(r, b"scnr", b"mntr")
    if tags is None:
        pool = [b"desc", b"cprt", b"wtpt", b"rXYZ", b"gXYZ", b"bXYZ", b"rTRC", b"gTRC",
                b"bTRC", b"kTRC", b"vued", b"view", b"lumi", b"tech", b"A2B1", b"B2A0"]
        tags = r.sample(pool, r.randrange(0, 9))
        if r.random() < 0.8 and b"desc" not in tags:
            tags.insert(r.randrange(len(tags) + 1), b"desc")
    if name is None:
        name = text(r, r.randrange(0, 20), False)
        if r.random() < 0.2:
            name += "é€"
        if r.random() < 0.1:
            k = r.randrange(len(name) + 1)
            name = name[:k] + pick(r, "\0", "\0\0", "\t", "\n", "\x01", "\x7f") + name[k:] + pick(r, "", "z", "\0", " ")
    desc = name.encode("utf-8")
    order = list(range(len(tags)))
    r.shuffle(order)
    off = 132 + 12 * len(tags)
    off += r.randrange(0, 3) * 4
    data = bytearray(b"\0" * (off - 132 - 12 * len(tags)))
    pos = {}
    for i in order:
        if tags[i] == b"desc":
            blob = b"desc" + b"\0" * 4 + struct.pack(">I", len(desc) + 1) + desc + b"\0"
            blob += rbytes(r, r.randrange(0, 6))
        else:
            blob = pick(r, b"text", b"XYZ ", b"curv") + b"\0" * 4 + rbytes(
                r, r.randrange(0, 12))
        pos[i] = (off, len(blob))
        pad = -len(blob) % 4
        data += blob + b"\0" * pad
        off += len(blob) + pad
    size = 132 + 12 * len(tags) + len(data)
    sigs = [b"RGB ", b"GRAY", b"XYZ ", b"Lab ", b"YCbr"]
    fl = Fields(
        ("profileSize", 4, size),
        ("preferredCMMType", 4, pick(r, b"ADBE", b"appl", b"KCMS", b"\0\0\0\0", b"lcms")),
        ("verMajor", 1, pick(r, 2, 4, r.randrange(256))),
        ("verMinor", 1, pick(r, 0x10, 0x20, 0x40, r.randrange(256))),
        ("verRes", 2, 0),
        ("profileClass", 4, klass),
        ("colourSpace", 4, pick(r, *sigs)),
        ("pcs", 4, pick(r, b"XYZ ", b"Lab ")),
        ("year", 2, pick(r, 1998, 2003, 2020, r.randrange(65536))),
        ("month", 2, r.randrange(1, 13)), ("day", 2, r.randrange(1, 32)),
        ("hour", 2, r.randrange(24)), ("minute", 2, r.randrange(60)),
        ("second", 2, r.randrange(60)),
        ("signature", 4, b"acsp"),
        ("platform", 4, pick(r, b"APPL", b"MSFT", b"SGI ", b"SUNW", b"\0\0\0\0", b"abcd")),
        ("flags", 4, pick(r, 0, 1, 2, 3, 0x80000000, r.randrange(2 ** 32))),
        ("manufacturer", 4, pick(r, b"EPSO", b"HP  ", b"none")),
        ("model", 4, pick(r, b"sRGB", b"abcd", b"\0\0\0\0")),
        ("attributes", 8, pick(r, 0, 1, 2, 4, 8, 15, r.randrange(2 ** 64))),
        ("intent", 4, pick(r, 0, 1, 2, 3)),
        ("illX", 4, pick(r, 0xF6D6, r.randrange(2 ** 31))),
        ("illY", 4, pick(r, 0x10000, r.randrange(2 ** 31))),
        ("illZ", 4, pick(r, 0xD32D, r.randrange(2 ** 31))),
        ("creator", 4, pick(r, b"HP  ", b"ADBE", b"lcms")),
        ("profileID", 16, rbytes(r, 16) if r.random() < 0.5 else b"\0" * 16),
        ("reserved", 28, b"\0" * 28),
        ("tagCount", 4, len(tags)))
    for i, t in enumerate(tags):
        fl.f.append(["tagSig", 4, t])
        fl.f.append(["tagOff", 4, pos[i][0]])
        fl.f.append(["tagSize", 4, pos[i][1]])
    fl.f.append(["tagData", None, bytes(data)])
    return fl


# ---------------------------------------------------------------------------
# marker segments

UNKNOWN_MARKERS = [m for m in range(0xFF65, 0xFF90)
                   if m not in (0xFF60, 0xFF61, 0xFF63, 0xFF64)] + [0xFF54, 0xFF5A, 0xFF5B]


def seg_unknown(r, marker=None):
    m = marker or r.choice(UNKNOWN_MARKERS)
    n = pick(r, 0, 1, 2, 5, 30)
    body = rbytes(r, n)
    if n >= 4 and r.random() < 0.5:
        # contents that look like other markers
        body = pick(r, b"\xff\x90\x00\x0a", b"\xff\x93", b"\xff\xd9", b"\xff\x52\x00\x0c") + body
    return Seg("unknown", m, Fields(("raw", None, body)))


def cod_style(r, fmt):
    st = pick(r, 0, r.randrange(64))
    if fmt in ("jph", "jhc"):
        st = pick(r, 0x40, 0x40 | r.randrange(64), 0xC0 | r.randrange(64), 0)
    return st


def sp_fields(r, fmt, levels, user):
    xcb = r.randrange(2, 11)
    ycb = r.randrange(2, min(10, 12 - xcb) + 1)
    f = [("levels", 1, levels), ("cbw", 1, xcb - 2), ("cbh", 1, ycb - 2),
         ("style", 1, cod_style(r, fmt)), ("transformation", 1, r.randrange(2))]
    if user:
        for i in range(levels + 1):
            lo = 0 if i == 0 else 1
            f.append(("precinct", 1, r.randrange(lo, 16) | r.randrange(lo, 16) << 4))
    return f


def rlevels(r):
    return pick(r, 0, 1, 2, 5, 5, 6, 32, r.randrange(33))


def seg_cod(r, fmt):
    user = r.random() < 0.4
    scod = (1 if user else 0) | r.randrange(4) << 1
    return Seg("cod", 0xFF52, Fields(
        ("scod", 1, scod), ("order", 1, r.randrange(5)),
        ("layers", 2, pick(r, 1, 1, 12, 65535, r.randrange(1, 65536))),
        ("mct", 1, r.randrange(2)), *sp_fields(r, fmt, rlevels(r), user)))


def cbytes(csiz):
    return 2 if csiz >= 257 else 1


def seg_coc(r, fmt, csiz, comp):
    user = r.random() < 0.4
    lev = rlevels(r)
    if user and csiz < 257:
        lev = min(lev, 32)
    if user:
        # Lcoc must not exceed 43
        lev = min(lev, 43 - 9 - cbytes(csiz))
    return Seg("coc", 0xFF53, Fields(
        ("ccoc", cbytes(csiz), comp), ("scoc", 1, 1 if user else 0),
        *sp_fields(r, fmt, lev, user)))


def quant_fields(r, maxlen):
    style = r.randrange(3)
    guard = r.randrange(8)
    lev = rlevels(r)
    f = [("sq", 1, guard << 5 | style)]
    if style == 0:
        f += [("step1", 1, r.randrange(256)) for _ in range(3 * lev + 1)]
    elif style == 1:
        f += [("step2", 2, r.randrange(65536))]
    else:
        lev = min(lev, (maxlen - 5) // 6)
        f += [("step2", 2, r.randrange(65536)) for _ in range(3 * lev + 1)]
    return f


def seg_qcd(r):
    return Seg("qcd", 0xFF5C, Fields(*quant_fields(r, 197)))


def seg_qcc(r, csiz, comp):
    return Seg("qcc", 0xFF5D, Fields(("cqcc", cbytes(csiz), comp), *quant_fields(r, 197)))


def seg_rgn(r, fmt, csiz, comp):
    return Seg("rgn", 0xFF5E, Fields(
        ("crgn", cbytes(csiz), comp), ("roiStyle", 1, 0),
        ("roiShift", 1, r.randrange(38) if fmt in ("jph", "jhc") else
         pick(r, 0, 37, 38, 255, r.randrange(256)))))


def seg_poc(r, csiz):
    f = []
    k = cbytes(csiz)
    for _ in range(pick(r, 1, 1, 2, 5)):
        rs = pick(r, 0, 32, r.randrange(33))
        cs = pick(r, 0, r.randrange(min(csiz, 255 if k == 1 else 16383)))
        top = 255 if k == 1 else 16384
        ce = pick(r, 0, min(csiz, top), r.randrange(cs + 1, top + 1), top)
        if ce and ce <= cs:
            ce = 0
        f += [("rspoc", 1, rs), ("cspoc", k, cs),
              ("lyepoc", 2, pick(r, 1, 65535, r.randrange(1, 65536))),
              ("repoc", 1, r.randrange(rs + 1, 34)), ("cepoc", k, ce),
              ("order", 1, r.randrange(5))]
    return Seg("poc", 0xFF5F, Fields(*f))


def seg_crg(r, csiz):
    f = []
    for _ in range(csiz):
        f += [("xcrg", 2, pick(r, 0, 65535, r.randrange(65536))),
              ("ycrg", 2, pick(r, 0, r.randrange(65536)))]
    return Seg("crg", 0xFF63, Fields(*f))


LATIN = bytes([9, 10, 13] + list(range(32, 127)) + [c for c in range(160, 256) if c != 173])


def seg_com(r):
    if r.random() < 0.5:
        body = rbytes(r, pick(r, 1, 3, r.randrange(1, 40)))
        return Seg("com", 0xFF64, Fields(("rcom", 2, 0), ("ccom", None, body)))
    if r.random() < 0.4:
        t = ("%s-v%d.%d" % (text(r, r.randrange(1, 6), False), r.randrange(20),
                            r.randrange(10))).encode()
    else:
        t = bytes(r.choice(LATIN) for _ in range(r.randrange(1, 40)))
    return Seg("com", 0xFF64, Fields(("rcom", 2, 1), ("ccom", None, t)))


def seg_tlm(r):
    return Seg("tlm", 0xFF55, Fields(("raw", None, rbytes(r, r.randrange(2, 20)))))


def packet_lengths(r, n):
    """n encoded packet lengths (7 bits per byte)."""
    out = []
    for _ in range(n):
        v = pick(r, 0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 2 ** 28, 2 ** 32 - 1,
                 r.randrange(128), r.randrange(2 ** 14), r.randrange(2 ** 32))
        g = [v & 127]
        v >>= 7
        while v:
            g.append(v & 127 | 128)
            v >>= 7
        if r.random() < 0.03:
            g.append(128)      # redundant leading zero group is legal too
        out.append(bytes(reversed(g)))
    return b"".join(out)


def seg_plt(r, z=0):
    return Seg("plt", 0xFF58, Fields(("zplt", 1, z), (
        "iplt", None, packet_lengths(r, pick(r, 0, 1, 1, 2, 7, 40)))))


def seg_plm(r, z=0):
    # a single tile-part's list, which must fit the one-byte count
    d = packet_lengths(r, pick(r, 1, 2, 7, 20))
    while len(d) > 255:
        d = packet_lengths(r, 5)
    return Seg("plm", 0xFF57, Fields(("zplm", 1, z), ("nplm", 1, len(d)), ("iplm", None, d)))


def seg_ppm(r):
    return Seg("ppm", 0xFF60, Fields(("zppm", 1, 0), ("raw", None, rbytes(r, r.randrange(1, 30)))))


def seg_ppt(r):
    return Seg("ppt", 0xFF61, Fields(("zppt", 1, 0), ("raw", None, rbytes(r, r.randrange(1, 30)))))


def seg_cap(r, parts=None):
    if parts is None:
        parts = sorted(set([15] + r.sample(range(1, 33), r.randrange(0, 3))))
    pcap = 0
    for p in parts:
        pcap |= 1 << (32 - p)
    f = [("pcap", 4, pcap)]
    for p in parts:
        c = r.randrange(65536)
        if p == 15:
            c = (pick(r, 0, 0x8000, 0xC000) | r.randrange(2) << 13 | r.randrange(2) << 12 |
                 r.randrange(2) << 11 | r.randrange(2) << 5 | r.randrange(32))
        f.append(("ccap", 2, c))
    return Seg("cap", 0xFF50, Fields(*f))


def _prof(r):
    n = pick(r, 1, 1, 2, 3)
    v = [pick(r, 0, 1, 65535, r.randrange(65536)) for _ in range(n)]
    v[-1] = max(1, v[-1])
    return v


def seg_prf(r):
    return Seg("prf", 0xFF56, Fields(*[("pprf", 2, v) for v in _prof(r)]))


def seg_cpf(r):
    return Seg("cpf", 0xFF59, Fields(*[("pcpf", 2, v) for v in _prof(r)]))


# ---------------------------------------------------------------------------
# codestreams

def rand_rsiz(r, fmt):
    if fmt in ("jph", "jhc"):
        return 0x4000 | pick(r, 0, 0, r.randrange(0x1000))
    k = r.random()
    if k < 0.5:
        return 0
    if k < 0.7:
        return r.randrange(0, 8)
    if k < 0.95:
        return r.randrange(1, 10) << 8 | r.randrange(256)
    return pick(r, 0x0FFF, r.randrange(0x1000))


def geometry(r, small=False):
    """xsiz.. such that the number of tiles stays manageable."""
    ntx, nty = pick(r, (1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (4, 3))
    if r.random() < 0.02 and not small:
        ntx, nty = pick(r, (20, 15), (300, 1), (1, 270))
    big = r.random() < 0.25

    def axis(nt):
        hi = 2 ** 32 - 1 if big else 4000
        t = r.randrange(1, max(2, hi // (nt + 2)))
        to = pick(r, 0, 0, r.randrange(0, max(1, min(hi // (nt + 2), 2 ** 31))))
        # image offset inside the first tile
        o = pick(r, to, to + r.randrange(0, t))
        if o > to + t - 1:
            o = to
        # end inside the last tile
        lo = to + (nt - 1) * t + 1
        lo = max(lo, o + 1)
        e = r.randrange(lo, to + nt * t + 1) if to + nt * t >= lo else lo
        if nt == 1 and r.random() < 0.3:
            t = max(t, e) + pick(r, 0, 0, r.randrange(1000))
            t = min(t, 2 ** 32 - 1)
        return e, o, t, to
    x, xo, xt, xto = axis(ntx)
    y, yo, yt, yto = axis(nty)
    if r.random() < 0.3:
        xo = yo = 0
        xto = yto = 0
        if -(-x // xt) * -(-y // yt) > 400:
            xt, yt = x, y
    return x, y, xo, yo, xt, yt, xto, yto


def codestream(r, fmt, csiz=None, depths=None, rich=None, small=False):
    csiz = csiz or (r.randrange(257, 300) if r.random() < 0.06 and not small else
                    pick(r, 1, 1, 2, 3, 3, 4, 5, 7))
    rich = r.random() if rich is None else rich
    x, y, xo, yo, xt, yt, xto, yto = geometry(r, small)
    if depths is None:
        if r.random() < 0.7:
            d = pick(r, 7, 7, 15, 0, 37, r.randrange(38)) | (128 if r.random() < 0.2 else 0)
            depths = [d] * csiz
        else:
            depths = [r.randrange(38) | (128 if r.random() < 0.4 else 0) for _ in range(csiz)]
    rsiz = rand_rsiz(r, fmt)
    f = [("rsiz", 2, rsiz), ("xsiz", 4, x), ("ysiz", 4, y), ("xOsiz", 4, xo),
         ("yOsiz", 4, yo), ("xTsiz", 4, xt), ("yTsiz", 4, yt), ("xTOsiz", 4, xto),
         ("yTOsiz", 4, yto), ("csiz", 2, csiz)]
    sub = r.random() < 0.3
    for d in depths:
        f += [("ssiz", 1, d), ("xRsiz", 1, r.randrange(1, 256) if sub else 1),
              ("yRsiz", 1, pick(r, 1, 2, 255) if sub else 1)]
    siz = Seg("siz", 0xFF51, Fields(*f))
    segs = [seg_cod(r, fmt), seg_qcd(r)]

    def comps(n):
        c = [r.randrange(csiz) for _ in range(n)]
        if csiz > 256 and c:
            c[0] = pick(r, 256, csiz - 1, c[0])
        return list(dict.fromkeys(c))

    if rich > 0.3:
        for c in comps(pick(r, 0, 1, 2, 3)):
            segs.append(seg_coc(r, fmt, csiz, c))
        for c in comps(pick(r, 0, 1, 2, 3)):
            segs.append(seg_qcc(r, csiz, c))
        for c in comps(pick(r, 0, 0, 1)):
            segs.append(seg_rgn(r, fmt, csiz, c))
        if r.random() < 0.3:
            segs.append(seg_poc(r, csiz))
        if r.random() < 0.2:
            segs.append(seg_crg(r, csiz))
        for _ in range(pick(r, 0, 0, 1, 2, 3)):
            segs.append(seg_com(r))
        if r.random() < 0.25:
            segs.append(seg_tlm(r))
        for z in range(pick(r, 0, 0, 0, 1, 3)):
            segs.append(seg_plm(r, z))
        for _ in range(pick(r, 0, 0, 0, 1, 2)):
            segs.append(seg_ppm(r))
        if r.random() < 0.2:
            segs.append(seg_unknown(r))
        if r.random() < 0.15:
            segs.append(seg_cpf(r))
    r.shuffle(segs)
    if fmt in ("jph", "jhc"):
        segs.insert(0, seg_cap(r))
    elif r.random() < 0.05:
        segs.insert(0, seg_cap(r, sorted(r.sample(range(1, 33), r.randrange(0, 4)))))
    if rsiz & 0xFFF == 0xFFF or (rich > 0.3 and r.random() < 0.15):
        segs.insert(1 if segs[0].tag == "cap" else 0, seg_prf(r))
    nt = -(-(x - xto) // xt) * -(-(y - yto) // yt)
    tps = tile_parts(r, fmt, nt, csiz, rich)
    return CS(siz, segs, tps)


def tile_parts(r, fmt, nt, csiz, rich):
    plan = []
    many = nt > 30
    style = r.randrange(4)
    for t in range(nt):
        n = 1 if many else pick(r, 1, 1, 1, 2, 3)
        if not many and r.random() < 0.01:
            n = pick(r, 40, 255)
        st = style if style < 3 else r.randrange(3)
        for k in range(n):
            tn = [0, n, n if k == n - 1 else 0][st]
            plan.append((t, k, tn))
    if r.random() < 0.5 and len(plan) > 1:
        # interleave, keeping the order within each tile
        order = [p[0] for p in plan]
        r.shuffle(order)
        q = {}
        for p in plan:
            q.setdefault(p[0], []).append(p)
        plan = [q[t].pop(0) for t in order]
    tps = []
    for t, k, tn in plan:
        segs = []
        if rich > 0.3 and not many and r.random() < 0.6:
            if k == 0:
                if r.random() < 0.25:
                    segs.append(seg_cod(r, fmt))
                if r.random() < 0.25:
                    segs.append(seg_qcd(r))
                for c in {r.randrange(csiz) for _ in range(pick(r, 0, 0, 1, 2))}:
                    segs.append(seg_coc(r, fmt, csiz, c))
                for c in {r.randrange(csiz) for _ in range(pick(r, 0, 0, 1, 2))}:
                    segs.append(seg_qcc(r, csiz, c))
                if r.random() < 0.15:
                    segs.append(seg_rgn(r, fmt, csiz, r.randrange(csiz)))
            if r.random() < 0.15:
                segs.append(seg_poc(r, csiz))
            for z in range(pick(r, 0, 0, 1, 2)):
                segs.append(seg_plt(r, z))
            for _ in range(pick(r, 0, 0, 0, 1, 2)):
                segs.append(seg_ppt(r))
            if r.random() < 0.15:
                segs.append(seg_com(r))
            if r.random() < 0.1:
                segs.append(seg_unknown(r))
            r.shuffle(segs)
        tps.append(TilePart(t, k, tn, segs, payload(r, pick(r, 0, 1, 2, 13, 40))))
    if tps and r.random() < 0.2:
        tps[-1].psot = 0
    return tps


# ---------------------------------------------------------------------------
# containers

KNOWN_TYPES = {b"jp2i", b"xml ", b"uuid", b"uinf", b"jP  ", b"ftyp", b"jp2h", b"ihdr",
               b"bpcc", b"colr", b"pclr", b"cmap", b"cdef", b"res ", b"jp2c", b"resc",
               b"resd", b"ulst", b"url "}


def unknown_type(r):
    while True:
        k = r.random()
        if k < 0.35:
            t = pick(r, b"free", b"asoc", b"nlst", b"jpch", b"jplh", b"rreq", b"mdat", b"ftbl",
                     b"JP2H", b"Colr", b"jp2 ", b"    ", b"iccp")
        elif k < 0.8:
            t = bytes(r.choice(SAFE.encode()) for _ in range(4))
        elif k < 0.9:
            t = rbytes(r, 4)
        else:
            t = pick(r, b"\0\0\0\0", b"\xff\x4f\xff\x51", b"\xff\x52\0\0", b"a\0b\0",
                     "é€".encode()[:4], b"<&>\"", b"icc\0")
        if t not in KNOWN_TYPES:
            return t


def box_unknown(r):
    return Box(unknown_type(r), Fields(("raw", None, rbytes(r, pick(r, 0, 1, 8, 30)))))


def box_sig():
    return Box(b"jP  ", Fields(("signature", 4, b"\r\n\x87\n")))


def box_ftyp(r, fmt):
    brand = b"jp2 " if fmt == "jp2" else b"jph "
    cl = [brand] + [pick(r, b"jpx ", b"jp2 ", b"jph ", b"J2P0", b"\0\0\0\1")
                    for _ in range(pick(r, 0, 0, 1, 3))]
    r.shuffle(cl)
    return Box(b"ftyp", Fields(("br", 4, brand), ("minV", 4, 0),
                               *[("cL", 4, c) for c in cl]))


def box_colr(r, fmt, meth=None):
    meth = meth or (pick(r, 1, 1, 2) if fmt == "jp2" else pick(r, 1, 1, 2, 3, 5))
    f = [("meth", 1, meth), ("prec", 1, 0), ("approx", 1, 0)]
    if meth == 1:
        f.append(("enumCS", 4, pick(r, 16, 17, 18)))
    elif meth == 2:
        f += [tuple(x) for x in icc_profile(r).f]
    elif meth == 3:
        f += [tuple(x) for x in icc_profile(
            r, klass=pick(r, b"scnr", b"mntr", b"prtr", b"link", b"spac", b"abst",
                          b"nmcl")).f]
    elif meth == 5:
        f += [("colPrims", 2, pick(r, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22)),
              ("transfC", 2, pick(r, 1, 2, *range(4, 19))),
              ("matCoeffs", 2, pick(r, 0, 1, 2, *range(4, 15))),
              ("vidFRng", 1, pick(r, 0, 128))]
    return Box(b"colr", Fields(*f))


def box_res(r):
    def one(typ):
        return Box(typ, Fields(*[(n, 2, pick(r, 1, 300, 65535, r.randrange(1, 65536)))
                                 for n in ("vRN", "vRD", "hRN", "hRD")],
                               ("vRE", 1, pick(r, 0, 2, 127, 128, r.randrange(256))),
                               ("hRE", 1, pick(r, 0, 2, 127, 128, r.randrange(256)))))
    kids = pick(r, [b"resc"], [b"resd"], [b"resc", b"resd"], [b"resd", b"resc"])
    return Box(b"res ", kids=[one(t) for t in kids])


def box_pclr(r):
    npc = pick(r, 1, 2, 3, 3, r.randrange(1, 20))
    ne = pick(r, 1, 2, 5, r.randrange(1, 30))
    if r.random() < 0.02:
        ne = pick(r, 1024, 256)
    if r.random() < 0.02:
        npc, ne = 255, 2
    bs = [pick(r, 7, 7, 0, 8, 11, 15, 37, r.randrange(38)) | pick(r, 0, 0, 128)
          for _ in range(npc)]
    f = [("nE", 2, ne), ("nPC", 1, npc)] + [("B", 1, b) for b in bs]
    for _ in range(ne):
        for b in bs:
            w = ((b & 127) + 8) // 8
            f.append(("C", w, r.randrange(1 << (8 * w))))
    return Box(b"pclr", Fields(*f))


def box_cmap(r, n):
    f = []
    for _ in range(n):
        mt = r.randrange(2)
        f += [("cMP", 2, pick(r, 0, r.randrange(16385))), ("mTyp", 1, mt),
              ("pCol", 1, 0 if mt == 0 else r.randrange(256))]
    return Box(b"cmap", Fields(*f))


def box_cdef(r, fmt, nocolour=False):
    n = pick(r, 1, 2, 3, 4, r.randrange(1, 12))
    f = [("n", 2, n)]
    alpha = False
    for i in range(n):
        ct = pick(r, 0, 0, 1, 2, 65535)
        if fmt == "jph":
            ct = pick(r, 0, 0, 1, 2, 3, 65535)
            if ct in (1, 2):
                ct = 3 if alpha else ct
                alpha = True
        if nocolour and ct == 0:
            ct = 65535
        ca = pick(r, 0, i + 1, 65535, r.randrange(65536))
        if fmt == "jph" and ct in (1, 2):
            ca = 0
        f += [("cN", 2, pick(r, i, r.randrange(65536))), ("cTyp", 2, ct), ("cAssoc", 2, ca)]
    return Box(b"cdef", Fields(*f))


def box_xml(r):
    return Box(b"xml ", Fields(("data", None, xml_doc(r) if r.random() < .8 else xmp_doc(r))))


def box_uuid(r, xmp=None):
    if xmp if xmp is not None else r.random() < 0.4:
        d = xmp_doc(r) if r.random() < 0.7 else xml_doc(r)
        return Box(b"uuid", Fields(("id", 16, XMP_UUID), ("data", None, d)))
    return Box(b"uuid", Fields(("id", 16, rbytes(r, 16)),
                               ("data", None, rbytes(r, r.randrange(1, 30)))))


def box_uinf(r):
    n = pick(r, 0, 1, 1, 2, 5)
    lst = Box(b"ulst", Fields(("nU", 2, n), *[("id", 16, rbytes(r, 16)) for _ in range(n)]))
    url = ("http://" + text(r, r.randrange(1, 20), False).replace(" ", "") +
           pick(r, ".org", ".org/é漢", "/?a=1&b=<2>")).encode("utf-8")
    kids = [lst, Box(b"url ", Fields(("version", 1, 0), ("flag", 3, 0),
                                     ("loc", None, url + b"\0")))]
    if r.random() < 0.2:
        kids.insert(r.randrange(3), box_unknown(r))
    elif r.random() < 0.3:
        kids.reverse()
    return Box(b"uinf", kids=kids)


def opt_box(r):
    return pick(r, box_xml, box_xml, box_uuid, box_uuid, box_uinf, box_unknown,
                lambda q: Box(b"jp2i", Fields(("raw", None, xml_doc(q)))))(r)


def image(r, fmt, small=False, rich=None, csiz=None, extras=True, plain=False):
    """A random conforming image."""
    cs = codestream(r, fmt, csiz=csiz, rich=rich, small=small)
    if fmt in ("j2c", "jhc"):
        return Image(fmt, cs=cs)
    g = cs.siz.fields.get
    depths = [x[2] for x in cs.siz.fields.f if x[0] == "ssiz"]
    same = len(set(depths)) == 1
    use_bpcc = not same or r.random() < 0.15
    bpc = 255 if use_bpcc else depths[0]
    ipr = 1 if r.random() < 0.15 else 0
    nocolr = fmt == "jph" and r.random() < 0.2
    unk = 1 if nocolr or r.random() < 0.2 else 0
    ihdr = Box(b"ihdr", Fields(
        ("height", 4, g("ysiz") - g("yOsiz")), ("width", 4, g("xsiz") - g("xOsiz")),
        ("nC", 2, g("csiz")), ("bPC", 1, bpc), ("c", 1, 7), ("unkC", 1, unk), ("iPR", 1, ipr)))
    groups = []
    if plain:
        # minimal container around the codestream
        kids = [ihdr] + ([Box(b"bpcc", Fields(*[("bPC", 1, d) for d in depths]))]
                         if use_bpcc else [])
        ihdr.fields.set("unkC", 0)
        ihdr.fields.set("iPR", 0)
        return Image(fmt, boxes=[box_sig(), box_ftyp(r, fmt),
                                 Box(b"jp2h", kids=kids + [box_colr(r, fmt, 1)]),
                                 Box(b"jp2c", cs=cs)])
    if use_bpcc:
        groups.append([Box(b"bpcc", Fields(*[("bPC", 1, d) for d in depths]))])
    if not nocolr:
        groups.append([box_colr(r, fmt) for _ in range(pick(r, 1, 1, 1, 2, 3))])
    if r.random() < 0.25:
        p = box_pclr(r)
        m = box_cmap(r, pick(r, 1, 3, r.randrange(1, 6)))
        if r.random() < 0.5:
            groups.append([p])
            groups.append([m])
        else:
            groups.append([p, m])
    if r.random() < 0.3:
        groups.append([box_cdef(r, fmt, nocolr)])
    if r.random() < 0.4:
        groups.append([box_res(r)])
    if r.random() < 0.1 and extras:
        groups.append([box_unknown(r)])
    r.shuffle(groups)
    jp2h = Box(b"jp2h", kids=[ihdr] + [b for g_ in groups for b in g_])
    boxes = [box_sig(), box_ftyp(r, fmt)]
    ex = lambda: [opt_box(r) for _ in range(pick(r, 0, 0, 0, 1, 2))] if extras else []
    boxes += ex()
    boxes.append(jp2h)
    boxes += ex()
    boxes.append(Box(b"jp2c", cs=cs))
    boxes += ex()
    if r.random() < 0.03 and extras:
        boxes.append(Box(b"jp2c", cs=codestream(r, fmt, small=True)))
        boxes += ex()
    if ipr and not any(b.typ == b"jp2i" for b in boxes):
        boxes.insert(r.randrange(2, len(boxes) + 1),
                     Box(b"jp2i", Fields(("raw", None, rbytes(r, 8)))))
    im = Image(fmt, boxes=boxes)
    for b in im.all_boxes():
        if r.random() < 0.03:
            b.mode = "x"
    if r.random() < 0.12:
        boxes[-1].mode = "z"
    return im


# ---------------------------------------------------------------------------
# mutations

def boundary(r, n):
    top = (1 << (8 * n)) - 1
    vals = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 22, 23, 31, 32,
            33, 34, 37, 38, 39, 63, 64, 65, 127, 128, 129, 165, 166, 254, 255, 256, 1023, 1024,
            1025, 16383, 16384, 16385, 65534, 65535, top >> 1, (top >> 1) + 1, top - 1, top]
    return [v for v in vals if v <= top]


def mutate_field(r, im):
    """Set one random field to a boundary / random / off-by-one value."""
    nodes = [n for n in im.leaf_nodes() if n.fields.f]
    if not nodes:
        return None
    # choose the kind of node first so that rare nodes get their share
    kinds = {}
    for n in nodes:
        kinds.setdefault(n.typ if isinstance(n, Box) else n.tag, []).append(n)
    n = r.choice(kinds[r.choice(sorted(kinds, key=str))])
    names = sorted(set(n.fields.names()))
    name = r.choice(names)
    f = r.choice([x for x in n.fields.f if x[0] == name])
    old = f[2]
    if isinstance(old, bytes):
        b = bytearray(old)
        k = r.random()
        if f[1] is None and k < 0.3:
            cut = r.randrange(len(b) + 1)
            b = b[:cut]
        elif f[1] is None and k < 0.5:
            b += rbytes(r, r.randrange(1, 5))
        elif b:
            for _ in range(pick(r, 1, 1, 2)):
                b[r.randrange(len(b))] = r.randrange(256)
        f[2] = bytes(b)
    else:
        k = r.random()
        if k < 0.6:
            f[2] = r.choice(boundary(r, f[1]))
        elif k < 0.8:
            f[2] = (old + pick(r, -1, 1, 256, -256)) % (1 << 8 * f[1])
        else:
            f[2] = r.randrange(1 << (8 * f[1]))
    im.notes.append("field %s.%s %r -> %r" % (
        n.typ if isinstance(n, Box) else n.tag, name, old, f[2]))
    return n


def mutate_tilepart(r, im):
    cs = r.choice(im.codestreams()) if im.codestreams() else None
    if cs is None or not cs.tps:
        return None
    t = r.choice(cs.tps)
    k = r.randrange(14)
    if k == 0:
        t.isot = pick(r, 65535, 65534, t.isot + 1, t.isot - 1, len(cs.tps), r.randrange(65536))
    elif k == 1:
        t.tpsot = pick(r, 255, 254, t.tpsot + 1, 1, 0)
    elif k == 2:
        t.tnsot = pick(r, 0, 1, 255, t.tnsot + 1, t.tnsot - 1)
    elif k == 3:
        t.psot = pick(r, 0, 1, 12, 13, 14, 2 ** 32 - 1, r.randrange(100))
    elif k == 4:
        t.psotadj = pick(r, -2, -1, 1, 2, 5)
    elif k == 5:
        t.lsot = pick(r, 0, 2, 9, 11, 12, 65535)
    elif k == 6:
        t.sod = b""
    elif k == 7:
        cs.eoc = pick(r, b"", b"\xff", b"\xff\xd8", b"\xd9\xff", b"\xff\xd9\x00", b"\x00\xff\xd9",
                      b"\xff\xd9\xff\xd9")
    elif k == 8:
        cs.tps.remove(t)
    elif k == 9:
        cs.tps.insert(r.randrange(len(cs.tps) + 1), copy.deepcopy(t))
    elif k == 10:
        i, j = r.randrange(len(cs.tps)), r.randrange(len(cs.tps))
        cs.tps[i], cs.tps[j] = cs.tps[j], cs.tps[i]
    elif k == 11:
        csiz = cs.siz.fields.get("csiz") or 1
        segs = [seg_cod(r, im.fmt), seg_qcd(r), seg_coc(r, im.fmt, csiz, 0), seg_qcc(r, csiz, 0),
                seg_rgn(r, im.fmt, csiz, 0)]
        t.segs.insert(r.randrange(len(t.segs) + 1), r.choice(segs))
    elif k == 12:
        if t.segs:
            t.segs.append(copy.deepcopy(r.choice(t.segs)))
    else:
        t.payload = pick(r, b"\xff\xd9", b"\xff\x90\x00\x0a", rbytes(r, 20))
    im.notes.append("tilepart %d" % k)
    return t


def _lists(im):
    out = []
    if im.boxes is not None:
        out.append(im.boxes)
        out += [b.kids for b in im.all_boxes() if b.kids is not None]
    for cs in im.codestreams():
        out.append(cs.segs)
        for t in cs.tps[:6]:
            if t.segs:
                out.append(t.segs)
    return [x for x in out if x]


def mutate_struct(r, im):
    ls = _lists(im)
    if not ls:
        return None
    l = r.choice(ls)
    k = r.randrange(6)
    i = r.randrange(len(l))
    if k == 0:
        x = l.pop(i)
    elif k == 1:
        x = copy.deepcopy(l[i])
        l.insert(r.randrange(len(l) + 1), x)
    elif k == 2:
        j = r.randrange(len(l))
        l[i], l[j] = l[j], l[i]
        x = l[i]
    elif k == 3:
        x = l.pop(i)
        l.insert(r.randrange(len(l) + 1), x)
    elif k == 4:
        # move to another list of the same kind
        same = [m for m in ls if m is not l and m and isinstance(m[0], type(l[0]))]
        x = l.pop(i)
        (r.choice(same) if same else l).insert(0, x)
    else:
        x = box_unknown(r) if isinstance(l[0], Box) else seg_unknown(r)
        l.insert(i, x)
    im.notes.append("struct %d %s" % (k, getattr(x, "typ", None) or getattr(x, "tag", "")))
    return l


def mutate_length(r, im):
    k = r.random()
    if im.boxes is not None and k < 0.6:
        b = r.choice(im.all_boxes())
        q = r.randrange(6)
        if q == 0:
            b.lenadj = pick(r, -1, 1, -4, 4, 8, -8)
        elif q == 1:
            b.lenover = pick(r, 0, 1, 2, 7, 8, 9, 15, 16, 17, 2 ** 31, 2 ** 32 - 1, 2 ** 63,
                             2 ** 64 - 1)
        elif q == 2:
            b.mode = "x"
            b.lenover = pick(r, 0, 1, 7, 8, 15, 16, 17, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1)
        elif q == 3:
            b.mode = "z"
        elif q == 4:
            b.mode = "x"
        elif b.fields is not None:
            body = b.fields.ser()
            cut = pick(r, 0, r.randrange(len(body) + 1))
            body = body[:cut] if r.random() < 0.7 else body + rbytes(r, r.randrange(1, 9))
            b.fields = Fields(("raw", None, body))
        im.notes.append("boxlen %s %d" % (b.typ, q))
        return b
    segs = im.all_segs()
    if not segs:
        return None
    kinds = {}
    for s_ in segs:
        kinds.setdefault(s_.tag, []).append(s_)
    s = r.choice(kinds[r.choice(sorted(kinds))])
    q = r.randrange(4)
    if q == 0:
        s.lenadj = pick(r, -1, 1, -2, 2, 3)
    elif q == 1:
        s.lenover = pick(r, 0, 1, 2, 3, 4, 5, 11, 12, 13, 41, 45, 46, 197, 198, 199, 200, 49190,
                         49191, 65534, 65535)
    elif q == 2:
        body = s.fields.ser()
        s.fields = Fields(("raw", None, body[:r.randrange(len(body) + 1)]))
    else:
        s.fields.f.append(["pad", None, rbytes(r, r.randrange(1, 9))])
    im.notes.append("seglen %s %d" % (s.tag, q))
    return s


def mutate(r, im):
    """One random structured mutation (in place)."""
    k = r.random()
    fn = (mutate_field if k < 0.5 else mutate_tilepart if k < 0.65 else
          mutate_struct if k < 0.83 else mutate_length)
    try:
        return fn(r, im)
    except IndexError:
        # nothing left to act on after earlier mutations
        return None


def hostile(r, data, other=b""):
    """Byte-level mutation of a serialised image."""
    b = bytearray(data)
    for _ in range(pick(r, 1, 1, 1, 2, 4, 10)):
        k = r.randrange(9)
        n = len(b)
        if n == 0:
            b += rbytes(r, r.randrange(1, 40))
            continue
        p = r.randrange(n)
        if k == 0:
            b[p] = r.randrange(256)
        elif k == 1:
            b[p] ^= 1 << r.randrange(8)
        elif k == 2:
            del b[p:]
        elif k == 3:
            q = min(n, p + r.randrange(1, 32))
            del b[p:q]
        elif k == 4:
            b[p:p] = rbytes(r, r.randrange(1, 16))
        elif k == 5:
            b[p:p + 4] = pick(r, b"\0\0\0\0", b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff",
                              b"\x80\0\0\0", b"\0\0\0\1", b"\xff\x90\0\x0a", b"\xff\x93\xff\xd9")
        elif k == 6 and other:
            q = r.randrange(len(other))
            b[p:p] = other[q:q + r.randrange(1, 64)]
        elif k == 7:
            q = min(n, p + r.randrange(1, 64))
            b[q:q] = b[p:q]
        else:
            b[p:p + 2] = pick(r, b"\xff\x52", b"\xff\x58", b"\xff\x57", b"\xff\x56", b"\xff\x63",
                              b"\xff\x5f", b"\xff\x51", b"\0\0", b"\xff\xff", b"\xff\x50",
                              b"\xff\x5c", b"\xff\x5d")
    return bytes(b)


def rng(seed, *salt):
    return random.Random(zlib.crc32(repr((seed,) + salt).encode()) ^ (int(seed) << 32))
