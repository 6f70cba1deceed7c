"""Executable reference model of jpylyzer's documented behaviour.

Written from the jpylyzer User Manual, ISO/IEC 15444-1 (Annex A, I), 15444-15
and the ICC profile header layout -- NOT by importing jpylyzer.  Given the bytes
of a file and the validation format it predicts, as trees,

  * the outcome of every documented test (verbose form),
  * every reported property value,
  * the warnings about ignored boxes.

Anything the documentation leaves open (a field that is cut off by the end of
its box, values read from garbage, ...) is predicted as DC ("don't care") and is
never compared.
"""

from decimal import Decimal
from fractions import Fraction
import unicodedata
import uuid as _uuid


class _DC:
    def __repr__(self):
        return "DC"

    def __bool__(self):
        raise RuntimeError("DC has no truth value")


DC = _DC()


class Approx:
    """A numeric value reported rounded to `digits` decimals."""

    def __init__(self, exact, digits):
        self.exact = Fraction(exact)
        self.digits = digits

    def __repr__(self):
        return "~%s" % float(self.exact)


class XmlSub:
    """An embedded XML document that must be reported as is."""

    def __init__(self, root):
        self.root = root


class Node:
    __slots__ = ("tag", "text", "kids", "open", "dc", "opentags")

    def __init__(self, tag, text=None):
        self.tag = tag
        self.text = text
        self.kids = []
        self.open = False      # further children unspecified
        self.dc = False        # everything below unspecified
        self.opentags = set()  # child tags whose occurrence is unspecified

    def add(self, tag, text=None):
        n = Node(tag, text)
        self.kids.append(n)
        return n

    def attach(self, n):
        self.kids.append(n)
        return n

    def find(self, path):
        cur = [self]
        for p in path.split("/"):
            cur = [k for c in cur for k in c.kids if k.tag == p]
        return cur

    def has_dc(self, path):
        """True if the result of find(path) could be affected by DC parts."""
        cur = [self]
        for p in path.split("/"):
            for c in cur:
                if c.dc or c.open or p in c.opentags:
                    return True
            cur = [k for c in cur for k in c.kids if k.tag == p]
        return any(c.dc for c in cur)


# --------------------------------------------------------------------------
# tri-state helpers

def t_and(*xs):
    if any(x is False for x in xs):
        return False
    if any(x is DC for x in xs):
        return DC
    return True


def t_or(*xs):
    if any(x is True for x in xs):
        return True
    if any(x is DC for x in xs):
        return DC
    return False


def t_not(x):
    return DC if x is DC else (not x)


def rng(lo, v, hi):
    if v is DC or lo is DC:
        return DC
    return lo <= v <= hi


def eq(a, b):
    if a is DC or b is DC:
        return DC
    return a == b


def isin(v, s):
    if v is DC:
        return DC
    return v in s


def bit(v, pos_from_lsb):
    if v is DC:
        return DC
    return (v >> pos_from_lsb) & 1


def u(data, off, n):
    """Unsigned big-endian field, DC when cut off."""
    raw = data[off:off + n]
    if len(raw) != n:
        return DC
    return int.from_bytes(raw, "big")


def s8(data, off):
    raw = data[off:off + 1]
    if len(raw) != 1:
        return DC
    return int.from_bytes(raw, "big", signed=True)


def s(data, off, n):
    raw = data[off:off + n]
    if len(raw) != n:
        return DC
    return bytes(raw)


def clean(text):
    """Characters that are not reportable are dropped."""
    return "".join(c for c in text
                   if c in "\t\n\r" or unicodedata.category(c)[0] != "C")


def astext(raw):
    if raw is DC:
        return DC
    try:
        return clean(raw.decode("utf-8"))
    except UnicodeDecodeError:
        return ""


# --------------------------------------------------------------------------
# reported values

YN = {0: "no", 1: "yes"}
SIGN = {0: "unsigned", 1: "signed"}
VALUE_NAMES = {
    "unkC": YN, "iPR": YN, "embeddedProfile": YN, "vidFRng": YN,
    "profileCannotBeUsedIndependently": YN, "sop": YN, "eph": YN,
    "multipleComponentTransformation": YN, "codingBypass": YN,
    "resetOnBoundaries": YN, "termOnEachPass": YN, "vertCausalContext": YN,
    "predTermination": YN, "segmentationSymbols": YN,
    "bPCSign": SIGN, "ssizSign": SIGN, "bSign": SIGN,
    "c": {7: "jpeg2000"},
    "meth": {1: "Enumerated", 2: "Restricted ICC", 3: "Any ICC",
             4: "Vendor Colour", 5: "Parameterized Colourspace"},
    "enumCS": {16: "sRGB", 17: "greyscale", 18: "sYCC"},
    "profileClass": {b"scnr": "Input Device Profile",
                     b"mntr": "Display Device Profile",
                     b"prtr": "Output Device Profile",
                     b"link": "DeviceLink Profile",
                     b"spac": "ColorSpace Conversion Profile",
                     b"abst": "Abstract Profile",
                     b"nmcl": "Named Colour Profile"},
    "primaryPlatform": {b"APPL": "Apple Computer, Inc.",
                        b"MSFT": "Microsoft Corporation",
                        b"SUNW": "Sun Microsystems, Inc.",
                        b"SGI ": "Silicon Graphics, Inc."},
    "transparency": {0: "Reflective", 1: "Transparent"},
    "glossiness": {0: "Glossy", 1: "Matte"},
    "polarity": {0: "Positive", 1: "Negative"},
    "colour": {0: "Colour", 1: "Black and white"},
    "renderingIntent": {0: "Perceptual", 1: "Media-Relative Colorimetric",
                        2: "Saturation", 3: "ICC-Absolute Colorimetric"},
    "mTyp": {0: "direct use", 1: "palette mapping"},
    "cTyp": {0: "colour", 1: "opacity", 2: "premultiplied opacity",
             3: "application-defined", 65535: "not specified"},
    "cAssoc": {0: "all colours", 65535: "no colours"},
    "precincts": {0: "default", 1: "user defined"},
    "order": {0: "LRCP", 1: "RLCP", 2: "RPCL", 3: "PCRL", 4: "CPRL"},
    "transformation": {0: "9-7 irreversible", 1: "5-3 reversible"},
    "roiStyle": {0: "Implicit ROI (maximum shift)"},
    "qStyle": {0: "no quantization", 1: "scalar derived", 2: "scalar expounded"},
    "rcom": {0: "binary", 1: "ISO/IEC 8859-15 (Latin)"},
    "htCodeBlocks": {0: "HTONLY", 0x8000: "HTDECLARED", 0xC000: "MIXED"},
    "htSets": {0: "SINGLEHT", 1: "MULTIHT"},
    "htRegion": {0: "RGNFREE", 1: "RGN"},
    "htHomogeneous": {0: "HOMOGENEOUS", 1: "HETEROGENEOUS"},
    "htReversible": {0: "HTREV", 1: "HTIRV"},
}


def report(tag, v):
    """Text reported for raw value v of property tag."""
    if v is DC or isinstance(v, (Approx, XmlSub)):
        return v
    names = VALUE_NAMES.get(tag)
    if names is not None and v in names:
        return names[v]
    if isinstance(v, bytes):
        return astext(v)
    if isinstance(v, str):
        return clean(v)
    if isinstance(v, int) and v.bit_length() > 10000:
        return format(Decimal(v), "f")
    return str(v)


# --------------------------------------------------------------------------

BOXNAMES = {
    b"jp2i": "intellectualPropertyBox", b"xml ": "xmlBox", b"uuid": "uuidBox",
    b"uinf": "uuidInfoBox", b"jP  ": "signatureBox", b"ftyp": "fileTypeBox",
    b"jp2h": "jp2HeaderBox", b"ihdr": "imageHeaderBox",
    b"bpcc": "bitsPerComponentBox", b"colr": "colourSpecificationBox",
    b"pclr": "paletteBox", b"cmap": "componentMappingBox",
    b"cdef": "channelDefinitionBox", b"res ": "resolutionBox",
    b"jp2c": "contiguousCodestreamBox", b"resc": "captureResolutionBox",
    b"resd": "displayResolutionBox", b"ulst": "uuidListBox", b"url ": "urlBox",
}

XMP_UUID = _uuid.UUID("be7acfcb-97a9-42e8-9c71-999491e3afac").bytes


class Ctx:
    def __init__(self, fmt, nullxml=False, packetmarkers=False, xmlparse=None):
        self.fmt = fmt
        self.nullxml = nullxml
        self.packetmarkers = packetmarkers
        self.xmlparse = xmlparse or parse_xml


def parse_xml(data):
    """Independent XML parser: returns an element (lxml) or None if ill-formed,
    DC if this parser and the standard-library one may legitimately differ."""
    from lxml import etree
    if b"<!DOCTYPE" in data or b"<!ENTITY" in data:
        return DC
    p = etree.XMLParser(resolve_entities=False, no_network=True,
                        huge_tree=True, remove_comments=False)
    try:
        root = etree.fromstring(bytes(data), p)
    except (etree.XMLSyntaxError, ValueError):
        root = None
    # the two independent parsers differ on fine points (relative or odd namespace
    # URIs, version numbers): only what both agree on is predicted
    import xml.parsers.expat as ex
    q = ex.ParserCreate(namespace_separator="}")
    try:
        q.Parse(bytes(data), True)
        ok = True
    except (ex.ExpatError, ValueError, LookupError):
        ok = False
    return root if ok == (root is not None) else DC


class Box:
    """Accumulates tests / properties / warnings of one box or segment."""

    def __init__(self, tag):
        self.tag = tag
        self.t = Node(tag)
        self.p = Node(tag)
        self.w = Node(tag)
        self.ext = {}

    def test(self, name, v):
        self.t.add(name, v)

    def prop(self, name, v):
        self.p.add(name, report(name, v))

    def all_dc(self):
        self.t.dc = True
        self.p.dc = True
        self.t.open = self.p.open = True

    def merge(self, b, show=True):
        if b.t.dc:
            self.t.opentags.add(b.tag)
        elif b.t.kids or b.t.open:
            self.t.attach(b.t)
            if b.t.open and not b.t.kids:
                self.t.opentags.add(b.tag)
        if show:
            self.p.attach(b.p)
        if b.w.kids:
            self.w.attach(b.w)
        elif b.w.open or b.w.opentags:
            self.w.opentags.add(b.tag)


def iter_boxes(data):
    """Yield (type, contents) for each box of a box sequence."""
    pos, n = 0, len(data)
    while pos < n:
        length = u(data, pos, 4)
        typ = bytes(data[pos + 4:pos + 8])
        hdr = 8
        if length is DC:
            yield typ, b"", True
            return
        if length == 1:
            length = u(data, pos + 8, 8)
            hdr = 16
            if length is DC:
                yield typ, b"", True
                return
        if length == 0:
            length = n - pos
        yield typ, data[pos + hdr:pos + length], len(typ) < 4
        pos += length


def walk_children(ctx, data, box):
    types = []
    for typ, contents, cut in iter_boxes(data):
        types.append(typ if len(typ) == 4 else None)
        if cut:
            # stray bytes that do not even hold a box header
            name = BOXNAMES.get(typ, "unknownBox")
            box.t.opentags.add(name)
            box.p.opentags.add(name)
            box.w.open = True
            box.p.opentags.add("unknownBox")
            if len(typ) == 4:
                types[-1] = DC
            continue
        box.merge(do_box(ctx, typ, contents))
    return types


def do_box(ctx, typ, data):
    name = BOXNAMES.get(typ)
    if name is None:
        b = Box("unknownBox")
        b.prop("boxType", typ)
        b.w.add("warning", "ignoring unknown box '%s'" % astext(typ))
        return b
    b = Box(name)
    fn = BOX_FN.get(name)
    if fn:
        fn(ctx, data, b)
    return b


def count(types, typ):
    if any(t is DC for t in types):
        return DC
    return types.count(typ)


def has(types, typ):
    if typ in [t for t in types if t is not DC]:
        return True
    if any(t is DC for t in types):
        return DC
    return False


def at_most_one(types, typ):
    n = len([t for t in types if t is not DC and t == typ])
    if n > 1:
        return False
    if any(t is DC for t in types):
        return DC
    return True


# ---- leaf boxes ----------------------------------------------------------

def box_signature(ctx, d, b):
    b.test("boxLengthIsValid", len(d) == 4)
    b.test("signatureIsValid", bytes(d[:4]) == b"\r\n\x87\n")


BRAND = {"jp2": b"jp2 ", "jph": b"jph "}


def box_ftyp(ctx, d, b):
    n = len(d)
    b.test("boxLengthIsValid", (n - 8) % 4 == 0)
    br = s(d, 0, 4)
    b.prop("br", br)
    minv = u(d, 4, 4)
    b.prop("minV", minv)
    b.test("minorVersionIsValid", eq(minv, 0) if minv is not DC else DC)
    cls = [bytes(d[i:i + 4]) for i in range(8, n - 3, 4)]
    for c in cls:
        b.prop("cL", c)
    if ctx.fmt in BRAND:
        b.test("brandIsValid", eq(br, BRAND[ctx.fmt]))
        b.test("compatibilityListIsValid", BRAND[ctx.fmt] in cls)


def box_ihdr(ctx, d, b):
    b.test("boxLengthIsValid", len(d) == 14)
    h, w, nc = u(d, 0, 4), u(d, 4, 4), u(d, 8, 2)
    bpc, c, unk, ipr = u(d, 10, 1), u(d, 11, 1), u(d, 12, 1), u(d, 13, 1)
    b.prop("height", h)
    b.prop("width", w)
    b.prop("nC", nc)
    b.prop("bPCSign", bit(bpc, 7))
    depth = DC if bpc is DC else (bpc & 0x7F) + 1
    b.prop("bPCDepth", depth)
    b.prop("c", c)
    b.prop("unkC", unk)
    b.prop("iPR", ipr)
    b.test("heightIsValid", rng(1, h, 2 ** 32 - 1))
    b.test("widthIsValid", rng(1, w, 2 ** 32 - 1))
    b.test("nCIsValid", rng(1, nc, 16384))
    b.test("bPCIsValid", t_or(rng(1, depth, 38), eq(bpc, 255)))
    b.test("cIsValid", eq(c, 7))
    b.test("unkCIsValid", isin(unk, (0, 1)))
    b.test("iPRIsValid", isin(ipr, (0, 1)))
    b.ext.update(height=h, width=w, nC=nc, bpc=bpc, unkC=unk, iPR=ipr)


def box_bpcc(ctx, d, b):
    b.ext["bpcs"] = [int(x) for x in bytes(d)]
    for x in bytes(d):
        b.prop("bPCSign", x >> 7)
        b.prop("bPCDepth", (x & 127) + 1)
        b.test("bPCIsValid", 1 <= (x & 127) + 1 <= 38)


def box_colr(ctx, d, b):
    meth, prec, approx = u(d, 0, 1), u(d, 1, 1), u(d, 2, 1)
    b.prop("meth", meth)
    b.prop("prec", prec)
    b.prop("approx", approx)
    if ctx.fmt == "jp2":
        b.test("methIsValid", isin(meth, (1, 2)))
    elif ctx.fmt == "jph":
        b.test("methIsValid", isin(meth, (1, 2, 3, 5)))
    b.test("precIsValid", eq(prec, 0))
    b.test("approxIsValid", eq(approx, 0))
    if meth is DC:
        b.t.open = b.p.open = True
        return
    rest = d[3:]
    if meth == 1:
        cs = u(d, 3, 4)
        if len(rest) == 4:
            b.prop("enumCS", cs)
            b.test("enumCSIsValid", cs in (16, 17, 18))
        else:
            b.prop("enumCS", DC)
            b.test("enumCSIsValid", False)   # not a 4-byte value
    elif meth in (2, 3):
        icc = Box("icc")
        do_icc(ctx, rest, icc)
        b.p.attach(icc.p)
        if meth == 2:
            size = u(rest, 0, 4)
            b.test("iccSizeIsValid", eq(size, len(rest)))
            cl = s(rest, 12, 4)
            b.test("iccPermittedProfileClass",
                   isin(cl, (b"scnr", b"mntr")))
            tags = icc.ext.get("tags")
            b.test("iccNoLUTBasedProfile",
                   DC if tags is None else b"A2B0" not in tags)
    elif meth == 5:
        cp, tc, mc, vf = u(d, 3, 2), u(d, 5, 2), u(d, 7, 2), u(d, 9, 1)
        b.prop("colPrims", cp)
        b.prop("transfC", tc)
        b.prop("matCoeffs", mc)
        b.prop("vidFRng", bit(vf, 7))
        if ctx.fmt == "jph":
            b.test("colPrimsIsValid",
                   isin(cp, (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22)))
            b.test("transfCIsValid", isin(tc, (1, 2) + tuple(range(4, 19))))
            b.test("matCoeffsIsValid", isin(mc, (0, 1, 2) + tuple(range(4, 15))))


def do_icc(ctx, d, b):
    b.prop("profileSize", u(d, 0, 4))
    b.prop("preferredCMMType", s(d, 4, 4))
    maj, mnr = u(d, 8, 1), u(d, 9, 1)
    b.prop("profileVersion", DC if mnr is DC else
           "%d.%d.%d" % (maj, mnr >> 4, mnr & 15))
    b.prop("profileClass", s(d, 12, 4))
    b.prop("colourSpace", s(d, 16, 4))
    b.prop("profileConnectionSpace", s(d, 20, 4))
    dt = [u(d, 24 + 2 * i, 2) for i in range(6)]
    if any(x is DC for x in dt) or any(x > 255 for x in dt[1:]):
        b.prop("dateTimeString", DC)
    else:
        b.prop("dateTimeString", "%d/%02d/%02d, %02d:%02d:%02d" % tuple(dt))
    b.prop("profileSignature", s(d, 36, 4))
    b.prop("primaryPlatform", s(d, 40, 4))
    flags = u(d, 44, 4)
    b.prop("embeddedProfile", bit(flags, 0))
    b.prop("profileCannotBeUsedIndependently", bit(flags, 1))
    b.prop("deviceManufacturer", s(d, 48, 4))
    b.prop("deviceModel", s(d, 52, 4))
    attr = u(d, 56, 8)
    b.prop("transparency", bit(attr, 0))
    b.prop("glossiness", bit(attr, 1))
    b.prop("polarity", bit(attr, 2))
    b.prop("colour", bit(attr, 3))
    b.prop("renderingIntent", u(d, 66, 2))
    for i, ax in enumerate("XYZ"):
        v = u(d, 68 + 4 * i, 4)
        b.prop("connectionSpaceIlluminant" + ax,
               DC if v is DC or v >= 2 ** 31 else Approx(Fraction(v, 65536), 4))
    b.prop("profileCreator", s(d, 80, 4))
    pid = s(d, 84, 16)
    b.prop("profileID", DC if pid is DC else pid.hex())
    n = u(d, 128, 4)
    if n is DC or n > 4096 or 132 + 12 * n > len(d):
        b.p.opentags.add("tag")
        b.p.opentags.add("description")
        return
    tags = []
    for i in range(n):
        sig = s(d, 132 + 12 * i, 4)
        b.prop("tag", sig)
        tags.append((sig, u(d, 136 + 12 * i, 4), u(d, 140 + 12 * i, 4)))
    b.ext["tags"] = [t[0] for t in tags]
    desc = ""
    for sig, off, size in tags:
        if sig == b"desc":
            blob = bytes(d[off:off + size])
            if len(blob) != size or size < 13:
                desc = DC
            else:
                ln = u(blob, 8, 4)
                if blob[:4] != b"desc" or ln < 1 or 12 + ln > size:
                    desc = DC
                else:
                    desc = blob[12:12 + ln - 1]
            break
    b.prop("description", desc)


def box_pclr(ctx, d, b):
    ne, npc = u(d, 0, 2), u(d, 2, 1)
    b.prop("nE", ne)
    b.prop("nPC", npc)
    b.test("nEIsValid", rng(1, ne, 1024))
    b.test("nPCIsValid", rng(1, npc, 255))
    if ne is DC or npc is DC:
        b.t.open = b.p.open = True
        return
    widths = []
    for i in range(npc):
        x = u(d, 3 + i, 1)
        if x is DC:
            b.t.opentags.add("bDepthIsValid")
            b.p.opentags |= {"bSign", "bDepth", "cP"}
            return
        depth = (x & 127) + 1
        b.prop("bSign", x >> 7)
        b.prop("bDepth", depth)
        b.test("bDepthIsValid", 1 <= depth <= 38)
        widths.append((depth + 7) // 8)
    row = sum(widths)
    if 3 + npc + row * ne > len(d):
        b.p.opentags.add("cP")
        return
    # entries are stored row by row (I.5.3.4); reported column by column
    off = 0
    for i in range(npc):
        base = 3 + npc + off
        for j in range(ne):
            b.prop("cP", u(d, base + j * row, widths[i]))
        off += widths[i]


def box_cmap(ctx, d, b):
    for i in range(len(d) // 4):
        cmp_, mt, pc = u(d, 4 * i, 2), u(d, 4 * i + 2, 1), u(d, 4 * i + 3, 1)
        b.prop("cMP", cmp_)
        b.prop("mTyp", mt)
        b.prop("pCol", pc)
        b.test("cMPIsValid", 0 <= cmp_ <= 16384)
        b.test("mTypIsValid", mt in (0, 1))
        b.test("pColIsValid", pc == 0 if mt == 0 else True)


def box_cdef(ctx, d, b):
    n = u(d, 0, 2)
    b.prop("n", n)
    b.test("nIsValid", rng(1, n, 65535))
    b.test("boxLengthIsValid", False if n is DC else len(d) == 2 + 6 * n)
    b.ext["ctyps"] = []
    if n is DC:
        b.t.open = b.p.open = True
        b.ext["ctyps"] = None
        return
    if len(d) < 2 + 6 * n:
        b.t.opentags |= {"cNIsValid", "cTypIsValid", "cAssocIsValid",
                         "noMoreThanOneAlphaChannel",
                         "cAssocAlphaChannelIsZero"}
        b.p.opentags |= {"cN", "cTyp", "cAssoc"}
        b.ext["ctyps"] = None
        return
    alphas = []
    allowed = (0, 1, 2, 65535) if ctx.fmt == "jp2" else (0, 1, 2, 3, 65535)
    for i in range(n):
        cn, ct, ca = (u(d, 2 + 6 * i + 2 * k, 2) for k in range(3))
        b.prop("cN", cn)
        b.prop("cTyp", ct)
        b.prop("cAssoc", ca)
        b.test("cNIsValid", True)
        if ctx.fmt in ("jp2", "jph"):
            b.test("cTypIsValid", ct in allowed)
        b.test("cAssocIsValid", True)
        b.ext["ctyps"].append(ct)
        if ct in (1, 2):
            alphas.append(ca)
    if ctx.fmt == "jph":
        b.test("noMoreThanOneAlphaChannel", len(alphas) <= 1)
        for a in alphas:
            b.test("cAssocAlphaChannelIsZero", a == 0)


def box_res(ctx, d, b):
    types = walk_children(ctx, d, b)
    b.test("containsCaptureOrDisplayResolutionBox",
           t_or(has(types, b"resc"), has(types, b"resd")))
    b.test("noMoreThanOneCaptureResolutionBox", at_most_one(types, b"resc"))
    b.test("noMoreThanOneDisplayResolutionBox", at_most_one(types, b"resd"))


def _resbox(letter):
    def fn(ctx, d, b):
        b.test("boxLengthIsValid", len(d) == 10)
        vn, vd, hn, hd = (u(d, 2 * i, 2) for i in range(4))
        ve, he = s8(d, 8), s8(d, 9)
        pre = "R" + letter
        for nm, v in (("v%sN" % pre, vn), ("v%sD" % pre, vd),
                      ("h%sN" % pre, hn), ("h%sD" % pre, hd)):
            b.prop(nm, v)
            b.test(nm + "IsValid", rng(1, v, 65535))
        for nm, v in (("v%sE" % pre, ve), ("h%sE" % pre, he)):
            b.prop(nm, v)
            b.test(nm + "IsValid", rng(-128, v, 127))
        for ax, n, dd, e in (("v", vn, vd, ve), ("h", hn, hd, he)):
            if DC in (n, dd, e) or dd == 0:
                b.p.opentags |= {"%sRes%sInPixelsPerMeter" % (ax, letter),
                                 "%sRes%sInPixelsPerInch" % (ax, letter)}
                continue
            ppm = Fraction(n, dd) * Fraction(10) ** e
            b.prop("%sRes%sInPixelsPerMeter" % (ax, letter), Approx(ppm, 2))
            b.prop("%sRes%sInPixelsPerInch" % (ax, letter),
                   Approx(ppm * Fraction(254, 10000), 2))
    return fn


def _xml_payload(ctx, data, b, name="containsWellformedXML"):
    root = ctx.xmlparse(data)
    if root is DC:
        b.test(name, DC)
        b.p.open = True
        return
    b.test(name, root is not None)
    if root is None and ctx.nullxml:
        # null-terminated XML can be extracted on request
        stripped = bytes(data).rstrip(b"\x00")
        if stripped != bytes(data):
            root = ctx.xmlparse(stripped)
            if root is DC:
                b.p.open = True
                return
    if root is not None:
        b.p.add("*xml*", XmlSub(root))


def box_xml(ctx, d, b):
    _xml_payload(ctx, d, b)


def box_uuid(ctx, d, b):
    b.test("boxLengthIsValid", len(d) > 16)
    ident = s(d, 0, 16)
    if ident is DC:
        b.p.open = True
        return
    if ident == XMP_UUID:
        _xml_payload(ctx, d[16:], b)
    else:
        b.prop("uuid", str(_uuid.UUID(bytes=ident)))


def box_uinf(ctx, d, b):
    types = walk_children(ctx, d, b)
    b.test("containsOneListBox", eq(count(types, b"ulst"), 1))
    b.test("containsOneURLBox", eq(count(types, b"url "), 1))


def box_ulst(ctx, d, b):
    n = u(d, 0, 2)
    b.prop("nU", n)
    b.test("boxLengthIsValid", False if n is DC else len(d) == 2 + 16 * n)
    if n is DC:
        b.p.open = True
        return
    for i in range(n):
        x = s(d, 2 + 16 * i, 16)
        if x is DC:
            b.p.opentags.add("uuid")
            return
        b.prop("uuid", str(_uuid.UUID(bytes=x)))


def box_url(ctx, d, b):
    ver = u(d, 0, 1)
    b.prop("version", ver)
    b.test("versionIsValid", eq(ver, 0))
    fl = s(d, 1, 3)
    b.test("flagIsValid", False if fl is DC else fl == b"\0\0\0")
    loc = bytes(d[4:])
    b.test("locHasNullTerminator", loc.endswith(b"\0"))
    loc = loc.rstrip(b"\0")
    try:
        loc.decode("utf-8")
        b.test("locIsUTF8", True)
    except UnicodeDecodeError:
        b.test("locIsUTF8", False)
    b.prop("loc", loc)


def box_jp2h(ctx, d, b):
    types = walk_children(ctx, d, b)
    ih = b.p.find("imageHeaderBox")
    unk = ih[0].find("unkC")[0].text if ih else None
    b.test("containsImageHeaderBox", has(types, b"ihdr"))
    has_colr = has(types, b"colr")
    if ctx.fmt == "jp2":
        b.test("containsColourSpecificationBox", has_colr)
    elif ctx.fmt == "jph":
        if unk is DC:
            b.t.opentags.add("containsColourSpecificationBox")
        elif unk == "no":
            b.test("containsColourSpecificationBox", has_colr)
        if has_colr is False:
            ct = [k.text for cd in b.p.find("channelDefinitionBox")
                  for k in cd.find("cTyp")]
            if b.p.has_dc("channelDefinitionBox/cTyp"):
                b.t.opentags.add("noZeroCTypesIfNoColourBox")
            else:
                b.test("noZeroCTypesIfNoColourBox", "colour" not in ct)
        elif has_colr is DC:
            b.t.opentags.add("noZeroCTypesIfNoColourBox")
    if ih:
        sg, dp = ih[0].find("bPCSign")[0].text, ih[0].find("bPCDepth")[0].text
        if sg is DC or dp is DC:
            b.t.opentags.add("containsBitsPerComponentBox")
        elif sg == "signed" and dp == "128":
            b.test("containsBitsPerComponentBox", has(types, b"bpcc"))
    first = DC if types and types[0] is DC else (bool(types) and types[0] == b"ihdr")
    b.test("firstJP2HeaderBoxIsImageHeaderBox", first)
    for nm, t in (("ImageHeaderBox", b"ihdr"), ("BitsPerComponentBox", b"bpcc"),
                  ("PaletteBox", b"pclr"), ("ComponentMappingBox", b"cmap"),
                  ("ChannelDefinitionBox", b"cdef"), ("ResolutionBox", b"res ")):
        b.test("noMoreThanOne" + nm, at_most_one(types, t))
    idx = [i for i, t in enumerate(types) if t is not DC and t == b"colr"]
    contiguous = not idx or idx[-1] - idx[0] == len(idx) - 1
    b.test("colourSpecificationBoxesAreContiguous",
           contiguous if DC not in types else DC)
    hp, hc = has(types, b"pclr"), has(types, b"cmap")
    b.test("paletteAndComponentMappingBoxesOnlyTogether",
           DC if hp is DC or hc is DC else hp == hc)


# ---- codestream ----------------------------------------------------------

NOLEN = (0xFF4F, 0xFF93, 0xFFD9, 0xFF92)


def read_segment(d, off):
    """(marker, contents incl. length field, next offset or None)."""
    m = u(d, off, 2)
    if m is DC:
        return None, b"", None
    if m in NOLEN:
        return m, b"", off + 2
    ln = u(d, off + 2, 2)
    if ln is DC:
        return m, b"", None
    return m, d[off + 2:off + 2 + ln], off + 2 + ln


def capability(rsiz):
    if rsiz is DC:
        return DC
    top = rsiz >> 14
    if top == 1:
        return "CAP"
    if top == 2:
        return "ISO/IEC 15444-2"
    if top == 3:
        return "ISO/IEC 15444-2 + CAP"
    prof, sub, main = (rsiz >> 8) & 15, (rsiz >> 4) & 15, rsiz & 15
    if prof == 0:
        names = ["ISO/IEC 15444-1", "Profile 0", "Profile 1",
                 "2K digital cinema profile", "4K digital cinema profile",
                 "Scalable 2K digital cinema profile",
                 "Scalable 4K digital cinema profile",
                 "Long-term storage profile"]
        if main < 8:
            return names[main]
        return "Unknown (value not defined in ISO/IEC 15444-1)"
    bc = {1: "Broadcast Contribution Single Tile Profile",
          2: "Broadcast Contribution Multi-tile Profile",
          3: "Broadcast Contribution Multi-tile Reversible Profile"}
    if prof in bc:
        return "%s, Mainlevel %d" % (bc[prof], main)
    imf = {4: "2k IMF Single Tile Lossy Profile",
           5: "4k IMF Single Tile Lossy Profile",
           6: "8k IMF Single Tile Lossy Profile",
           7: "2k IMF Single/Multi Tile Reversible Profile",
           8: "4k IMF Single/Multi Tile Reversible Profile",
           9: "8k IMF Single/Multi Tile Reversible Profile"}
    if prof in imf:
        return "%s, Mainlevel %d; Sublevel %d" % (imf[prof], main, sub)
    if prof == 15 and sub == 15 and main == 15:
        return "Profile signalled in Profile Marker"
    return "Unknown (value not defined in ISO/IEC 15444-1)"


def ceildiv(a, b):
    return -((-a) // b)


def seg_siz(ctx, d, b):
    lsiz, rsiz = u(d, 0, 2), u(d, 2, 2)
    b.prop("lsiz", lsiz)
    b.test("lsizIsValid", rng(41, lsiz, 49190))
    b.prop("rsiz", rsiz)
    if ctx.fmt in ("jp2", "j2c"):
        b.test("rsizIsValid", DC if rsiz is DC else rsiz >> 12 == 0)
    else:
        b.test("rsizIsValid", DC if rsiz is DC else (rsiz >> 14) & 1 == 1)
    b.prop("capability", capability(rsiz))
    names = ("xsiz", "ysiz", "xOsiz", "yOsiz", "xTsiz", "yTsiz", "xTOsiz", "yTOsiz")
    v = {n: u(d, 4 + 4 * i, 4) for i, n in enumerate(names)}
    for n in names:
        b.prop(n, v[n])
        if "O" in n:
            b.test(n + "IsValid", rng(0, v[n], 2 ** 32 - 2))
        else:
            b.test(n + "IsValid", rng(1, v[n], 2 ** 32 - 1))
    if DC in v.values():
        nt = DC
    elif v["xTsiz"] and v["yTsiz"]:
        nt = (ceildiv(v["xsiz"] - v["xTOsiz"], v["xTsiz"]) *
              ceildiv(v["ysiz"] - v["yTOsiz"], v["yTsiz"]))
    else:
        nt = 0
    b.prop("numberOfTiles", nt if (DC in (nt,) or v["xTsiz"] and v["yTsiz"]) else DC)
    csiz = u(d, 36, 2)
    b.prop("csiz", csiz)
    b.test("csizIsValid", rng(1, csiz, 16384))
    b.test("lsizConsistentWithCsiz",
           DC if DC in (csiz, lsiz) else lsiz == 38 + 3 * csiz)
    b.ext.update(v)
    comps = []
    b.ext.update(rsiz=rsiz, numberOfTiles=nt, csiz=csiz, comps=comps)
    if csiz is DC or len(d) < 38 + 3 * csiz:
        if csiz is DC:
            b.p.opentags |= {"ssizSign", "ssizDepth", "xRsiz", "yRsiz"}
            b.t.opentags |= {"ssizIsValid", "xRsizIsValid", "yRsizIsValid"}
        else:
            b.p.opentags |= {"ssizSign", "ssizDepth", "xRsiz", "yRsiz"}
            b.t.opentags |= {"ssizIsValid", "xRsizIsValid", "yRsizIsValid"}
        b.ext["comps"] = None
        return
    for i in range(csiz):
        ss, xr, yr = (u(d, 38 + 3 * i + k, 1) for k in range(3))
        b.prop("ssizSign", ss >> 7)
        b.prop("ssizDepth", (ss & 127) + 1)
        b.prop("xRsiz", xr)
        b.prop("yRsiz", yr)
        b.test("ssizIsValid", (ss & 127) + 1 <= 38)
        b.test("xRsizIsValid", xr >= 1)
        b.test("yRsizIsValid", yr >= 1)
        comps.append(ss)


def _blockstyle(ctx, b, style):
    only_ht = False
    if ctx.fmt in ("jph", "jhc"):
        if style is DC:
            b.p.opentags |= {"resetOnBoundaries", "predTermination",
                             "segmentationSymbols"}
            only_ht = DC
        else:
            only_ht = style & 0xC0 == 0x40
    b.prop("codingBypass", bit(style, 0))
    b.prop("termOnEachPass", bit(style, 2))
    b.prop("vertCausalContext", bit(style, 3))
    if only_ht is False:
        b.prop("resetOnBoundaries", bit(style, 1))
        b.prop("predTermination", bit(style, 4))
        b.prop("segmentationSymbols", bit(style, 5))


def _codeblock(b, wexp, hexp):
    w = DC if wexp is DC else wexp + 2
    h = DC if hexp is DC else hexp + 2
    b.prop("codeBlockWidth", DC if w is DC else 2 ** w)
    b.prop("codeBlockHeight", DC if h is DC else 2 ** h)
    b.test("codeBlockWidthExponentIsValid", rng(2, w, 10))
    b.test("codeBlockHeightExponentIsValid", rng(2, h, 10))
    b.test("sumHeightWidthExponentIsValid", DC if DC in (w, h) else w + h <= 12)


def _precincts(b, d, off, user, levels):
    if user is DC or levels is DC:
        b.p.opentags |= {"precinctSizeX", "precinctSizeY"}
        b.t.opentags |= {"precinctSizeXIsValid", "precinctSizeYIsValid"}
        return
    for i in range(levels + 1):
        if not user:
            b.prop("precinctSizeX", 2 ** 15)
            b.prop("precinctSizeY", 2 ** 15)
            continue
        x = u(d, off + i, 1)
        px = DC if x is DC else 2 ** (x & 15)
        py = DC if x is DC else 2 ** (x >> 4)
        b.prop("precinctSizeX", px)
        b.prop("precinctSizeY", py)
        b.test("precinctSizeXIsValid", DC if x is DC else (i == 0 or px >= 2))
        b.test("precinctSizeYIsValid", DC if x is DC else (i == 0 or py >= 2))


def seg_cod(ctx, d, b):
    l, scod = u(d, 0, 2), u(d, 2, 1)
    b.prop("lcod", l)
    b.test("lcodIsValid", rng(12, l, 45))
    user = bit(scod, 0)
    b.prop("precincts", user)
    b.prop("sop", bit(scod, 1))
    b.prop("eph", bit(scod, 2))
    order, layers, mct, levels = u(d, 3, 1), u(d, 4, 2), u(d, 6, 1), u(d, 7, 1)
    b.prop("order", order)
    b.test("orderIsValid", rng(0, order, 4))
    b.prop("layers", layers)
    b.test("layersIsValid", rng(1, layers, 65535))
    b.prop("multipleComponentTransformation", mct)
    b.test("multipleComponentTransformationIsValid", isin(mct, (0, 1)))
    b.prop("levels", levels)
    b.test("levelsIsValid", rng(0, levels, 32))
    if DC in (user, l):
        b.test("lcodConsistencyCheck", DC)
    elif user:
        b.test("lcodConsistencyCheck", DC if levels is DC else l == 13 + levels)
    else:
        b.test("lcodConsistencyCheck", l == 12)
    _codeblock(b, u(d, 8, 1), u(d, 9, 1))
    _blockstyle(ctx, b, u(d, 10, 1))
    tr = u(d, 11, 1)
    b.prop("transformation", tr)
    b.test("transformationIsValid", isin(tr, (0, 1)))
    _precincts(b, d, 12, user, levels)


def seg_coc(ctx, d, b, csiz):
    if csiz is DC:
        return b.all_dc()
    l = u(d, 0, 2)
    b.prop("lcoc", l)
    b.test("lcocIsValid", rng(9, l, 43))
    wide = csiz >= 257
    k = 2 if wide else 1
    comp = u(d, 2, k)
    b.prop("ccoc", comp)
    b.test("ccocIsValid", rng(0, comp, 16383 if wide else 255))
    o = 2 + k
    user = bit(u(d, o, 1), 0)
    b.prop("precincts", user)
    levels = u(d, o + 1, 1)
    b.prop("levels", levels)
    b.test("levelsIsValid", rng(0, levels, 32))
    if DC in (user, levels, l):
        b.test("lcocConsistencyCheck", DC)
    else:
        b.test("lcocConsistencyCheck",
               l == 9 + (1 if wide else 0) + (levels + 1 if user else 0))
    _codeblock(b, u(d, o + 2, 1), u(d, o + 3, 1))
    _blockstyle(ctx, b, u(d, o + 4, 1))
    tr = u(d, o + 5, 1)
    b.prop("transformation", tr)
    b.test("transformationIsValid", isin(tr, (0, 1)))
    _precincts(b, d, o + 6, user, levels)


def seg_rgn(ctx, d, b, csiz):
    if csiz is DC:
        return b.all_dc()
    l = u(d, 0, 2)
    b.prop("lrgn", l)
    b.test("lrgnIsValid", rng(5, l, 6))
    k = 2 if csiz >= 257 else 1
    comp = u(d, 2, k)
    b.prop("crgn", comp)
    b.test("crgnIsValid", rng(0, comp, 16383 if k == 2 else 255))
    st, sh = u(d, 2 + k, 1), u(d, 3 + k, 1)
    b.prop("roiStyle", st)
    b.test("roiStyleIsValid", eq(st, 0))
    b.prop("roiShift", sh)
    b.test("roiShiftIsValid",
           rng(0, sh, 37 if ctx.fmt in ("jph", "jhc") else 255))


def _quant(b, d, off, sq, nbytes):
    """Quantisation style, guard bits and step sizes; nbytes is the declared
    number of bytes available for step sizes."""
    style = DC if sq is DC else sq & 31
    b.prop("qStyle", style)
    b.test("qStyleIsValid", rng(0, style, 2))
    b.prop("guardBits", DC if sq is DC else sq >> 5)
    if style is DC or nbytes is DC:
        b.p.opentags |= {"epsilon", "mu"}
        return
    if off + nbytes > len(d):
        # cut off by the end of the file: how much is reported is left open
        b.p.opentags |= {"epsilon", "mu"}
        return
    if style == 0:
        for i in range(max(0, int((nbytes - 1) / 3))):
            x = u(d, off + i, 1)
            b.prop("epsilon", DC if x is DC else x >> 3)
    elif style in (1, 2):
        n = 1 if style == 1 else max(0, int((nbytes - 2) / 6))
        for i in range(n):
            x = u(d, off + 2 * i, 2)
            b.prop("mu", DC if x is DC else x & 2047)
            b.prop("epsilon", DC if x is DC else x >> 11)


def seg_qcd(ctx, d, b):
    l = u(d, 0, 2)
    b.prop("lqcd", l)
    b.test("lqcdIsValid", rng(4, l, 197))
    _quant(b, d, 3, u(d, 2, 1), DC if l is DC else l - 3)


def seg_qcc(ctx, d, b, csiz):
    if csiz is DC:
        return b.all_dc()
    l = u(d, 0, 2)
    b.prop("lqcc", l)
    b.test("lqccIsValid", rng(5, l, 199))
    k = 2 if csiz >= 257 else 1
    b.prop("cqcc", u(d, 2, k))
    _quant(b, d, 3 + k, u(d, 2 + k, 1), DC if l is DC else l - 3 - k)


def seg_poc(ctx, d, b, csiz):
    if csiz is DC:
        return b.all_dc()
    l = u(d, 0, 2)
    b.prop("lpoc", l)
    b.test("lpocIsValid", rng(9, l, 65535))
    wide = csiz >= 257
    k = 2 if wide else 1
    size = 5 + 2 * k
    if l is DC:
        b.t.open = b.p.open = True
        return
    for i in range(max(0, (l - 2) // size)):
        o = 2 + i * size
        if o + size > len(d):
            b.t.open = b.p.open = True
            return
        rs, cs = u(d, o, 1), u(d, o + 1, k)
        ly, re = u(d, o + 1 + k, 2), u(d, o + 3 + k, 1)
        ce, od = u(d, o + 4 + k, k), u(d, o + 4 + 2 * k, 1)
        for nm, v in (("rspoc", rs), ("cspoc", cs), ("lyepoc", ly),
                      ("repoc", re), ("cepoc", ce), ("order", od)):
            b.prop(nm, v)
        b.test("rspocIsValid", rs <= 32)
        b.test("cspocIsValid", cs <= (16383 if wide else 255))
        b.test("lyepocIsValid", ly >= 1)
        b.test("repocIsValid", rs + 1 <= re <= 33)
        b.test("cepocIsValid", ce == 0 or cs + 1 <= ce <= (16384 if wide else 255))
        b.test("orderIsValid", od <= 4)


def seg_crg(ctx, d, b, csiz):
    if csiz is DC:
        return b.all_dc()
    l = u(d, 0, 2)
    b.prop("lcrg", l)
    b.test("lcrgIsValid", rng(6, l, 65534))
    for i in range(csiz):
        x, y = u(d, 2 + 4 * i, 2), u(d, 4 + 4 * i, 2)
        if x is DC or y is DC:
            b.t.open = b.p.open = True
            b.ext["cut"] = True
            return
        b.prop("xcrg", x)
        b.prop("ycrg", y)
        b.test("xcrgIsValid", True)
        b.test("ycrgIsValid", True)


def seg_com(ctx, d, b):
    l, r = u(d, 0, 2), u(d, 2, 2)
    b.prop("lcom", l)
    b.test("lcomIsValid", rng(5, l, 65535))
    b.prop("rcom", r)
    b.test("rcomIsValid", isin(r, (0, 1)))
    if r is DC or l is DC:
        b.t.open = b.p.open = True
        return
    raw = bytes(d[4:l]) if l >= 4 else b""
    if r == 0:
        ok, txt = True, raw.hex()
    elif r == 1:
        txt = raw.decode("iso-8859-15")
        if "\xad" in txt:
            ok = DC      # soft hyphen: printable or not is a matter of taste
        else:
            ok = not any((ord(c) < 32 and c not in "\t\n\r") or 127 <= ord(c) < 160
                         for c in txt)
    else:
        ok, txt = False, None
    b.test("commentIsValid", ok)
    if ok is DC:
        b.p.opentags.add("comment")
    elif ok:
        b.prop("comment", txt)


def seg_cap(ctx, d, b):
    l, pcap = u(d, 0, 2), u(d, 2, 4)
    b.prop("lcap", l)
    if pcap is DC:
        b.t.open = b.p.open = True
        return
    parts = [i + 1 for i in range(32) if pcap >> (31 - i) & 1]
    for p in parts:
        b.prop("pcapPart", p)
    b.test("lcapIsValid", eq(l, 6 + 2 * len(parts)))
    if ctx.fmt in ("jph", "jhc"):
        b.test("pcap15IsValid", 15 in parts)
        if 15 in parts:
            c = u(d, 6 + 2 * parts.index(15), 2)
            b.prop("htCodeBlocks", DC if c is DC else c & 0xC000)
            b.prop("htSets", bit(c, 13))
            b.prop("htRegion", bit(c, 12))
            b.prop("htHomogeneous", bit(c, 11))
            b.prop("htReversible", bit(c, 5))
            if c is DC:
                b.prop("htB", DC)
            else:
                p = c & 31
                b.prop("htB", 8 if p == 0 else p + 8 if p < 20 else
                       4 * (p - 19) + 27 if p < 31 else 74)


def _profnum(d, l):
    n = (l - 2) // 2
    vals = [u(d, 2 + 2 * i, 2) for i in range(max(0, n))]
    if DC in vals:
        return DC, DC
    num = sum(v << (16 * i) for i, v in enumerate(vals))
    return num, (vals[-1] if vals else None)


def seg_prf(ctx, d, b):
    l = u(d, 0, 2)
    b.prop("lprf", l)
    b.test("lprfIsValid", rng(4, l, 65534))
    if l is DC:
        b.t.open = b.p.open = True
        return
    num, last = _profnum(d, l)
    if num is DC:
        b.t.opentags |= {"pprfIsValid", "PRFnumIsValid"}
        b.prop("PRFnum", DC)
        return
    if last is not None:
        b.test("pprfIsValid", last != 0)
    b.test("PRFnumIsValid", num + 4095 > 4095)
    b.prop("PRFnum", num + 4095)


def seg_cpf(ctx, d, b):
    l = u(d, 0, 2)
    b.prop("lcpf", l)
    ht = ctx.fmt in ("jph", "jhc")
    if ht:
        b.test("lcpfIsValid", rng(4, l, 65534))
    if l is DC:
        b.t.open = b.p.open = True
        return
    num, last = _profnum(d, l)
    if num is DC:
        b.t.opentags.add("pcpfIsValid")
        b.prop("CPFnum", DC)
        return
    if ht and last is not None:
        b.test("pcpfIsValid", last != 0)
    b.prop("CPFnum", num - 1)


def _packetlengths(d, off, l):
    """Comma separated hex packet lengths (7 bits per byte, MSB continues)."""
    end = min(l, len(d))
    out, i = [], off
    while i < end:
        v, n = 0, 0
        while True:
            if i >= end:
                return DC
            x = d[i]
            i += 1
            n += 1
            v = (v << 7) | (x & 127)
            if not x & 128:
                break
        out.append("%0*X" % (2 * n, v))
    return ",".join(out)


def seg_plt(ctx, d, b):
    l = u(d, 0, 2)
    b.prop("lplt", l)
    b.prop("zplt", u(d, 2, 1))
    b.prop("iplt", DC if l is DC or l != len(d) else _packetlengths(bytes(d), 3, l))


def seg_plm(ctx, d, b):
    l = u(d, 0, 2)
    b.prop("lplm", l)
    b.prop("zplm", u(d, 2, 1))
    b.prop("nplm", u(d, 3, 1))
    # known finding: only a single (Nplm, Iplm) group is decoded correctly
    b.prop("iplm", DC if l is DC or l != len(d) or u(d, 3, 1) != l - 4 else
           _packetlengths(bytes(d), 4, l))


MAIN = {0xFF52: ("cod", seg_cod, False), 0xFF53: ("coc", seg_coc, True),
        0xFF5C: ("qcd", seg_qcd, False), 0xFF5D: ("qcc", seg_qcc, True),
        0xFF5E: ("rgn", seg_rgn, True), 0xFF5F: ("poc", seg_poc, True),
        0xFF63: ("crg", seg_crg, True), 0xFF64: ("com", seg_com, False),
        0xFF50: ("cap", seg_cap, False), 0xFF56: ("prf", seg_prf, False),
        0xFF59: ("cpf", seg_cpf, False), 0xFF55: ("tlm", None, False),
        0xFF57: ("plm", seg_plm, False), 0xFF60: ("ppm", None, False)}
TILE = {m: MAIN[m] for m in (0xFF52, 0xFF53, 0xFF5C, 0xFF5D, 0xFF5E, 0xFF5F, 0xFF64)}
TILE.update({0xFF58: ("plt", seg_plt, False), 0xFF61: ("ppt", None, False)})
PACKET = ("plm", "ppm", "plt", "ppt")


def do_segment(ctx, spec, contents, csiz, truncated):
    tag, fn, needs = spec
    b = Box(tag)
    if fn:
        if needs:
            fn(ctx, contents, b, csiz)
        else:
            fn(ctx, contents, b)
    return b


def unique_test(p, path):
    """None: not applicable; DC; True/False."""
    tag = path.split("/")[0]
    if p.has_dc(path):
        vals = [k.text for k in p.find(path)]
        return DC if (vals or p.has_dc(path)) else None
    vals = [k.text for k in p.find(path)]
    if not vals:
        return None
    if DC in vals:
        return DC
    return len(set(vals)) == len(vals)


def do_tilepart(ctx, d, off, csiz):
    b = Box("tilePart")
    m, contents, nxt = read_segment(d, off)
    sot = Box("sot")
    lsot, isot, psot = u(contents, 0, 2), u(contents, 2, 2), u(contents, 4, 4)
    tpsot, tnsot = u(contents, 8, 1), u(contents, 9, 1)
    for nm, v in (("lsot", lsot), ("isot", isot), ("psot", psot),
                  ("tpsot", tpsot), ("tnsot", tnsot)):
        sot.prop(nm, v)
    sot.test("lsotIsValid", eq(lsot, 10))
    sot.test("isotIsValid", rng(0, isot, 65534))
    sot.test("psotIsValid", DC if psot is DC else not 1 <= psot <= 13)
    sot.test("tpsotIsValid", rng(0, tpsot, 254))
    b.merge(sot)
    nplt = nppt = 0
    found = False
    seen = set()
    pos = nxt
    while pos is not None:
        m, contents, pos2 = read_segment(d, pos)
        if m is None:
            break
        if m == 0xFF93:
            found = True
            break
        if m in TILE:
            spec = TILE[m]
            seen.add(spec[0])
            nplt += spec[0] == "plt"
            nppt += spec[0] == "ppt"
            b.merge(do_segment(ctx, spec, contents, csiz, pos2 is None),
                    ctx.packetmarkers or spec[0] not in PACKET)
        pos = pos2
    b.test("foundSODMarker", found)
    b.prop("pltCount", nplt)
    b.prop("pptCount", nppt)
    for tag in ("cod", "coc", "qcd", "qcc", "rgn"):
        if tag in seen:
            b.test(tag.upper() + "Allowed", eq(tpsot, 0))
    for nm, path in (("maxOneCcocPerComponentTP", "coc/ccoc"),
                     ("maxOneCqccPerComponentTP", "qcc/cqcc")):
        v = unique_test(b.p, path)
        if v is DC:
            b.t.opentags.add(nm)
        elif v is not None:
            b.test(nm, v)
    if psot is DC:
        b.t.opentags.add("foundNextTilePartOrEOC")
    elif psot != 0:
        b.test("foundNextTilePartOrEOC",
               u(d, off + psot, 2) in (0xFF90, 0xFFD9))
    return b, isot, psot, tnsot


def do_codestream(ctx, d, b):
    n = len(d)
    m, _, nxt = read_segment(d, 0)
    b.test("codestreamStartsWithSOCMarker", m == 0xFF4F)
    if nxt is None:
        b.test("foundSIZMarker", DC)
        b.t.open = b.p.open = True
        return
    m, contents, nxt = read_segment(d, nxt)
    b.test("foundSIZMarker", m == 0xFF51)
    if m != 0xFF51:
        return
    siz = Box("siz")
    seg_siz(ctx, contents, siz)
    b.merge(siz)
    b.ext["siz"] = siz.ext
    csiz = siz.ext["csiz"]
    plm = ppm = 0
    seen = set()
    pos = nxt
    at_sot = None
    while pos is not None:
        m, contents, pos2 = read_segment(d, pos)
        if m is None:
            break
        if m == 0xFF90:
            at_sot = pos
            break
        if m in MAIN:
            spec = MAIN[m]
            seen.add(spec[0])
            plm += spec[0] == "plm"
            ppm += spec[0] == "ppm"
            b.merge(do_segment(ctx, spec, contents, csiz, pos2 is None),
                    ctx.packetmarkers or spec[0] not in PACKET)
        pos = pos2
    b.prop("ppmCount", ppm)
    b.prop("plmCount", plm)
    b.test("foundCODMarker", "cod" in seen)
    b.test("foundQCDMarker", "qcd" in seen)
    rsiz = siz.ext["rsiz"]
    if rsiz is DC:
        b.t.opentags.add("foundCAPMarker")
    elif rsiz >> 14 == 1:
        b.test("foundCAPMarker", "cap" in seen)

    ntiles = siz.ext["numberOfTiles"]
    limit = ntiles if ntiles is DC else min(ntiles, 65535)
    tp = Box("tileParts")
    indices, expected, got = set(), {}, {}
    fuzzy = limit is DC
    cur = at_sot
    visited = 0
    while cur is not None and u(d, cur, 2) == 0xFF90:
        part, isot, psot, tnsot = do_tilepart(ctx, d, cur, csiz)
        visited += 1
        tp.merge(part)
        if isot is DC or tnsot is DC or psot is DC:
            fuzzy = True
        if isot is DC:
            tp.t.open = tp.p.open = True
            break
        indices.add(isot)
        if tnsot is not DC and tnsot != 0:
            expected[isot] = tnsot
        if limit is DC:
            tp.t.open = tp.p.open = True
            break
        if not 0 <= isot < limit:
            break
        got[isot] = got.get(isot, 0) + 1
        if psot is DC:
            tp.t.open = tp.p.open = True
            break
        if psot == 0:
            break
        cur += psot
    if fuzzy:
        b.t.opentags |= {"foundExpectedNumberOfTiles",
                         "foundExpectedNumberOfTileParts"}
    else:
        b.test("foundExpectedNumberOfTiles", len(indices) == limit)
        if expected:
            b.test("foundExpectedNumberOfTileParts",
                   all(got.get(t) == k for t, k in expected.items()) and
                   all(t in got for t in range(limit)))
    b.merge(tp)
    for nm, path in (("maxOneCcocPerComponentMain", "coc/ccoc"),
                     ("maxOneCqccPerComponentMain", "qcc/cqcc")):
        v = unique_test(b.p, path)
        if v is DC:
            b.t.opentags.add(nm)
        elif v is not None:
            b.test(nm, v)
    b.test("foundEOCMarker", n >= 2 and bytes(d[n - 2:n]) == b"\xff\xd9")
    if ctx.fmt in ("j2c", "jhc"):
        e = siz.ext
        if e["comps"] is None or DC in (e["xsiz"], e["ysiz"], e["xOsiz"], e["yOsiz"]):
            b.p.opentags.add("compressionRatio")
        else:
            bits = sum((c & 127) + 1 for c in e["comps"])
            b.prop("compressionRatio",
                   Approx(Fraction(bits, 8) * (e["ysiz"] - e["yOsiz"]) *
                          (e["xsiz"] - e["xOsiz"]) / n, 2))


def box_jp2c(ctx, d, b):
    do_codestream(ctx, d, b)


BOX_FN = {
    "signatureBox": box_signature, "fileTypeBox": box_ftyp,
    "jp2HeaderBox": box_jp2h, "imageHeaderBox": box_ihdr,
    "bitsPerComponentBox": box_bpcc, "colourSpecificationBox": box_colr,
    "paletteBox": box_pclr, "componentMappingBox": box_cmap,
    "channelDefinitionBox": box_cdef, "resolutionBox": box_res,
    "captureResolutionBox": _resbox("c"), "displayResolutionBox": _resbox("d"),
    "contiguousCodestreamBox": box_jp2c, "xmlBox": box_xml,
    "uuidBox": box_uuid, "uuidInfoBox": box_uinf, "uuidListBox": box_ulst,
    "urlBox": box_url,
}


# ---- whole file ----------------------------------------------------------

class Prediction:
    def __init__(self, tests, props, warns):
        self.tests, self.props, self.warns = tests, props, warns

    def verdict(self):
        """True / False / DC."""
        state = {"dc": False, "false": False}

        def walk(n):
            if n.dc or n.open or n.opentags:
                state["dc"] = True
            for k in n.kids:
                if k.kids or k.text is None:
                    walk(k)
                elif k.text is DC:
                    state["dc"] = True
                elif k.text is False:
                    state["false"] = True
        walk(self.tests)
        if state["false"]:
            return False
        return DC if state["dc"] else True


def raw_int(node):
    t = node.text
    return DC if t is DC else int(t)


def predict(data, fmt, nullxml=False, packetmarkers=False):
    ctx = Ctx(fmt, nullxml, packetmarkers)
    if not data:
        p = Prediction(Node("tests"), Node("properties"), Node("warnings"))
        p.tests.open = p.props.open = p.warns.open = True
        return p
    if fmt in ("j2c", "jhc"):
        b = Box("root")
        do_codestream(ctx, data, b)
        b.t.tag, b.p.tag, b.w.tag = "tests", "properties", "warnings"
        return Prediction(b.t, b.p, b.w)
    b = Box("root")
    types = walk_children(ctx, data, b)
    b.test("containsSignatureBox", has(types, b"jP  "))
    b.test("containsFileTypeBox", has(types, b"ftyp"))
    b.test("containsJP2HeaderBox", has(types, b"jp2h"))
    b.test("containsContiguousCodestreamBox", has(types, b"jp2c"))
    ihs = b.p.find("jp2HeaderBox/imageHeaderBox")
    if ihs:
        ipr = ihs[0].find("iPR")[0].text
        if ipr is DC:
            b.t.opentags.add("containsIntellectualPropertyBox")
        elif ipr == "yes":
            b.test("containsIntellectualPropertyBox", has(types, b"jp2i"))
    t = [None if x is DC else x for x in types]
    b.test("firstBoxIsSignatureBox",
           DC if types and types[0] is DC else bool(t) and t[0] == b"jP  ")
    b.test("secondBoxIsFileTypeBox",
           DC if len(types) > 1 and types[1] is DC else
           len(t) > 1 and t[1] == b"ftyp")
    if DC in types:
        loc = DC
    elif b"jp2h" in t and b"jp2c" in t:
        loc = 1 < t.index(b"jp2h") < t.index(b"jp2c")
    else:
        loc = False
    b.test("locationJP2HeaderBoxIsValid", loc)
    for nm, ty in (("SignatureBox", b"jP  "), ("FileTypeBox", b"ftyp"),
                   ("JP2HeaderBox", b"jp2h")):
        b.test("noMoreThanOne" + nm, at_most_one(types, ty))
    sizs = b.p.find("contiguousCodestreamBox/siz")
    if b.p.has_dc("contiguousCodestreamBox/siz") or \
            b.p.has_dc("jp2HeaderBox/imageHeaderBox"):
        b.t.open = True
        b.p.opentags.add("compressionRatio")
    elif ihs and sizs:
        consistency(b, data, ihs[0], sizs[0])
    b.t.tag, b.p.tag, b.w.tag = "tests", "properties", "warnings"
    return Prediction(b.t, b.p, b.w)


def consistency(b, data, ih, siz):
    def g(node, tag):
        return raw_int(node.find(tag)[0])

    h, w, nc = g(ih, "height"), g(ih, "width"), g(ih, "nC")
    xs, ys, xo, yo = (g(siz, k) for k in ("xsiz", "ysiz", "xOsiz", "yOsiz"))
    cs = g(siz, "csiz")
    b.test("heightConsistentWithSIZ", DC if DC in (h, ys, yo) else h == ys - yo)
    b.test("widthConsistentWithSIZ", DC if DC in (w, xs, xo) else w == xs - xo)
    b.test("nCConsistentWithSIZ", eq(nc, cs))
    sg, dp = ih.find("bPCSign")[0].text, ih.find("bPCDepth")[0].text
    if DC in (sg, dp, nc):
        b.test("bPCSignConsistentWithSIZ", DC)
        b.test("bPCDepthConsistentWithSIZ", DC)
        b.p.opentags.add("compressionRatio")
        return
    if sg == "signed" and dp == "128":
        bp = b.p.find("jp2HeaderBox/bitsPerComponentBox")
        signs = [k.text for k in bp[0].find("bPCSign")] if bp else []
        depths = [k.text for k in bp[0].find("bPCDepth")] if bp else []
    else:
        signs, depths = [sg] * nc, [dp] * nc
    if siz.has_dc("ssizSign"):
        b.test("bPCSignConsistentWithSIZ", DC)
        b.test("bPCDepthConsistentWithSIZ", DC)
    else:
        b.test("bPCSignConsistentWithSIZ",
               signs == [k.text for k in siz.find("ssizSign")])
        b.test("bPCDepthConsistentWithSIZ",
               depths == [k.text for k in siz.find("ssizDepth")])
    if h is DC or w is DC:
        b.p.opentags.add("compressionRatio")
    else:
        bits = sum(int(x) for x in depths)
        b.prop("compressionRatio",
               Approx(Fraction(bits, 8) * h * w / len(data), 2))


# --------------------------------------------------------------------------
# comparison with an actual report

def approx_ok(text, ap):
    try:
        v = Fraction(text)
    except (ValueError, ZeroDivisionError):
        return False
    exact = ap.exact
    tol = Fraction(1, 2 * 10 ** ap.digits) + Fraction(1, 10 ** (ap.digits + 6))
    tol += abs(exact) / 10 ** 12
    return abs(v - exact) <= tol


def xml_equal(ref, act, path):
    """Compare an lxml element with a reported ElementTree element."""
    def kids(e):
        return [k for k in e if isinstance(k.tag, str)]

    def txt(e):
        # text up to the first child element, comments/PIs removed
        out = [e.text or ""]
        for k in e:
            if isinstance(k.tag, str):
                break
            out.append(k.tail or "")
        return "".join(out)

    def tails(e):
        """text after each child element"""
        res, cur = [], None
        for k in e:
            if isinstance(k.tag, str):
                if cur is not None:
                    res.append(cur)
                cur = k.tail or ""
            elif cur is not None:
                cur += k.tail or ""
        if cur is not None:
            res.append(cur)
        return res

    if ref.tag != act.tag:
        return "%s: element %r reported as %r" % (path, ref.tag, act.tag)
    if dict(ref.attrib) != dict(act.attrib):
        return "%s: attributes %r reported as %r" % (path, dict(ref.attrib),
                                                     dict(act.attrib))
    if clean(txt(ref)) != clean(act.text or ""):
        return "%s: text %r reported as %r" % (path, txt(ref), act.text)
    rk, ak = kids(ref), list(act)
    if len(rk) != len(ak):
        return "%s: %d child elements reported as %d" % (path, len(rk), len(ak))
    rt = tails(ref)
    for i, (r, a) in enumerate(zip(rk, ak)):
        if clean(rt[i]) != clean(a.tail or ""):
            return "%s: text after child %d %r reported as %r" % (
                path, i, rt[i], a.tail)
        m = xml_equal(r, a, path + "/" + str(r.tag))
        if m:
            return m
    return None


def compare(node, elem, path=None, out=None, limit=20):
    """List of (path, expected, actual) discrepancies between predicted node and
    the actual element.  Order matters among equal tags only."""
    if out is None:
        out = []
    path = path or node.tag
    if node.dc or len(out) >= limit:
        return out
    if any(isinstance(k.text, XmlSub) for k in node.kids):
        subs = [k for k in node.kids if isinstance(k.text, XmlSub)]
        kids = list(elem)
        if len(kids) != len(subs):
            out.append((path, "%d embedded XML document(s)" % len(subs),
                        "%d child elements" % len(kids)))
        else:
            for k, a in zip(subs, kids):
                m = xml_equal(k.text.root, a, path)
                if m:
                    out.append((path, "embedded XML as stored", m))
        return out
    exp, act = {}, {}
    for k in node.kids:
        exp.setdefault(k.tag, []).append(k)
    for e in elem:
        act.setdefault(e.tag, []).append(e)
    for tag in list(exp) + [t for t in act if t not in exp]:
        if tag in node.opentags:
            continue
        es, as_ = exp.get(tag, []), act.get(tag, [])
        if len(es) != len(as_):
            if node.open:
                continue
            out.append((path + "/" + tag, "%d occurrence(s)%s" % (
                len(es), "" if not es or es[0].kids else
                " " + repr([k.text for k in es[:6]])),
                "%d occurrence(s)%s" % (len(as_), "" if not as_ else " " + repr(
                    [a.text for a in as_[:6]]))))
            continue
        for i, (k, a) in enumerate(zip(es, as_)):
            p = path + "/" + tag + ("[%d]" % i if len(es) > 1 else "")
            if k.kids or k.open or k.opentags or k.dc or len(a):
                compare(k, a, p, out, limit)
                continue
            t = k.text
            if t is DC:
                continue
            if isinstance(t, Approx):
                if not approx_ok(a.text or "", t):
                    out.append((p, "%.6f (rounded to %d decimals)" % (
                        float(t.exact), t.digits), a.text))
            elif isinstance(t, bool):
                if a.text != str(t):
                    out.append((p, str(t), a.text))
            elif (t or "") != (a.text or ""):
                out.append((p, t, a.text))
            if len(out) >= limit:
                return out
    return out
