"""C13: MIX output exactly for valid container images, and truthful."""
from decimal import Decimal

import diff
import extremes
import jpgen as g
import work

PROPERTY = "C13"
RULE = "distinct MIX records up to the values of text and numbers, and distinct reports"
NSV = {1: "http://www.loc.gov/mix/v10", 2: "http://www.loc.gov/mix/v20"}
RDF = "{http://www.w3.org/1999/02/22-rdf-syntax-ns#}"
XMP = "{http://ns.adobe.com/xap/1.0/}"
TIFF = "{http://ns.adobe.com/tiff/1.0/}"
AUX = "{http://ns.adobe.com/exif/1.0/aux/}"


def items(tier, seed):
    k = 1 if tier == "quick" else 15
    out = [["mix", f, i] for f in work.CONT for i in range(7000 * k)]
    out += work.stream("mut", 2500 * k) + work.stream("host", 1000 * k)
    out += work.stream("cross", 800 * k) + work.stream("conf", 1500 * k)
    for fmt in work.CONT:
        out += work.sweep_fields(seed, fmt, tier, lambda q: not work.is_cs(q) or q in (
            "siz", "cod.0", "cod.1", "com"), 0.02, 0.15)
    out += extremes.items("cs siz box icc meta", work.CONT)
    out += extremes.sized("cs siz box icc meta", work.CONT, tier=tier, seed=seed)
    return work.shuffled(out, seed)


COMMENTS = ["Kakadu-v6.4.1", "Kakadu-v", "-v1", "a-v1-v2.0", "Kakadu-vx", "no version", "x -v 7", "Ü-v12.",
            "Created by OpenJPEG version 2.3.1", "Kdu-Layer-Info: log_2{Delta-D(squared-error)}", "-v",
            "Aware JPEG2000-v3.1.4 (extra)", " pad -v2 ", "v-v", "-", "a-v1.2.3.4.5rc"]


def gen(item, seed):
    _, fmt, i = item
    r = g.rng(seed, "mix", fmt, i)
    im = g.image(r, fmt, small=True, extras=r.random() < 0.4)
    for _ in range(g.pick(r, 0, 1, 1, 2, 3)):
        d = g.xmp_doc(r) if r.random() < 0.75 else g.xml_doc(r)
        b = g.Box(b"xml ", g.Fields(("data", None, d))) if r.random() < 0.5 else \
            g.Box(b"uuid", g.Fields(("id", 16, g.XMP_UUID), ("data", None, d)))
        im.boxes.insert(r.randrange(2, len(im.boxes) + 1), b)
    for cs in im.codestreams():
        for _ in range(g.pick(r, 0, 0, 1, 1, 2)):
            t = r.choice(COMMENTS) if r.random() < 0.8 else g.text(r, r.randrange(1, 30))
            cs.segs.insert(r.randrange(len(cs.segs) + 1), g.Seg("com", 0xFF64, g.Fields(
                ("rcom", 2, 1), ("ccom", None, t.encode("latin-1", "replace")))))
    if r.random() < 0.1:
        g.mutate(r, im)
    return im, im.ser(), fmt


def build(p, v):
    """MIX record derived from the reported properties, as nested lists."""
    def t(path):
        e = p.find(path)
        return None if e is None else (e.text or "")

    br = t("fileTypeBox/br")
    fmtname = "image/" + (br.strip() if br is not None else "jp2")
    ratio = Decimal(t("compressionRatio"))
    comp = [["compressionScheme", "JPEG 2000 Lossless" if
             t("contiguousCodestreamBox/cod/transformation") == "5-3 reversible" else "JPEG 2000 Lossy"]]
    if v == 1:
        comp.append(["compressionRatio", ("near", ratio)])
    else:
        comp.append(["compressionRatio", [["numerator", ("near", ratio * 100)], ["denominator", "100"]]])
    bdoi = ["BasicDigitalObjectInformation", [
        ["FormatDesignation", [["formatName", fmtname]]],
        ["byteOrder", "big_endian" if v == 1 else "big endian"],
        ["Compression", comp]]]
    bic = [["imageWidth", t("jp2HeaderBox/imageHeaderBox/width")],
           ["imageHeight", t("jp2HeaderBox/imageHeaderBox/height")]]
    icc = p.find("jp2HeaderBox/colourSpecificationBox/icc")
    if icc is not None and len(icc):
        bic.append(["PhotometricInterpretation", [
            ["colorSpace", t("jp2HeaderBox/colourSpecificationBox/icc/colourSpace").strip()],
            ["ColorProfile", [["IccProfile", [
                ["iccProfileName", t("jp2HeaderBox/colourSpecificationBox/icc/description")]]]]]]])
    else:
        e = t("jp2HeaderBox/colourSpecificationBox/enumCS")
        if e is not None:
            bic.append(["PhotometricInterpretation", [["colorSpace", e.strip()]]])
    j2k = []
    com = t("contiguousCodestreamBox/com/comment")
    com = next((q for q in (com or "").split("\n") if "-v" in q), None)
    if com is not None:
        k = com.rindex("-v")
        rest = com[k + 2:]
        n = 0
        while n < len(rest) and rest[n] in "0123456789.":
            n += 1
        j2k.append(["CodecCompliance", [["codec", com[:k]], ["codecVersion", rest[:n]]]])
    x, y = t("contiguousCodestreamBox/siz/xTsiz"), t("contiguousCodestreamBox/siz/yTsiz")
    enc = [["tiles", x + "x" + y]] if v == 1 else [["Tiles", [["tileWidth", x], ["tileHeight", y]]]]
    if t("contiguousCodestreamBox/cod/layers") != "0":
        enc.append(["qualityLayers", t("contiguousCodestreamBox/cod/layers")])
    if t("contiguousCodestreamBox/cod/levels") != "0":
        enc.append(["resolutionLevels", t("contiguousCodestreamBox/cod/levels")])
    j2k.append(["EncodingOptions", enc])
    bii = ["BasicImageInformation", [["BasicImageCharacteristics", bic],
                                     ["SpecialFormatCharacteristics", [["JPEG2000", j2k]]]]]
    rec = [bdoi, bii]
    cap = capture(p)
    if cap:
        rec.append(cap)
    iam = []
    for box, pre in (("captureResolutionBox", "Resc"), ("displayResolutionBox", "Resd")):
        res = p.find("jp2HeaderBox/resolutionBox/" + box)
        if res is not None:
            q = [Decimal(res.find(c + pre + "InPixelsPerMeter").text) * 100 for c in "hv"]
            iam.append(["SpatialMetrics", [
                ["samplingFrequencyUnit", "3" if v == 1 else "cm"],
                ["xSamplingFrequency", [["numerator", ("near", q[0])], ["denominator", "10000"]]],
                ["ySamplingFrequency", [["numerator", ("near", q[1])], ["denominator", "10000"]]]]])
            break
    depths = [e.text for e in p.find("contiguousCodestreamBox/siz").findall("ssizDepth")]
    if v == 1:
        bps = ["bitsPerSample", [["bitsPerSampleValue", ",".join(depths)],
                                 ["bitsPerSampleUnit", "integer"]]]
    else:
        bps = ["BitsPerSample", [["bitsPerSampleValue", d] for d in depths] +
               [["bitsPerSampleUnit", "integer"]]]
    iam.append(["ImageColorEncoding", [bps, ["samplesPerPixel", t("contiguousCodestreamBox/siz/csiz")]]])
    rec.append(["ImageAssessmentMetadata", iam])
    return rec


def capture(p):
    rdf = None
    for box in ("xmlBox", "uuidBox"):
        rdf = p.find(box + "/{adobe:ns:meta/}xmpmeta/" + RDF + "RDF")
        if rdf is not None and len(rdf):
            break
        rdf = None
    if rdf is None:
        return None

    def val(ns, tag):
        for d in rdf.findall(RDF + "Description"):
            e = d.find(ns + tag)
            if e is not None:
                return e.text
        d = rdf.find(RDF + "Description")
        return None if d is None else (d.get(ns + tag) or None)

    def entry(ns, tag, name):
        x = val(ns, tag)
        return [] if x is None else [[name, x.strip()]]

    out = [["GeneralCaptureInformation", entry(XMP, "CreateDate", "dateTimeCreated") +
            entry(TIFF, "Artist", "imageProducer")]]
    sc = entry(TIFF, "Make", "scannerManufacturer")
    sm = entry(TIFF, "Model", "scannerModelName") + entry(AUX, "SerialNumber", "scannerModelSerialNo")
    if sm:
        sc.append(["ScannerModel", sm])
    tool = val(XMP, "CreatorTool")
    if tool is not None:
        head, sep, ver = tool.rpartition(" ")
        if tool != tool.strip():
            # padded value: how the two are told apart is left open
            sc.append(["ScanningSystemSoftware", ("words", tool.split())])
        elif sep and not ver.strip("0123456789."):
            sc.append(["ScanningSystemSoftware", [["scanningSoftwareName", head],
                                                  ["scanningSoftwareVersionNo", ver]]])
        else:
            sc.append(["ScanningSystemSoftware", [["scanningSoftwareName", tool]]])
    if sc:
        out.append(["ScannerCapture", sc])
    return ["ImageCaptureMetadata", out]


def differs(want, e, path):
    """None or description; want: [name, str | ("near", Decimal) | list]."""
    name, val = want
    path += "/" + name
    if e.tag != "mix:" + name:
        return "%s: element %s" % (path, e.tag)
    if isinstance(val, tuple) and val[0] == "words":
        got = " ".join((c.text or "").strip() for c in e).split()
        return None if got == val[1] else "%s: %s instead of %s" % (path, got, val[1])
    if isinstance(val, list):
        if [c.tag for c in e] != ["mix:" + w[0] for w in val]:
            return "%s: holds %s instead of %s" % (path, [c.tag for c in e], [w[0] for w in val])
        for w, c in zip(val, e):
            d = differs(w, c, path)
            if d:
                return d
        return None
    if len(e):
        return "%s: unexpected children" % path
    got = e.text or ""
    if isinstance(val, tuple):
        try:
            n = int(got)
        except ValueError:
            return "%s is %r" % (path, got)
        tol = Decimal("0.5") + abs(val[1]) * Decimal("1e-14")
        return None if abs(n - val[1]) <= tol else "%s is %s instead of %s" % (path, got, val[1])
    return None if got == (val or "") else "%s is %r instead of %r" % (path, got, val)


def skeleton(e):
    return (e.tag, tuple(skeleton(c) for c in e))


def run(item, ctx):
    if item[0] == "mix":
        im, data, fmt = gen(item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
    ctx.n["items_" + item[0]] += 1
    r = g.rng(ctx.seed, "opt", item)
    v = r.randrange(1, 3)
    verbose, pm, nx = r.random() < 0.3, r.random() < 0.3, r.random() < 0.3
    files = {"image." + fmt: data}
    info = dict(mix=v, verbose=verbose, packetmarkers=pm, nullxml=nx, format=fmt)
    rep = ctx.analyse(data, fmt, verbose, pm, nx, v)
    err = diff.shape_errors(rep, fmt, v)
    if err:
        ctx.violation("%s with MIX %d: %s" % (fmt, v, err[0]), files, **info)
        return
    diff.observe(ctx, rep, fmt)
    ext = rep.find("propertiesExtension")
    want = fmt in work.CONT and rep.find("isValid").text == "True"
    if len(ext) != (1 if want else 0):
        ctx.violation("%s image, valid %s: %d MIX records" % (fmt, rep.find("isValid").text, len(ext)),
                      files, **info)
        return
    if not want:
        ctx.n["without_record"] += 1
        return
    mx = ext[0]
    at = dict(mx.attrib)
    if mx.tag != "mix:mix" or at.get("xmlns:mix") != NSV[v] or \
            at.get("xmlns:xsi") != "http://www.w3.org/2001/XMLSchema-instance" or \
            (at.get("xsi:schemaLocation") or "").split()[:1] != [NSV[v]] or \
            ("mix10" in at["xsi:schemaLocation"].split()[-1]) != (v == 1):
        ctx.violation("MIX %d record is %s %s" % (v, mx.tag, at), files, **info)
        return
    exp = build(rep.find("properties"), v)
    d = differs(["mix", exp], mx, "")
    ctx.n["records_v%d" % v] += 1
    ctx.note("record_shape", hash(skeleton(mx)))
    for e in mx.iter():
        ctx.note("mix_elements", e.tag)
    if d:
        ctx.violation("MIX %d record of %s image: %s" % (v, fmt, d), files, **info)
    elif ctx.cases % 1997 == 0:
        ctx.sample("MIX %d record with %d elements as expected" % (v, sum(1 for _ in mx.iter())))


WANT = ("dateTimeCreated", "imageProducer", "scannerManufacturer", "scannerModelName",
        "scannerModelSerialNo", "scanningSoftwareName", "scanningSoftwareVersionNo", "codecVersion",
        "iccProfileName", "xSamplingFrequency", "tiles", "tileWidth", "bitsPerSampleValue")


def gaps(n, seen):
    return [t for t in WANT if "mix:" + t not in seen.get("mix_elements", ())]
