"""Differential monitor: the report of the real code against the reference model."""

import re

import engine
import refmodel as m

CONSIST = {"heightConsistentWithSIZ", "widthConsistentWithSIZ", "nCConsistentWithSIZ",
           "bPCSignConsistentWithSIZ", "bPCDepthConsistentWithSIZ"}
STRUCT = {"foundExpectedNumberOfTiles", "foundExpectedNumberOfTileParts", "foundEOCMarker",
          "foundSODMarker", "foundNextTilePartOrEOC", "codestreamStartsWithSOCMarker",
          "CODAllowed", "COCAllowed", "QCDAllowed", "QCCAllowed", "RGNAllowed", "sot",
          "lsotIsValid", "isotIsValid", "psotIsValid", "tpsotIsValid", "tileParts", "tilePart"}
DERIVED = ("compressionRatio", "numberOfTiles")


def leaf(path):
    return re.sub(r"\[\d+\]", "", path.split("/")[-1])


def classify(path, fmt):
    """Set of areas a discrepancy belongs to."""
    p = re.sub(r"\[\d+\]", "", path)
    parts = p.split("/")
    top = parts[0]
    out = set()
    if top == "verdict":
        return {"verdict"}
    if top == "warnings":
        return {"warnings"}
    raw = fmt in ("j2c", "jhc")
    incs = raw or (len(parts) > 1 and parts[1] == "contiguousCodestreamBox")
    kind = "t" if top == "tests" else "p"
    last = parts[-1]
    if incs:
        out.add("cs." + kind)
        if "tileParts" in parts or last in STRUCT:
            out.add("tp." + kind)
        if {"plm", "ppm", "plt", "ppt", "plmCount", "ppmCount", "pltCount", "pptCount"} & set(parts):
            out.add("packet")
    else:
        out.add("box." + kind)
        if "icc" in parts or last.startswith("icc"):
            out.add("icc")
        if {"xmlBox", "uuidBox", "uuidInfoBox", "uuidListBox", "urlBox"} & set(parts):
            out.add("meta")
        if "unknownBox" in parts:
            out.add("unknown")
    if last in CONSIST:
        out.add("consist")
    if last in DERIVED or "InPixelsPer" in last:
        out.add("derived")
    return out


def leaves(elem, path=""):
    """(path, text) of all leaf tests."""
    out = []
    for e in elem:
        p = path + "/" + str(e.tag)
        if len(e):
            out += leaves(e, p)
        else:
            out.append((p, e.text))
    return out


def tags(elem, path="", out=None):
    if out is None:
        out = set()
    for e in elem:
        p = path + "/" + str(e.tag)
        out.add(p)
        tags(e, p, out)
    return out


def observe(ctx, rep, fmt, props=True):
    """Record what the monitors saw; returns list of leaf tests."""
    lv = leaves(rep.find("tests"))
    for p, t in lv:
        ctx.note("tests_true" if t == "True" else "tests_false", p.rsplit("/", 1)[1])
    pt = tags(rep.find("properties")) if props else set()
    pt = {p for p in pt if "xmlBox/" not in p and "uuidBox/" not in p}
    for p in pt:
        ctx.note("properties", p.rsplit("/", 1)[1])
    ctx.sig((fmt, sorted(set(lv)), sorted(pt)))
    return lv


def shape_errors(rep, fmt, mix=0):
    """Completeness of the report."""
    if isinstance(rep, engine.Raised):
        return ["no report: %s" % rep]
    want = ["fileInfo", "statusInfo", "isValid", "tests", "properties"]
    if mix:
        want.append("propertiesExtension")
    want.append("warnings")
    got = [e.tag for e in rep]
    if got != want:
        return ["report consists of %s instead of %s" % (got, want)]
    out = []
    if rep.find("isValid").text not in ("True", "False"):
        out.append("isValid is %r" % rep.find("isValid").text)
    if rep.find("isValid").get("format") != fmt:
        out.append("format attribute is %r, not %r" % (rep.find("isValid").get("format"), fmt))
    if [e.tag for e in rep.find("fileInfo")] != ["fileName", "filePath", "fileSizeInBytes",
                                                "fileLastModified"]:
        out.append("fileInfo incomplete: %s" % [e.tag for e in rep.find("fileInfo")])
    if rep.find("statusInfo/success") is None:
        out.append("no success element")
    return out


def success(rep):
    return rep.find("statusInfo/success").text == "True"


def describe(rep):
    if isinstance(rep, engine.Raised):
        return str(rep)
    f = rep.find("statusInfo/failureMessage")
    return "success=%s %s" % (rep.find("statusInfo/success").text, "" if f is None else f.text)


def discrepancies(data, fmt, rep, pm=True, nullxml=False, limit=400, pred=None):
    """All (path, expected, actual) between model and report."""
    pr = pred or m.predict(data, fmt, nullxml, pm)
    out = []
    for node, tag in ((pr.tests, "tests"), (pr.props, "properties"), (pr.warns, "warnings")):
        out += m.compare(node, rep.find(tag), limit=limit)
    v = pr.verdict()
    if isinstance(v, bool) and rep.find("isValid").text != str(v):
        out.append(("verdict", str(v), rep.find("isValid").text))
    return out


def check_case(ctx, item, im, data, fmt, want, pm=True, nullxml=False):
    """Analyse, compare, report relevant discrepancies.  want: predicate on
    (areas, path).  Returns (report, number of relevant discrepancies)."""
    rep = ctx.analyse(data, fmt, True, pm, nullxml)
    err = shape_errors(rep, fmt)
    if err or not success(rep):
        ctx.violation("%s: %s; %s" % (fmt, "; ".join(err) or "analysis failed", describe(rep)),
                      {"image." + fmt: data}, notes=im.notes if im else "")
        return rep, 1
    observe(ctx, rep, fmt)
    ds = discrepancies(data, fmt, rep, pm, nullxml)
    ctx.n["model_comparisons"] += 1
    rel = [d for d in ds if want(classify(d[0], fmt), d[0])]
    if rel:
        p, e, a = rel[0]
        ctx.violation("%s [%s]: %s: expected %s, reported %s (%d discrepancies)" % (
            fmt, ", ".join(im.notes) if im else "", p, str(e)[:300], str(a)[:300], len(rel)),
            {"image." + fmt: data}, all=rel[:10])
    return rep, len(rel)
