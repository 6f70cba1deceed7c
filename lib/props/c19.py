"""C19: each format has its own rules."""
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C19"


def want(areas, path):
    # rules and the properties that exist in some formats only
    return (bool({"box.t", "cs.t", "verdict"} & areas) or
            diff.leaf(path) in ("resetOnBoundaries", "predTermination", "segmentationSymbols",
                                "codingBypass", "termOnEachPass", "vertCausalContext", "htB",
                                "htCodeBlocks", "htSets", "htRegion", "htHomogeneous", "htReversible",
                                "vidFRng", "colPrims", "transfC", "matCoeffs", "enumCS", "compressionRatio",
                                "capability"))


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["matrix", f, i] for f in work.FMTS for i in range(900 * k)]
    key = {"ftyp": ("br", "cL"), "colr1": ("meth",), "colr2": ("meth", "profileClass", "profileSize"),
           "colr3": ("meth", "profileClass"), "colr5": ("meth", "colPrims", "transfC", "matCoeffs", "vidFRng"),
           "cdef": ("cTyp", "cAssoc"), "ihdr": ("unkC", "iPR"), "siz": ("rsiz",), "cap": ("pcap", "ccap"),
           "cpf": ("pcpf",), "prf": ("pprf",), "rgn/1": ("roiShift",), "rgn/2": ("roiShift",),
           "rgn@tp/1": ("roiShift",), "cod.0": ("style",), "cod.1": ("style",), "cod@tp.0": ("style",),
           "coc/1": ("style",), "coc@tp/1": ("style",), "coc/2": ("style",)}
    for src in work.FMTS:
        its = [it for it in work.sweep_fields(seed, src, tier, lambda q: q in key, 0.5)
               if it[3] in key[it[2]]]
        for n, it in enumerate(its):
            for j, dst in enumerate(work.FMTS):
                same = (src in work.CONT) == (dst in work.CONT)
                if tier != "quick" or dst == src or (same and (n + seed) % 3 == 0) or (n + j) % 29 == 0:
                    out.append(it + [dst])
        ln = work.sweep_lengths(seed, src, lambda q: q in ("cpf", "prf", "cap", "ftyp"))
        for n, it in enumerate(ln):
            out += [it + [dst] for dst in work.FMTS
                    if (src in work.CONT) == (dst in work.CONT)]
    out += [["chan", f, i] for f in work.CONT for i in range(1500 * k)]
    out += [["colour", f, i] for f in work.CONT for i in range(1500 * k)]
    out += work.stream("cross", 1500 * k)
    return work.shuffled(out, seed)


def matrix(item, ctx):
    _, fmt, i = item
    r = g.rng(ctx.seed, "matrix", fmt, i)
    im = g.image(r, fmt, small=True)
    data = im.ser()
    for dst in work.FMTS:
        one(item, ctx, im, data, dst)


def channels(item, seed):
    """Channel definitions with and without colour boxes."""
    _, fmt, i = item
    r = g.rng(seed, "chan", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.0, plain=True)
    n = r.randrange(1, 5)
    f = [("n", 2, n)]
    for j in range(n):
        f += [("cN", 2, j), ("cTyp", 2, g.pick(r, 0, 1, 2, 3, 4, 65534, 65535, r.randrange(65536))),
              ("cAssoc", 2, g.pick(r, 0, 0, 1, 2, 65535))]
    h = im.jp2h()
    if r.random() < 0.5:
        h.kids = [b for b in h.kids if b.typ != b"colr"]
    im.hdr(b"ihdr").fields.set("unkC", g.pick(r, 0, 1, 1, 2))
    if r.random() < 0.85:
        h.kids.append(g.Box(b"cdef", g.Fields(*f)))
    im.notes.append("channels")
    return im, im.ser(), fmt


def colours(item, seed):
    """Colour boxes of all methods, with the contents of any other."""
    _, fmt, i = item
    r = g.rng(seed, "colour", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.0, plain=True)
    h = im.jp2h()
    h.kids = [b for b in h.kids if b.typ != b"colr"]
    for _ in range(g.pick(r, 1, 1, 2)):
        b = g.box_colr(r, "jph", g.pick(r, 1, 2, 3, 5))
        if r.random() < 0.3:
            b.fields.set("meth", g.pick(r, 0, 1, 2, 3, 4, 5, 6, 255))
        if r.random() < 0.3:
            for x in b.fields.f:
                if x[0] in ("colPrims", "transfC", "matCoeffs") and r.random() < 0.6:
                    x[2] = r.randrange(0, 30)
                elif x[0] == "profileClass":
                    x[2] = g.pick(r, b"scnr", b"mntr", b"prtr", b"spac")
        h.kids.append(b)
    im.notes.append("colours")
    return im, im.ser(), fmt


def one(item, ctx, im, data, fmt):
    rep, bad = diff.check_case(ctx, item, im, data, fmt, want, pm=False)
    if bad or isinstance(rep, diff.engine.Raised):
        return
    ctx.n["judged_as_" + fmt] += 1
    ctx.note("verdict", (im.fmt if im else "", fmt, rep.find("isValid").text))
    if fmt in work.RAW:
        top = {e.tag for e in rep.find("tests")}
        boxy = {t for t in top if str(t).endswith("Box")} | {t for t in top if str(t).startswith("contains")}
        if boxy:
            ctx.violation("container tests %s reported for raw codestream format %s" % (boxy, fmt),
                          {"image." + fmt: data})


def run(item, ctx):
    ctx.n["items_" + item[0]] += 1
    if item[0] == "matrix":
        return matrix(item, ctx)
    if item[0] == "chan":
        im, data, fmt = channels(item, ctx.seed)
    elif item[0] == "colour":
        im, data, fmt = colours(item, ctx.seed)
    elif item[0] in ("f", "l"):
        im, data, _ = work.make(item[:5], ctx.seed)
        fmt = item[5]
    else:
        im, data, fmt = work.make(item, ctx.seed)
    one(item, ctx, im, data, fmt)
    if ctx.cases % 1997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return ["judged_as_" + f for f in work.FMTS if n["judged_as_" + f] < 200]
