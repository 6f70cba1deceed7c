"""C03: conforming images are accepted, with every test passing."""
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C03"


def items(tier, seed):
    k = 1 if tier == "quick" else 15
    out = work.stream("conf", 16000 * k)
    out += [["edge", f, i] for f in work.FMTS for i in range(2500 * k)]
    out += extremes.items("cs box siz tp icc meta unknown consist packet")
    out += extremes.sized("cs box siz tp icc meta unknown consist packet", tier=tier, seed=seed)
    if tier != "quick":
        out += extremes.items("huge")
    return work.shuffled([x for x in out if x[2] not in ("icc300tagsA2B0", "vendor")], seed)


LEGAL = {
    # field -> legal edge values by kind of node
    ("colr", "enumCS"): [16, 17, 18],
    ("resc", "vRN"): [1, 65535], ("resc", "vRD"): [1, 65535], ("resc", "hRN"): [1, 65535],
    ("resc", "hRD"): [1, 65535], ("resd", "vRN"): [1, 65535], ("resd", "hRD"): [1, 65535],
    ("resc", "vRE"): list(range(256)), ("resd", "hRE"): list(range(256)),
    ("cmap", "cMP"): [0, 1, 16384],
    ("cdef", "cN"): [0, 65535, 1],
    ("cod", "order"): [0, 1, 2, 3, 4], ("cod", "layers"): [1, 65535, 256], ("cod", "mct"): [0, 1],
    ("cod", "transformation"): [0, 1],
    ("coc", "transformation"): [0, 1],
    ("qcd", "step1"): list(range(256)), ("qcd", "step2"): [0, 65535, 2048, 2047],
    ("qcc", "step1"): list(range(256)), ("qcc", "step2"): [0, 65535, 2048, 2047],
    ("rgn", "roiShift"): [0, 1, 37],
    ("crg", "xcrg"): [0, 65535], ("crg", "ycrg"): [0, 65535],
    ("siz", "xRsiz"): list(range(1, 256)), ("siz", "yRsiz"): list(range(1, 256)),
    ("plt", "zplt"): list(range(256)), ("plm", "zplm"): list(range(256)),
    ("poc", "lyepoc"): [1, 65535, 256], ("poc", "order"): [0, 1, 2, 3, 4], ("poc", "repoc"): [33],
    ("poc", "cepoc"): [0],
}


def edge(item, seed):
    """Conforming image with many fields at legal edge values."""
    _, fmt, i = item
    r = g.rng(seed, "edge", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.9)
    for n in im.leaf_nodes():
        kind = work.kind_of(n)
        for f in n.fields.f:
            vals = LEGAL.get((kind, f[0]))
            if vals and r.random() < 0.5:
                f[2] = r.choice(vals)
    im.notes.append("edge values")
    return im, im.ser(), fmt


def run(item, ctx):
    if item[0] == "edge":
        im, data, fmt = edge(item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
        if item[0] == "n" and item[2] == "icctags" and b"A2B0" in data:
            return      # lookup-table profile: not a conforming image
    verbose = ctx.odd(4) != 1
    rep = ctx.analyse(data, fmt, verbose, ctx.odd(7) > 2)
    ctx.n["items_" + item[0]] += 1
    err = diff.shape_errors(rep, fmt)
    if err or not diff.success(rep):
        ctx.violation("conforming %s image: %s %s" % (fmt, "; ".join(err), diff.describe(rep)),
                      {"image." + fmt: data})
        return
    if verbose:
        lv = diff.observe(ctx, rep, fmt)
        ctx.n["tests_checked"] += len(lv)
    else:
        lv = diff.leaves(rep.find("tests"))
    bad = [p for p, t in lv if t != "True"]
    if bad or rep.find("isValid").text != "True":
        ctx.violation("conforming %s image reported %s; failed tests %s" % (
            fmt, rep.find("isValid").text, bad[:5]), {"image." + fmt: data})
    elif ctx.cases % 1997 == 0:
        ctx.sample("%s image of %d bytes accepted with %d tests" % (fmt, len(data), len(lv)))


def gaps(n, seen):
    return [] if len(seen.get("tests_true", ())) > 130 else ["too few kinds of tests observed"]
