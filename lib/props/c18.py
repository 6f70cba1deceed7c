"""C18: equivalent encodings of the same image give the same report."""
import diff
import extremes
import jpgen as g
import work
from c01 import plain
from c17 import warnlist

PROPERTY = "C18"


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["ext", work.CONT[i % 2], i] for i in range(5500 * k)]
    out += [["zero", work.CONT[i % 2], i] for i in range(3500 * k)]
    out += [["psot", work.FMTS[i % 4], i] for i in range(3000 * k)]
    out += [["wrap", work.RAW[i % 2], i] for i in range(5000 * k)]
    out += [["all", work.CONT[i % 2], i] for i in range(2000 * k)]
    out += [["wrapx"] + x for x in extremes.items("cs tp packet siz", work.RAW)]
    out += [["wrapx"] + x for x in extremes.sized("cs tp packet siz", work.RAW, tier=tier, seed=seed)]
    out += [["extn", x[1], x] for x in extremes.sized("box tp cs icc meta unknown", work.CONT, tier=tier, seed=seed)]
    return work.shuffled(out, seed)


def damage(r, im, p=0.35):
    if r.random() < p:
        for _ in range(g.pick(r, 1, 1, 2)):
            if r.random() < 0.7:
                g.mutate_field(r, im)
            else:
                g.mutate_struct(r, im)
        for b in im.all_boxes():
            if b.mode == "z":
                b.mode = "n"


def make(item, seed):
    """[(bytes, format, prefix of codestream part)] x 2, drop tags, notes"""
    kind, fmt, i = item
    r = g.rng(seed, "c18", kind, fmt, i)
    if kind == "extn":
        im = work.make(i, seed)[0]
    else:
        im = g.image(r, fmt, small=True, rich=r.random())
    for b in im.all_boxes():
        if b.mode == "z":
            b.mode = "n"
    for cs in im.codestreams():
        if cs.tps and cs.tps[-1].psot == 0:
            cs.tps[-1].psot = None
    if kind == "extn":
        kind = g.pick(r, "ext", "zero", "psot", "all")
    else:
        damage(r, im)
    drop = {"compressionRatio"}
    if kind in ("ext", "all"):
        bs = im.all_boxes()
        for b in bs:
            b.mode = g.pick(r, "n", "n", "x") if r.random() < 0.5 else "n"
    a = im.ser()
    notes = []
    if kind in ("ext", "all"):
        for b in r.sample(bs, r.randrange(1, len(bs) + 1)) if r.random() < 0.7 else bs:
            b.mode = "x" if b.mode == "n" or r.random() < 0.6 else "n"
            notes.append("%s:%s" % (b.typ.decode("latin-1"), b.mode))
    if kind in ("zero", "all"):
        if kind == "zero" and r.random() < 0.5 and im.boxes:
            # codestream last, the usual place for this
            pass
        im.boxes[-1].mode = "z"
        notes.append("last box %r zero length" % im.boxes[-1].typ)
    if kind in ("psot", "all"):
        # only if nothing follows the tile-part but the end marker
        cs = im.codestreams()
        if cs:
            c = r.choice(cs)
            if c.tps and c.tps[-1].psot is None and not c.tps[-1].psotadj and c.eoc == b"\xff\xd9":
                c.tps[-1].psot = 0
                drop.add("psot")
                notes.append("psot 0")
    return im, a, im.ser(), drop, notes


def strip(e, drop):
    return tuple((c.tag, tuple(sorted(c.attrib.items())), c.text, c.tail, strip(c, drop))
                 for c in e if c.tag not in drop)


def run(item, ctx):
    kind = item[0]
    ctx.n["items_" + kind] += 1
    if kind in ("wrap", "wrapx"):
        return wrap(item, ctx)
    im, a, b, drop, notes = make(item, ctx.seed)
    fmt = im.fmt
    pm = ctx.odd(2) == 0
    files = {"one." + fmt: a, "other." + fmt: b}
    ra, rb = ctx.analyse(a, fmt, True, pm), ctx.analyse(b, fmt, True, pm)
    label = "%s %s [%s] (%s)" % (kind, fmt, ", ".join(im.notes), ", ".join(notes))
    for x in (ra, rb):
        err = diff.shape_errors(x, fmt)
        if err or not diff.success(x):
            ctx.violation("%s: %s %s" % (label, "; ".join(err), diff.describe(x)), files)
            return
    diff.observe(ctx, rb, fmt)
    va, vb = ra.find("isValid").text, rb.find("isValid").text
    ctx.n["verdict_" + va] += 1
    ta, tb = ra.find("tests"), rb.find("tests")
    # with length zero there is no "next" to be found, the test does not apply
    skip = {"foundNextTilePartOrEOC"} if "psot" in drop else set()
    if va != vb or strip(ta, skip) != strip(tb, skip):
        la, lb = diff.leaves(ta), diff.leaves(tb)
        d = [x for x in la if x not in lb] + [x for x in lb if x not in la]
        ctx.violation("%s: verdict %s / %s, tests differ: %s" % (label, va, vb, d[:4]), files)
        return
    if strip(ra.find("properties"), drop) != strip(rb.find("properties"), drop):
        ctx.violation("%s: properties differ" % label, files)
        return
    if warnlist(ra.find("warnings")) != warnlist(rb.find("warnings")):
        ctx.violation("%s: warnings differ" % label, files)
        return
    ctx.n["pairs"] += 1
    if a == b:
        ctx.n["unchanged"] += 1
    # the values that state the changed field
    ds = [d for d in diff.discrepancies(b, fmt, rb, pm)
          if diff.leaf(d[0]) in drop or diff.classify(d[0], fmt) & {"derived"}]
    if ds:
        ctx.violation("%s: %s: expected %s, reported %s" % (label, ds[0][0], ds[0][1], ds[0][2]), files)
    elif ctx.cases % 1997 < 2:
        ctx.sample("%s: same report" % label)


def wrap(item, ctx):
    if item[0] == "wrapx":
        item = item[1:]
        im, raw, fmt = work.make(item, ctx.seed)
        r = g.rng(ctx.seed, "c18w", item)
    else:
        _, fmt, i = item
        r = g.rng(ctx.seed, "c18w", fmt, i)
        im = g.image(r, fmt, small=True, rich=r.random())
        if r.random() < 0.5:
            for _ in range(g.pick(r, 1, 1, 2)):
                g.mutate(r, im)
        raw = im.ser()
        if r.random() < 0.1:
            raw = raw[:r.randrange(len(raw) + 1)]
        elif r.random() < 0.05:
            raw = g.hostile(r, raw)
    cont = {"j2c": "jp2", "jhc": "jph"}[fmt]
    wim = g.image(r, cont, small=True)
    cb = [b for b in wim.boxes if b.cs is not None][0]
    k = wim.boxes.index(cb)
    wim.boxes = [b for b in wim.boxes if b.cs is None or b is cb]
    k = wim.boxes.index(cb)
    mode = g.pick(r, "n", "x", "z")
    if wim.boxes[-1].mode == "z" and wim.boxes[-1] is not cb:
        wim.boxes[-1].mode = "n"
    if mode == "z" and k != len(wim.boxes) - 1:
        mode = "n"
    wim.boxes[k] = g.Box(b"jp2c", g.Fields(("raw", None, raw)), mode=mode)
    if mode == "z" and not raw:
        return
    data = wim.ser()
    pm = ctx.odd(2) == 0
    files = {"raw." + fmt: raw, "wrapped." + cont: data}
    ra, rb = ctx.analyse(raw, fmt, True, pm), ctx.analyse(data, cont, True, pm)
    label = "%s [%s] wrapped (%s)" % (fmt, ", ".join(im.notes), mode)
    for x, f in ((ra, fmt), (rb, cont)):
        err = diff.shape_errors(x, f)
        if err or not diff.success(x):
            ctx.violation("%s: %s %s" % (label, "; ".join(err), diff.describe(x)), files)
            return
    diff.observe(ctx, ra, fmt)
    bt = rb.find("tests/contiguousCodestreamBox")
    bp = rb.find("properties/contiguousCodestreamBox")
    ta = plain(ra.find("tests"))
    tb = plain(bt) if bt is not None else ()
    ctx.n["wrapped_pairs"] += 1
    if ta != tb:
        la = diff.leaves(ra.find("tests"))
        lb = diff.leaves(bt) if bt is not None else []
        d = [x for x in la if x not in lb] + [x for x in lb if x not in la]
        ctx.violation("%s: tests differ: %s" % (label, d[:4]), files)
        return
    drop = {"compressionRatio"}
    if strip(ra.find("properties"), drop) != (strip(bp, drop) if bp is not None else ()):
        ctx.violation("%s: properties differ" % label, files)


def gaps(n, seen):
    out = [k for k in ("pairs", "wrapped_pairs", "verdict_True", "verdict_False") if n[k] < 500]
    if n["unchanged"] > n["pairs"] // 4:
        out.append("too many pairs identical")
    return out
