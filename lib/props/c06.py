"""C06: truncation and tile-part structure."""
import bulk
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C06"


def want(areas, path):
    return "tp.t" in areas or "verdict" in areas


def items(tier, seed):
    out = []
    for fmt in work.FMTS:
        for rep in range(2 if tier == "quick" else 20):
            out += [it + [rep] for it in work.sweep_tileparts(fmt)]
    k = 1 if tier == "quick" else 12
    out += [["trunc", f, i] for f in work.FMTS for i in range(30 * k)]
    out += [["count", f, i] for f in work.FMTS for i in range(150 * k)]
    out += [["tpmut", f, i] for f in work.FMTS for i in range(500 * k)]
    out += work.stream("host", 1200 * k)
    out += work.stream("conf", 400 * k)
    out += extremes.items("tp cs")
    out += extremes.sized("tp cs", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: w in ("tp", "parts", "tiles"))
    return extremes.items("large" if tier == "quick" else "large huge") + work.shuffled(out, seed)


def first_cs_end(im):
    """Offset just after the end of the first codestream."""
    if im.boxes is None:
        return len(im.ser())
    pos = 0
    for b in im.boxes:
        pos += len(b.ser())
        if b.typ == b"jp2c":
            return pos
    return pos


def truncation(item, ctx):
    _, fmt, i = item
    r = g.rng(ctx.seed, "trunc", fmt, i)
    im = g.image(r, fmt, small=True, rich=g.pick(r, 0.0, 0.9), extras=r.random() < 0.4,
                 plain=r.random() < 0.5)
    data = im.ser()
    end = first_cs_end(im)
    if end <= 260:
        cuts = list(range(end))
    else:
        cuts = sorted(set([end - 1, end - 2, end - 3, end - 4, 0, 1, 2, 3, 7, 8, 11, 12] +
                          r.sample(range(end), 150)))
    for c in cuts:
        d = data[:c]
        rep = ctx.analyse(d, fmt, verbose=False, pm=False)
        ctx.n["truncations"] += 1
        err = diff.shape_errors(rep, fmt)
        if err or not diff.success(rep) or rep.find("isValid").text != "False":
            ctx.violation("%s image of %d bytes cut to %d bytes (codestream ends at %d): %s" % (
                fmt, len(data), c, end, "; ".join(err) or "reported valid or analysis failed: " +
                diff.describe(rep)), {"image." + fmt: d})
            return
        if c % 9 == 0:
            diff.check_case(ctx, item, im, d, fmt, want)


def counting(item, ctx):
    """Drop, duplicate, renumber tile-parts of multi-tile images."""
    _, fmt, i = item
    r = g.rng(ctx.seed, "count", fmt, i)
    nt = g.pick(r, (1, 1), (2, 1), (3, 3), (16, 16), (257, 1), (5, 1))
    n = nt[0] * nt[1]
    plan = []
    for t in range(n):
        k = 1 if n > 20 else g.pick(r, 1, 1, 2, 3, 4)
        st = r.randrange(3)
        for j in range(k):
            plan.append(g.TilePart(t, j, [0, k, k if j == k - 1 else 0][st], [], b"x" * r.randrange(3)))
    cs = extremes._cs(r, fmt, nt=nt, tps=plan)
    im = extremes._img(r, fmt, cs)
    op = r.randrange(9)
    t = cs.tps[g.pick(r, 0, -1, r.randrange(len(cs.tps)))]
    if op == 0:
        cs.tps.remove(t)
    elif op == 1:
        cs.tps.insert(cs.tps.index(t), g.copy.deepcopy(t))
    elif op == 2:
        t.tnsot = (t.tnsot + g.pick(r, 1, -1, 2)) % 256
    elif op == 3:
        t.isot = g.pick(r, n, n - 1, n + 1, 0, 65534, 65535, 256, (t.isot + 256) % 65536)
    elif op == 4:
        g_ = cs.siz.fields
        g_.set("xsiz", g_.get("xsiz") + g.pick(r, 1, 16, -1, -16, 17) % 2 ** 32)
    elif op == 5:
        cs.siz.fields.set("xTsiz", g.pick(r, 15, 17, 8, 32, 1))
    elif op == 6:
        cs.tps = [x for x in cs.tps if x.isot != t.isot]
    elif op == 7:
        r.shuffle(cs.tps)
    im.notes.append("count op %d tiles %d" % (op, n))
    diff.check_case(ctx, item, im, im.ser(), fmt, want)


def run(item, ctx):
    ctx.n["items_" + item[0]] += 1
    if item[0] == "trunc":
        return truncation(item, ctx)
    if item[0] == "count":
        return counting(item, ctx)
    if item[0] == "tpmut":
        _, fmt, i = item
        r = g.rng(ctx.seed, "tpmut", fmt, i)
        im = g.image(r, fmt, small=True, plain=r.random() < 0.7)
        for _ in range(g.pick(r, 1, 2, 3)):
            g.mutate_tilepart(r, im)
        data = im.ser()
    else:
        im, data, fmt = work.make(item, ctx.seed)
    diff.check_case(ctx, item, im, data, fmt, want)
    if ctx.cases % 997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    miss = [t for t in ("foundEOCMarker", "foundSODMarker", "foundNextTilePartOrEOC",
                        "foundExpectedNumberOfTiles") if t not in seen.get("tests_false", ())]
    return miss
