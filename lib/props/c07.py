"""C07: container properties equal what is stored."""
import bulk
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C07"
BOXES = {"ftyp", "ihdr", "bpcc", "colr", "pclr", "cmap", "cdef", "resc", "resd", "xml ", "uuid",
         "ulst", "url ", "jP  "}


def want(areas, path):
    return "box.p" in areas or "warnings" in areas


def items(tier, seed):
    out = []
    for fmt in work.CONT:
        out += work.sweep_fields(seed, fmt, tier,
                                 lambda k: k[:4] in BOXES and k not in ("colr2", "colr3"), 0.1,
                                 half=work.CONT.index(fmt))
        out += work.sweep_fields(seed, fmt, tier, lambda k: k in ("colr2", "colr3"), 0.05, 0.3)
        out += work.sweep_struct(seed, fmt, lambda a, b: a not in ("main", "tp"))[::2]
        out += work.sweep_lengths(seed, fmt, lambda k: k[:4] in BOXES)[::3]
    k = 1 if tier == "quick" else 12
    out += work.stream("conf", 5000 * k, work.CONT)
    out += work.stream("mut", 1500 * k, work.CONT)
    out += work.stream("host", 600 * k, work.CONT)
    out += [["pal", f, i] for f in work.CONT for i in range(600 * k)]
    out += extremes.items("box icc meta unknown")
    out += extremes.sized("box icc meta unknown", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: w in ("top", "jp2h", "res", "uinf", "in"), work.CONT)
    out += [["b", work.CONT[i % 2], "in", k, 300000 + i, 0] for i, k in enumerate(("cL", "loc", "ulst", "icc"))]
    return work.shuffled(out, seed)


def palette(item, seed):
    """Palettes of all shapes: depths, signs, several columns and rows."""
    _, fmt, i = item
    r = g.rng(seed, "pal", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.0, plain=True)
    npc, ne = r.randrange(1, 7), r.randrange(1, 7)
    if i % 11 == 0:
        npc, ne = g.pick(r, (1, 1024), (255, 1), (3, 256), (40, 40))
    bs = [r.randrange(38) | g.pick(r, 0, 128) for _ in range(npc)]
    f = [("nE", 2, ne), ("nPC", 1, npc)] + [("B", 1, b) for b in bs]
    for _ in range(ne):
        for b in bs:
            w = ((b & 127) + 8) // 8
            f.append(("C", w, g.pick(r, 0, (1 << 8 * w) - 1, r.randrange(1 << (8 * w)))))
    im.jp2h().kids += [g.Box(b"pclr", g.Fields(*f)), g.box_cmap(r, r.randrange(1, 9))]
    im.notes.append("palette %dx%d" % (npc, ne))
    return im, im.ser(), fmt


def run(item, ctx):
    if item[0] == "pal":
        im, data, fmt = palette(item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
    diff.check_case(ctx, item, im, data, fmt, want)
    ctx.n["items_" + item[0]] += 1
    if ctx.cases % 997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return [] if len(seen.get("properties", ())) > 120 else ["too few properties observed"]
