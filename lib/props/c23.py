"""C23: ICC profiles."""
import struct

import diff
import extremes
import jpgen as g
import work

PROPERTY = "C23"


def want(areas, path):
    return "icc" in areas or "verdict" in areas


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["icc", f, i] for f in work.CONT for i in range(8000 * k)]
    for fmt in work.CONT:
        out += work.sweep_fields(seed, fmt, tier, lambda q: q in ("colr2", "colr3"), 0.5)
    out += work.stream("conf", 1000 * k, work.CONT)
    out += extremes.items("icc")
    out += extremes.sized("icc", tier=tier, seed=seed)
    return work.shuffled(out, seed)


POOL = [b"desc", b"cprt", b"wtpt", b"rXYZ", b"gXYZ", b"bXYZ", b"rTRC", b"gTRC", b"bTRC", b"kTRC",
        b"A2B0", b"A2B1", b"A2B2", b"B2A0", b"B2A1", b"gamt", b"calt", b"targ", b"chad", b"a2b0",
        b"A2B ", b"dmnd", b"dmdd", b"vued", b"mmod", b"DESC", b"desC"]


def icc(item, seed):
    _, fmt, i = item
    r = g.rng(seed, "icc", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.0, plain=True)
    h = im.jp2h()
    h.kids = [b for b in h.kids if b.typ != b"colr"]
    for _ in range(g.pick(r, 1, 1, 1, 2)):
        n = g.pick(r, 0, 1, 2, 5, 10, len(POOL), 40)
        tags = [r.choice(POOL) for _ in range(n)] if r.random() < 0.3 else r.sample(POOL, min(n, len(POOL)))
        f = g.icc_profile(r, klass=g.pick(r, b"scnr", b"mntr", b"prtr", b"link", b"spac", b"abst", b"nmcl", b"zzzz"),
                          tags=tags)
        for _ in range(g.pick(r, 0, 0, 1, 1, 2, 4)):
            x = r.choice([y for y in f.f if y[0] not in ("tagCount", "tagOff", "tagSize", "tagData")])
            if isinstance(x[2], bytes):
                x[2] = g.pick(r, r.choice(work.CODES) if x[1] == 4 else g.rbytes(r, x[1]),
                              g.rbytes(r, x[1]))
            else:
                x[2] = g.pick(r, r.randrange(1 << 8 * x[1]), 1 << r.randrange(8 * x[1]), 0, 1, 2, 3)
        if r.random() < 0.15:
            f.set("profileSize", f.get("profileSize") + g.pick(r, 1, -1, 4, 256, -256, 65536))
        if r.random() < 0.1:
            f.f[-1][2] = f.f[-1][2] + g.rbytes(r, g.pick(r, 1, 4, 300))
            if r.random() < 0.5:
                f.set("profileSize", len(f.ser()))
        meth = g.pick(r, 2, 2, 2, 3)
        h.kids.append(g.Box(b"colr", g.Fields(("meth", 1, meth), ("prec", 1, 0), ("approx", 1, 0),
                                              *[tuple(x) for x in f.f])))
    if r.random() < 0.2:
        h.kids.insert(r.randrange(1, len(h.kids) + 1), g.box_colr(r, fmt, 1))
    return im, im.ser(), fmt


def run(item, ctx):
    if item[0] == "icc":
        im, data, fmt = icc(item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
    rep, _ = diff.check_case(ctx, item, im, data, fmt, want)
    ctx.n["items_" + item[0]] += 1
    if not isinstance(rep, diff.engine.Raised):
        for e in rep.find("properties").iter("icc"):
            ctx.n["profiles"] += 1
            for k in e:
                if k.tag in ("description", "tag", "profileClass", "primaryPlatform", "connectionSpaceIlluminantX"):
                    ctx.note("icc_" + k.tag, k.text)
    if ctx.cases % 1997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return [t for t in ("iccSizeIsValid", "iccPermittedProfileClass", "iccNoLUTBasedProfile")
            if t not in seen.get("tests_false", ()) or t not in seen.get("tests_true", ())]
