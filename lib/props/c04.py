"""C04: container rules -- every test of every box against the reference model."""
import bulk
import diff
import extremes
import work

PROPERTY = "C04"
BOXES = {"jP  ", "ftyp", "jp2h", "ihdr", "bpcc", "colr", "pclr", "cmap", "cdef", "res ", "resc",
         "resd", "xml ", "uuid", "uinf", "ulst", "url ", "jp2i", "jp2c"}


def boxkind(k):
    return k[:4] in BOXES


def want(areas, path):
    return "box.t" in areas or "verdict" in areas


def items(tier, seed):
    out = []
    for fmt in work.CONT:
        out += work.sweep_fields(seed, fmt, tier, lambda k: boxkind(k) and k not in ("colr2", "colr3"),
                                 0.1, half=work.CONT.index(fmt))
        out += work.sweep_fields(seed, fmt, tier, lambda k: k in ("colr2", "colr3"), 0.02, 0.2)
        out += work.sweep_lengths(seed, fmt, boxkind)
        out += work.sweep_struct(seed, fmt, lambda a, b: a not in ("main", "tp"))
    k = 1 if tier == "quick" else 12
    out += work.stream("mut", 5000 * k, work.CONT)
    out += work.stream("host", 1500 * k, work.CONT)
    out += work.stream("conf", 600 * k, work.CONT)
    out += extremes.items("box icc meta")
    out += extremes.sized("box icc meta", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: w in ("top", "jp2h", "res", "uinf", "in"), work.CONT)
    return work.shuffled(out, seed)


def run(item, ctx):
    im, data, fmt = work.make(item, ctx.seed)
    diff.check_case(ctx, item, im, data, fmt, want)
    ctx.n["items_" + item[0]] += 1
    if ctx.cases % 997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return [] if len(seen.get("tests_false", ())) > 60 else ["too few failing tests observed"]
