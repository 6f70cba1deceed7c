"""C08: codestream properties equal what is stored."""
import bulk
import diff
import extremes
import work

PROPERTY = "C08"


def want(areas, path):
    return "cs.p" in areas


def items(tier, seed):
    out = []
    for fmt in work.FMTS:
        raw = fmt in work.RAW
        out += work.sweep_fields(seed, fmt, tier, work.is_cs, 0.0 if raw else 0.03,
                                 0.2 if raw else 0.1, work.RAW.index(fmt) if raw else None)
        st = work.sweep_struct(seed, fmt, lambda a, b: a in ("main", "tp"))
        out += st[seed % 2::2] if raw else st[seed % 5::5]
        ln = work.sweep_lengths(seed, fmt, work.is_cs)
        out += ln[(seed + work.RAW.index(fmt)) % 2::2] if raw else ln[seed % 9::9]
    k = 1 if tier == "quick" else 12
    out += work.stream("conf", 7000 * k)
    out += work.stream("mut", 1500 * k)
    out += work.stream("host", 600 * k)
    out += extremes.items("cs tp siz packet")
    out += extremes.sized("cs tp siz packet", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: w in ("main", "tp", "parts", "tiles"))
    if tier != "quick":
        out += extremes.items("huge")
    return work.shuffled(out, seed)


def run(item, ctx):
    im, data, fmt = work.make(item, ctx.seed)
    diff.check_case(ctx, item, im, data, fmt, want, pm=item[0] in ("x", "n") or ctx.odd(3) != 0)
    ctx.n["items_" + item[0]] += 1
    if ctx.cases % 997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return [] if len(seen.get("properties", ())) > 100 else ["too few properties observed"]
