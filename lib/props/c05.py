"""C05: codestream header rules -- every test of every marker segment against the model."""
import bulk
import diff
import extremes
import work

PROPERTY = "C05"


def want(areas, path):
    return "cs.t" in areas or "verdict" in areas


def pairs(seed, fmt):
    """Joint values of fields that are judged together."""
    out = []
    for kind in ("cod.0", "cod@tp.1", "coc/1", "coc@tp/2"):
        for a in range(0, 12):
            for b in range(0, 12):
                out.append(["p", fmt, kind, ["cbw", a], ["cbh", b]])
    for kind in ("poc/1", "poc@tp/2"):
        for a in (0, 1, 31, 32, 33, 34, 255):
            for b in (0, 1, 2, 31, 32, 33, 34, 35, 255):
                out.append(["p", fmt, kind, ["rspoc", a], ["repoc", b]])
        for a in (0, 1, 2, 254, 255, 256, 16382, 16383, 16384, 65535):
            for b in (0, 1, 2, 3, 254, 255, 256, 257, 16383, 16384, 16385, 65535):
                out.append(["p", fmt, kind, ["cspoc", a], ["cepoc", b]])
    for kind in ("cod.0", "cod.1", "coc/1", "coc/2", "coc@tp/1"):
        f = "scod" if kind.startswith("cod") else "scoc"
        for a in (0, 1, 2, 3):
            for b in list(range(0, 36)) + [255]:
                out.append(["p", fmt, kind, [f, a], ["levels", b]])
    return out


def items(tier, seed):
    out = []
    for fmt in work.FMTS:
        raw = fmt in work.RAW
        out += work.sweep_fields(seed, fmt, tier, work.is_cs, 0.0 if raw else 0.03,
                                 0.2 if raw else 0.1, work.RAW.index(fmt) if raw else None)
        ln = work.sweep_lengths(seed, fmt, work.is_cs)
        out += ln if raw or tier != "quick" else ln[seed % 3::3]
        st = work.sweep_struct(seed, fmt, lambda a, b: a in ("main", "tp"))
        out += st if raw or tier != "quick" else st[seed % 3::3]
        pr = pairs(seed, fmt)
        out += pr if tier != "quick" else pr[seed % 2::2] if raw else pr[seed % 7::7]
    k = 1 if tier == "quick" else 12
    out += work.stream("mut", 4000 * k)
    out += work.stream("host", 1200 * k)
    out += work.stream("conf", 600 * k)
    out += extremes.items("cs siz tp")
    out += extremes.sized("cs siz tp", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: w in ("main", "tp"))
    return work.shuffled(out, seed)


def run(item, ctx):
    im, data, fmt = work.make(item, ctx.seed)
    diff.check_case(ctx, item, im, data, fmt, want)
    ctx.n["items_" + item[0]] += 1
    if ctx.cases % 997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return [] if len(seen.get("tests_false", ())) > 60 else ["too few failing tests observed"]
