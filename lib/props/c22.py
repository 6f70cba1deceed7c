"""C22: packet-level markers."""
import bulk
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C22"


def want(areas, path):
    return "packet" in areas or "verdict" in areas


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["pk", f, i] for f in work.FMTS for i in range(5000 * k)]
    for fmt in work.FMTS:
        out += work.sweep_fields(seed, fmt, tier, lambda q: q.split("@")[0] in ("plt", "plm"), 0.5)
        out += work.sweep_lengths(seed, fmt, lambda q: q.split("@")[0] in ("plt", "plm", "ppm", "ppt"))
    out += work.stream("conf", 1500 * k)
    out += work.stream("mut", 1000 * k)
    out += extremes.items("packet")
    out += extremes.sized("packet", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: w in ("main", "tp", "parts", "tiles") and
                      k in ("-", "plt", "ppt", "plm", "ppm"))
    return work.shuffled(out, seed)


EDGES = [0, 1, 2, 63, 64, 126, 127, 128, 129, 255, 256, 8191, 8192, 16382, 16383, 16384, 16385, 2 ** 20,
         2097151, 2097152, 2 ** 27, 2 ** 28 - 1, 2 ** 28, 2 ** 31, 2 ** 32 - 1, 2 ** 35 - 1, 2 ** 35]


def enc(v, pad=0):
    out = [v & 127]
    v >>= 7
    while v:
        out.append(v & 127 | 128)
        v >>= 7
    out += [128] * pad
    return bytes(reversed(out))


def body(r):
    n = g.pick(r, 0, 1, 1, 2, 3, 8, 30)
    d = b"".join(enc(g.pick(r, r.choice(EDGES), r.randrange(1 << r.randrange(1, 33))),
                     g.pick(r, 0, 0, 0, 0, 0, 1, 2)) for _ in range(n))
    if r.random() < 0.06:
        d += bytes(128 | r.randrange(128) for _ in range(r.randrange(1, 4)))   # unterminated
    if r.random() < 0.05:
        d += g.rbytes(r, 5)
    return d


def packets(item, seed):
    _, fmt, i = item
    r = g.rng(seed, "pk", fmt, i)
    im = g.image(r, fmt, small=True, rich=0.0, plain=True)
    cs = im.codestreams()[0]
    for _ in range(g.pick(r, 0, 1, 2, 4)):
        k = r.randrange(3)
        if k == 0:
            d = body(r)[:255]
            s = g.Seg("plm", 0xFF57, g.Fields(("zplm", 1, r.randrange(256)), ("nplm", 1, len(d)), ("iplm", None, d)))
        elif k == 1:
            s = g.seg_ppm(r)
        else:
            s = g.seg_unknown(r)
        cs.segs.insert(r.randrange(len(cs.segs) + 1) if cs.segs[0].tag != "cap" else
                       r.randrange(1, len(cs.segs) + 1), s)
    for t in cs.tps[:8]:
        for _ in range(g.pick(r, 0, 1, 1, 3)):
            k = r.randrange(4)
            if k < 2:
                s = g.Seg("plt", 0xFF58, g.Fields(("zplt", 1, r.randrange(256)), ("iplt", None, body(r))))
            elif k == 2:
                s = g.seg_ppt(r)
            else:
                s = g.seg_com(r)
            t.segs.insert(r.randrange(len(t.segs) + 1), s)
    return im, im.ser(), fmt


def run(item, ctx):
    if item[0] == "pk":
        im, data, fmt = packets(item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
    pm = item[0] in ("x", "f", "n") or ctx.odd(4) != 0
    rep, _ = diff.check_case(ctx, item, im, data, fmt, want, pm=pm)
    ctx.n["items_" + item[0]] += 1
    if not isinstance(rep, diff.engine.Raised):
        for e in rep.find("properties").iter():
            if e.tag in ("iplt", "iplm"):
                ctx.note("packet_lists", e.text)
                ctx.n["packet_lengths"] += len((e.text or "").split(","))
    if ctx.cases % 1997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return [] if len(seen.get("packet_lists", ())) > 500 else ["packet lists"]
