"""C10: consistency between image header box and SIZ."""
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C10"


def want(areas, path):
    return "consist" in areas or "verdict" in areas


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["cons", f, i] for f in work.CONT for i in range(11000 * k)]
    out += [["many", f, i] for f in work.CONT for i in range(60 * k)]
    for fmt in work.CONT:
        out += work.sweep_fields(seed, fmt, tier, lambda q: q in ("siz", "ihdr", "bpcc"), 0.5)
    out += work.stream("conf", 1000 * k, work.CONT)
    out += work.stream("mut", 1000 * k, work.CONT)
    out += extremes.items("consist siz", work.CONT)
    out += extremes.sized("consist siz", work.CONT, tier=tier, seed=seed)
    return work.shuffled(out, seed)


def consist(item, seed):
    _, fmt, i = item
    r = g.rng(seed, "cons", fmt, i)
    n = g.pick(r, 1, 2, 3, 4, 5, 20, 20 if i % 40 else 257)
    im = g.image(r, fmt, small=True, rich=0.0, plain=True, csiz=n)
    f = im.codestreams()[0].siz.fields
    ih = im.hdr(b"ihdr").fields
    ss = [x for x in f.f if x[0] == "ssiz"]
    if r.random() < 0.5:
        # force the bits-per-component box
        ih.set("bPC", 255)
        im.jp2h().kids = [b for b in im.jp2h().kids if b.typ != b"bpcc"]
        im.jp2h().kids.insert(r.randrange(1, len(im.jp2h().kids) + 1),
                              g.Box(b"bpcc", g.Fields(*[("bPC", 1, x[2]) for x in ss])))
    bp = im.hdr(b"bpcc")
    for _ in range(g.pick(r, 0, 1, 1, 1, 2, 3)):
        op = r.randrange(16)
        d = g.pick(r, 1, -1, 2, 256, -256, 65536, 1 << 31)
        if op == 0:
            ih.set("height", (ih.get("height") + d) % 2 ** 32)
        elif op == 1:
            ih.set("width", (ih.get("width") + d) % 2 ** 32)
        elif op == 2:
            ih.set("nC", (ih.get("nC") + g.pick(r, 1, -1, 256)) % 65536)
        elif op == 3:
            b = ih.get("bPC")
            ih.set("bPC", g.pick(r, b ^ 128, (b & 128) | (b + 1) & 127, b ^ 1, 255, 127, r.randrange(256)))
        elif op == 4:
            x = r.choice(ss)
            x[2] = g.pick(r, x[2] ^ 128, x[2] ^ 1, r.randrange(256))
        elif op == 5 and bp:
            x = r.choice(bp.fields.f)
            x[2] = g.pick(r, x[2] ^ 128, x[2] ^ 1, r.randrange(256))
        elif op == 6 and bp and len(bp.fields.f) > 1:
            bp.fields.f.pop(r.randrange(len(bp.fields.f)))
        elif op == 7 and bp:
            bp.fields.f.insert(r.randrange(len(bp.fields.f) + 1), ["bPC", 1, bp.fields.f[0][2]])
        elif op == 8:
            for n_ in ("xOsiz", "yOsiz"):
                if r.random() < 0.6:
                    f.set(n_, (f.get(n_) + g.pick(r, 1, -1, 5)) % 2 ** 32)
        elif op == 9:
            w, h = ih.get("width"), ih.get("height")
            ih.set("width", h)
            ih.set("height", w)
        elif op == 10:
            ih.set("width", f.get("xsiz"))
            ih.set("height", f.get("ysiz"))
        elif op == 11 and bp:
            bp.fields.f.reverse()
        elif op == 12 and bp:
            im.jp2h().kids.remove(bp)
            bp = None
        elif op == 13 and len(ss) > 1:
            a, b = r.sample(ss, 2)
            a[2], b[2] = b[2], a[2]
        elif op >= 14:
            # size that follows from the SIZ fields in another way than it should
            a = r.choice("xy")
            side = {"x": "width", "y": "height"}[a]
            if r.random() < 0.5:
                # offset beyond the grid: no size agrees
                f.set(a + "Osiz", min(2 ** 32 - 1, f.get(a + "siz") + ih.get(side) * g.pick(r, 0, 1, 1, 1, 2)))
            v, o, t, to = [f.get(a + q) for q in ("siz", "Osiz", "Tsiz", "TOsiz")]
            sub = f.get(a + "Rsiz") or 1
            ih.set(side, g.pick(r, abs(v - o), v, v + o, v - to, v - o - to, t, (v - o) % 2 ** 16, -(-v // sub) - -(-o // sub),
                                (v - o) // sub, o, -(-(v - o) // 8) * 8, max(1, v - o), v - o) % 2 ** 32)
        im.notes.append("op %d" % op)
    return im, im.ser(), fmt


def many(item, seed):
    """Very many components, and one of them different in header box or codestream."""
    _, fmt, i = item
    r = g.rng(seed, "many", fmt, i)
    n = g.pick(r, 300, 513, 1025, 1100, 2100, 4200, 9000, 16384)
    im = extremes._img(r, fmt, extremes._cs(r, fmt, csiz=n, depth=r.randrange(38), sub=r.random() < 0.7))
    ss = [x for x in im.codestreams()[0].siz.fields.f if x[0] == "ssiz"]
    ih, bp = im.hdr(b"ihdr").fields, im.hdr(b"bpcc")
    if not bp:
        ih.set("bPC", 255)
        bp = g.Box(b"bpcc", g.Fields(*[("bPC", 1, x[2]) for x in ss]))
        im.jp2h().kids.append(bp)
    if r.random() < 0.85:
        x = r.choice([ss, bp.fields.f])[g.pick(r, 0, n - 1, n - 1, n // 2, r.randrange(n), r.randrange(n))]
        x[2] ^= g.pick(r, 1, 128, 2)
    elif r.random() < 0.3:
        bp.fields.f.pop()
    im.notes.append("%d components" % n)
    return im, im.ser(), fmt


def run(item, ctx):
    if item[0] == "many":
        im, data, fmt = many(item, ctx.seed)
    elif item[0] == "cons":
        im, data, fmt = consist(item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
    diff.check_case(ctx, item, im, data, fmt, want, pm=False)
    ctx.n["items_" + item[0]] += 1
    if ctx.cases % 1997 == 0:
        ctx.sample((item, im.notes))


def gaps(n, seen):
    return [t for t in diff.CONSIST if t not in seen.get("tests_false", ()) or
            t not in seen.get("tests_true", ())]
