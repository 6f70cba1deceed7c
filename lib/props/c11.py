"""C11: reporting options do not influence verdict, tests, properties."""
import itertools

import bulk
import diff
import extremes
import jpgen as g
import refmodel as m
import work
from c01 import plain, pruned

PROPERTY = "C11"
COMBOS = list(itertools.product((True, False), (True, False), (False, True), (0, 1, 2)))
PACKET = {"plm", "ppm", "plt", "ppt"}


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = work.stream("mut", 1800 * k) + work.stream("conf", 1000 * k)
    out += work.stream("host", 800 * k) + work.stream("cross", 300 * k)
    out += [["nul", f, i] for f in work.CONT for i in range(700 * k)]
    out += [["pkt", f, i] for f in work.FMTS for i in range(450 * k)]
    out += extremes.items("packet meta icc")
    out += extremes.sized("packet meta icc", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: w != "in" and k in (
        "-", "plt", "ppt", "plm", "ppm", "xml", "uuid", "unknown"))
    for fmt in work.FMTS:
        out += work.sweep_struct(seed, fmt)[::1 if tier != "quick" else 8]
    return work.shuffled(out, seed)


XMLS = [b"<a/>", b"<a b='1'>t</a>", b"<?xml version='1.0'?><r xmlns='urn:x'><k/>tail</r>", b"<a>",
        b"", b"\xef\xbb\xbf<a/>", b"<a/> <b/>", b"<x:xmpmeta xmlns:x='adobe:ns:meta/'><x:a/></x:xmpmeta>",
        "<é>ü</é>".encode()]


def nul(item, seed):
    """XML and UUID boxes with terminating nulls and other rubbish."""
    _, fmt, i = item
    r = g.rng(seed, "nul", fmt, i)
    im = g.image(r, fmt, small=True)
    for _ in range(r.randrange(1, 4)):
        body = r.choice(XMLS) + g.pick(r, b"", b"\0", b"\0\0", b"\0" * 9, b" \0", b"\0 ", b"\0x")
        if r.random() < 0.1:
            body = b"\0" + body
        b = g.Box(b"xml ", g.Fields(("raw", None, body))) if r.random() < 0.6 else \
            g.Box(b"uuid", g.Fields(("id", 16, g.XMP_UUID), ("raw", None, body)))
        im.boxes.insert(r.randrange(2, len(im.boxes) + 1), b)
    if r.random() < 0.2:
        g.mutate(r, im)
    return im, im.ser(), fmt


def pkt(item, seed):
    """Packet-level markers in number, intact or damaged."""
    _, fmt, i = item
    r = g.rng(seed, "pkt", fmt, i)
    im = g.image(r, fmt, small=True)
    for cs in im.codestreams():
        for _ in range(r.randrange(4)):
            cs.segs.insert(r.randrange(len(cs.segs) + 1), r.choice([g.seg_plm, g.seg_ppm])(r))
        for t in cs.tps:
            for _ in range(r.randrange(3)):
                t.segs.insert(r.randrange(len(t.segs) + 1), r.choice([g.seg_plt, g.seg_ppt])(r))
    if r.random() < 0.5:
        g.mutate(r, im)
    return im, im.ser(), fmt


def full(e, drop=()):
    return (e.tag, tuple(sorted(e.attrib.items())), e.text, e.tail,
            tuple(full(c, drop) for c in e if c.tag not in drop))


def canon(props, nopacket, noxml, fmt):
    """Comparable form of the properties; nopacket: without the packet-level details;
    noxml: without content of XML carrying boxes."""
    def walk(e, incs):
        out = []
        for c in e:
            if nopacket and incs and c.tag in PACKET:
                continue
            xml = c.tag == "xmlBox" and not incs
            if xml or e.tag == "uuidBox" and c.tag != "uuid":
                if not noxml:
                    out.append(full(c))
                elif xml:
                    out.append((c.tag, "..."))
                continue
            out.append((c.tag, tuple(sorted(c.attrib.items())), c.text,
                        walk(c, incs or c.tag == "contiguousCodestreamBox")))
        return tuple(out)
    return walk(props, fmt in work.RAW)


def run(item, ctx):
    if item[0] in ("nul", "pkt"):
        im, data, fmt = {"nul": nul, "pkt": pkt}[item[0]](item, ctx.seed)
    else:
        im, data, fmt = work.make(item, ctx.seed)
    ctx.n["items_" + item[0]] += 1
    files = {"image." + fmt: data}
    r = g.rng(ctx.seed, "opt", item)
    combos = [(True, True, False, 0), (False, False, False, 0)]
    combos += r.sample(COMBOS, 24 if item[0] == "all" else 5)
    base = None
    path = ctx.write(data)
    seen = {}
    for verbose, pm, nx, mix in combos:
        rep = ctx.analyse_path(path, fmt, verbose, pm, nx, mix)
        label = "verbose=%s packetmarkers=%s nullxml=%s mix=%s" % (verbose, pm, nx, mix)
        err = diff.shape_errors(rep, fmt, mix)
        if err:
            ctx.violation("%s: %s" % (label, err[0]), files)
            return
        ctx.note("option_combinations", (verbose, pm, nx, mix))
        if base is None:
            base = rep
            diff.observe(ctx, rep, fmt)
            btests, bpr = plain(rep.find("tests")), pruned(rep.find("tests"))
            continue
        bad = None
        for tag in ("fileInfo", "statusInfo", "isValid", "warnings"):
            if full(rep.find(tag)) != full(base.find(tag)):
                bad = "%s differs" % tag
        if plain(rep.find("tests")) != (btests if verbose else bpr):
            bad = "tests differ"
        # same packet and XML settings: identical properties; otherwise the common part
        key = (not pm, nx)
        if key not in seen:
            seen[key] = (canon(rep.find("properties"), False, False, fmt), label)
        elif seen[key][0] != canon(rep.find("properties"), False, False, fmt):
            bad = "properties differ from those with " + seen[key][1]
        if canon(rep.find("properties"), True, True, fmt) != canon(base.find("properties"), True, True, fmt):
            bad = "properties differ beyond what the options are to change"
        if not nx and canon(rep.find("properties"), True, False, fmt) != \
                canon(base.find("properties"), True, False, fmt):
            bad = "properties differ beyond packet-level details"
        if bad:
            ctx.violation("%s [%s] with %s: %s" % (fmt, ", ".join(im.notes), label, bad), files)
            return
        ctx.n["comparisons"] += 1
    # what the options add or omit, against the reference model
    if diff.success(base):
        for pm, nx in {(c[1], c[2]) for c in combos}:
            rep = ctx.analyse_path(path, fmt, True, pm, nx, 0)
            ds = [d for d in diff.discrepancies(data, fmt, rep, pm, nx)
                  if d[0].startswith("properties") and
                  diff.classify(d[0], fmt) & {"packet", "meta"}]
            ctx.n["model_comparisons"] += 1
            if ds:
                ctx.violation("%s packetmarkers=%s nullxml=%s: %s: expected %s, reported %s" % (
                    fmt, pm, nx, ds[0][0], str(ds[0][1])[:300], str(ds[0][2])[:300]), files)
                return
    if ctx.cases % 997 < 3:
        ctx.sample("%s %s: %d option combinations agree" % (item, fmt, len(combos)))


def gaps(n, seen):
    out = [] if len(seen.get("option_combinations", ())) == 24 else ["option combinations"]
    out += [t for t in ("plm", "ppm", "plt", "ppt", "xmlBox") if t not in seen.get("properties", ())]
    return out
