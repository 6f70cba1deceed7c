"""C17: unknown boxes and marker segments are skipped."""
import re

import diff
import extremes
import jpgen as g
import work
from c01 import plain

PROPERTY = "C17"
SIZED = {"compressionRatio", "psot"}


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["ins", work.FMTS[i % 4], i] for i in range(9000 * k)]
    out += [["insmut", work.FMTS[i % 4], i] for i in range(3500 * k)]
    out += [["typ", f, i] for f in work.CONT for i in range(900 * k)]
    out += [["mark", f, m] for f in work.FMTS for m in range(0xFF50, 0xFFFF)
            if m not in KNOWN and not 0xFF4F <= m < 0xFF50]
    out += extremes.items("unknown")
    out += extremes.sized("unknown", tier=tier, seed=seed)
    return work.shuffled(out, seed)


KNOWN = {0xFF51, 0xFF50, 0xFF52, 0xFF53, 0xFF55, 0xFF56, 0xFF57, 0xFF58, 0xFF59, 0xFF5C, 0xFF5D, 0xFF5E,
         0xFF5F, 0xFF60, 0xFF61, 0xFF63, 0xFF64, 0xFF90, 0xFF91, 0xFF92, 0xFF93, 0xFFD9, 0xFF4F}


def boundaries(im):
    """(list, index, where) of box boundaries at which any box may stand."""
    out = []
    if im.boxes is None:
        return out
    last = len(im.boxes) if im.boxes[-1].mode != "z" else len(im.boxes) - 1
    out += [(im.boxes, i, "top") for i in range(2, last + 1)]
    for b in im.all_boxes():
        if b.kids is None:
            continue
        n = len(b.kids)
        for i in range(n + 1):
            if b.typ == b"jp2h":
                if i == 0 or (0 < i < n and b.kids[i - 1].typ == b"colr" and
                              any(x.typ == b"colr" for x in b.kids[i:])):
                    continue
            if i == n and b.kids and b.kids[-1].mode == "z":
                continue
            out.append((b.kids, i, b.typ.decode("latin-1")))
    return out


def nasty_box(r):
    t = g.unknown_type(r)
    body = g.pick(r, b"", b"\0", g.rbytes(r, r.randrange(60)), b"\0\0\0\x0cihdr", b"\0\0\0\1jp2c" + b"\0" * 8,
                  g.box_colr(r, "jp2").ser(), b"\xff\x4f\xff\x51", b"\0" * 40, g.box_xml(r).ser(),
                  b"\0\0\0\0jp2c", b"\xff\xd9")
    return g.Box(t, g.Fields(("raw", None, body)), mode=g.pick(r, "n", "n", "n", "x"))


def nasty_seg(r, marker=None):
    if marker is None:
        while True:
            marker = g.pick(r, r.choice(g.UNKNOWN_MARKERS), r.randrange(0xFF50, 0xFFFF))
            if marker not in KNOWN and not 0xFF30 <= marker < 0xFF40:
                break
    body = g.pick(r, b"", b"\0", g.rbytes(r, r.randrange(60)), b"\xff\x90\0\x0a", b"\xff\x93", b"\xff\xd9",
                  b"\xff\x52\0\x0c" + b"\0" * 10, g.seg_qcd(r).ser(), b"\xff" * 20,
                  g.rbytes(r, 3000) if r.random() < 0.05 else b"\xff\x64\0\5\0\1A")
    return g.Seg("unknown", marker, g.Fields(("raw", None, body)))


def seg_lists(im):
    out = []
    for cs in im.codestreams():
        if cs.siz is not None:
            out.append((cs.segs, "main"))
        out += [(t.segs, "tilepart") for t in cs.tps if t.sod[:2] == b"\xff\x93" and not t.psotadj]
    return out


def vary(item, seed):
    kind, fmt, i = item
    r = g.rng(seed, "c17", kind, fmt, i)
    im = g.image(r, fmt, small=True, rich=r.random())
    if kind == "insmut":
        for _ in range(g.pick(r, 1, 1, 2)):
            if r.random() < 0.6:
                g.mutate_field(r, im)
            else:
                g.mutate_struct(r, im)
        for b in im.all_boxes():
            # a box "up to the end of the file" that is no longer the last one
            if b.mode == "z" and b is not im.boxes[-1]:
                b.mode = "n"
    base = im.ser()
    boxes, segs = [], []
    bs, ss = boundaries(im), seg_lists(im)
    if kind == "typ":
        mode = 0
    elif kind == "mark":
        mode = 1
    else:
        mode = r.randrange(3) if fmt in work.CONT else 1
    notes = []
    if mode != 1 and bs:
        for _ in range(g.pick(r, 1, 1, 1, 2, 4)):
            l, j, w = r.choice(bs)
            b = nasty_box(r)
            l.insert(min(j, len(l)), b)
            boxes.append((w, b.typ))
            notes.append("box %r in %s at %d" % (b.typ, w, j))
            bs = boundaries(im)
    if mode != 0 and ss:
        for _ in range(g.pick(r, 1, 1, 2, 5)):
            l, w = r.choice(ss)
            s = nasty_seg(r, i if kind == "mark" else None)
            j = r.randrange(len(l) + 1)
            l.insert(j, s)
            segs.append(s.marker)
            notes.append("marker %04x in %s" % (s.marker, w))
    im.notes += notes
    return im, base, im.ser(), fmt, boxes, segs


def strip(e, top=True):
    """Properties without unknown boxes and size-derived values."""
    out = []
    for c in e:
        if c.tag == "unknownBox" or c.tag in SIZED:
            continue
        out.append((c.tag, tuple(sorted(c.attrib.items())), c.text, c.tail, strip(c, False)))
    return tuple(out)


def count_unknown(e):
    return sum(1 for c in e.iter() if c.tag == "unknownBox")


def warnlist(e):
    return sorted((c.text or "") for c in e.iter() if c.tag == "warning")


def run(item, ctx):
    ctx.n["items_" + item[0]] += 1
    if item[0] in ("x", "n"):
        im, data, fmt = work.make(item, ctx.seed)
        diff.check_case(ctx, item, im, data, fmt, lambda a, p: True)
        return
    im, base, data, fmt, boxes, segs = vary(item, ctx.seed)
    files = {"base." + fmt: base, "varied." + fmt: data}
    pm = ctx.odd(2) == 0
    a = ctx.analyse(base, fmt, True, pm)
    b = ctx.analyse(data, fmt, True, pm)
    label = "%s [%s]" % (fmt, ", ".join(im.notes))
    for x in (a, b):
        err = diff.shape_errors(x, fmt)
        if err or not diff.success(x):
            ctx.violation("%s: %s %s" % (label, "; ".join(err), diff.describe(x)), files)
            return
    diff.observe(ctx, b, fmt)
    if a.find("isValid").text != b.find("isValid").text:
        fa = {p for p, t in diff.leaves(a.find("tests")) if t != "True"}
        fb = {p for p, t in diff.leaves(b.find("tests")) if t != "True"}
        ctx.violation("%s: verdict changes from %s to %s (%s)" % (
            label, a.find("isValid").text, b.find("isValid").text, sorted(fa ^ fb)[:4]), files)
        return
    if plain(a.find("tests")) != plain(b.find("tests")):
        la, lb = diff.leaves(a.find("tests")), diff.leaves(b.find("tests"))
        d = [x for x in la if x not in lb] + [x for x in lb if x not in la]
        ctx.violation("%s: tests change: %s" % (label, d[:4]), files)
        return
    if strip(a.find("properties")) != strip(b.find("properties")):
        ctx.violation("%s: properties change" % label, files)
        return
    na, nb = count_unknown(a.find("properties")), count_unknown(b.find("properties"))
    wa, wb = warnlist(a.find("warnings")), warnlist(b.find("warnings"))
    if nb - na != len(boxes):
        ctx.violation("%s: %d unknown boxes reported after inserting %d" % (label, nb - na, len(boxes)), files)
        return
    if len(wb) - len(wa) != len(boxes):
        ctx.violation("%s: %d warnings more after inserting %d unknown boxes" % (
            label, len(wb) - len(wa), len(boxes)), files)
        return
    # type and place of the unknown boxes, size-derived values
    ds = [d for d in diff.discrepancies(data, fmt, b, pm)]
    if item[0] != "insmut":
        rel = ds
    else:
        rel = [d for d in ds if diff.classify(d[0], fmt) & {"unknown", "warnings", "derived"}]
    ctx.n["boxes_inserted"] += len(boxes)
    ctx.n["segments_inserted"] += len(segs)
    for w, t in boxes:
        ctx.note("box_types", t)
        ctx.note("places", w)
    for s in segs:
        ctx.note("markers", s)
    if rel:
        p, e, x = rel[0]
        ctx.violation("%s: %s: expected %s, reported %s" % (label, p, str(e)[:200], str(x)[:200]), files)
    elif ctx.cases % 1997 < 2:
        ctx.sample("%s: nothing else changed" % label)


def gaps(n, seen):
    out = [w for w in ("top", "jp2h", "res ", "uinf") if w not in seen.get("places", ())]
    if len(seen.get("markers", ())) < 100:
        out.append("unknown markers")
    return out
