"""C02: every input gives a complete report, in bounded work and memory."""
import gc
import os
import resource
import signal
import tracemalloc

import bulk
import diff
import engine
import extremes
import jpgen as g
import work

PROPERTY = "C02"
RULE = ("distinct (format, set of (test, outcome), set of property tags) of completed analyses; "
        "monitors: executed source lines of the package against 2000000 + 600 per byte, "
        "CPU time, peak allocation against 48 MB + 800 per byte, report shape")
MEM_BASE, MEM_PER = 48 << 20, 800
CPU_MAX = 30.0
# CPU seconds of one analysis: many small things; few before a large idle rest
BULK_MAX = {"wide": 20.0, "tail": 8.0}


def setup(ctx):
    # a request for a disproportionate amount of memory fails instead of succeeding
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def items(tier, seed):
    q = tier == "quick"
    k = 1 if q else 12
    out = work.stream("host", 15000 * k) + work.stream("mut", 1500 * k)
    out += work.stream("cross", 600 * k)
    out += [["nest", f, i] for f in work.FMTS for i in range(60 * k)]
    out += [["blob", f, i] for f in work.FMTS for i in range(120 * k)]
    out += [["back", f, i] for f in work.FMTS for i in range(24)]
    # every prefix / every byte overwritten, of rich images
    out += [["prefix", f, i] for f in work.FMTS for i in range(3 * k)]
    out += [["bytes", f, i] for f in work.FMTS for i in range(3 * k)]
    for fmt in work.FMTS:
        out += work.sweep_fields(seed, fmt, tier, None, 0.0, 0.05)
        out += work.sweep_lengths(seed, fmt)[::1 if not q else 2]
    out += extremes.items("cs tp box siz icc meta unknown consist packet")
    out += extremes.sized("cs tp box siz icc meta unknown consist packet", tier=tier, seed=seed)
    return work.shuffled(out + bulks(q), seed)


def bulks(q):
    out = []
    for where, what in bulk.names():
        for mode in ("wide", "tail"):
            if mode == "tail" and (what == "badlen" or where == "in"):
                continue
            raw = where in ("main", "tp", "parts", "tiles")
            for fmt in ("j2c", "jhc") if raw else ("jp2", "jph"):
                out.append([mode, fmt, where, what])
    return out[::2] if q else out + [["wide", {"j2c": "jp2", "jhc": "jph"}.get(o[1], o[1])] + o[2:] for o in out if o[0] == "wide" and o[1] in work.RAW]


def nest(item, seed):
    """Boxes within boxes (to a depth the recursion can take), also overlapping."""
    _, fmt, i = item
    r = g.rng(seed, "nest", fmt, i)
    if fmt in work.RAW:
        # marker segments galore instead
        n = r.randrange(1, 600)
        d = b"\xff\x4f"
        for _ in range(n):
            m = g.pick(r, 0xFF52, 0xFF53, 0xFF5C, 0xFF5D, 0xFF5E, 0xFF5F, 0xFF63, 0xFF64, 0xFF50,
                       0xFF56, 0xFF59, 0xFF55, 0xFF57, 0xFF60, 0xFF58, 0xFF61, 0xFF51, 0xFF30,
                       0xFF3F, 0xFF90, 0xFF93, 0xFFD9, 0xFF4F, 0xFF70)
            l = g.pick(r, 0, 1, 2, 3, 4, 5, 6, 8, 10, 12, r.randrange(40))
            body = g.pick(r, b"\0" * 40, b"\xff" * 40, g.rbytes(r, 40))
            d += m.to_bytes(2, "big") + l.to_bytes(2, "big") + body[:max(0, l - 2)]
        return d, fmt
    depth = g.pick(r, 2, 5, 20, 60, 150)
    body = g.rbytes(r, r.randrange(30))
    sup = [b"jp2h", b"res ", b"uinf"]
    same = r.random() < 0.5
    t = r.choice(sup)
    for _ in range(depth):
        if not same:
            t = r.choice(sup)
        mode = r.randrange(5)
        if mode == 0:
            body = (1).to_bytes(4, "big") + t + (len(body) + 16).to_bytes(8, "big") + body
        elif mode == 1:
            body = (0).to_bytes(4, "big") + t + body
        elif mode == 2:
            body = (len(body) + 8 + r.randrange(-9, 9)).to_bytes(4, "big", signed=True) + t + body
        else:
            body = (len(body) + 8).to_bytes(4, "big") + t + body
        if r.random() < 0.2:
            body = body + body[:200]
    im = g.image(r, fmt, small=True).ser()
    return g.pick(r, body, im + body, im[:40] + body + im[40:]), fmt


def blob(item, seed):
    """Large simple patterns: work must stay linear."""
    _, fmt, i = item
    r = g.rng(seed, "blob", fmt, i)
    n = g.pick(r, 0, 1, 2, 3, 4, 7, 8, 12, 100, 5000, 60000, 200000)
    unit = g.pick(r, b"\0", b"\xff", b"\0\0\0\x08uuid", b"\0\0\0\x08xml ", b"\0\0\0\x08abcd",
                  b"\0\0\0\x08jp2h", b"\xff\x64\0\2", b"\xff\x30", b"\xff\x90\0\x0a" + b"\0" * 8,
                  b"\xff\x52\0\2", b"\xff\x58\0\3\0", b"\0\0\0\1jp2c" + b"\0" * 8,
                  b"\0\0\0\x08jp2c", b"\xff\x57\0\4\0\1", g.rbytes(r, r.randrange(1, 30)),
                  b"\xff\x90\0\x0a\0\0\0\0\0\x0e\0\1\xff\x93", b"<a>", b"\0\0\0\x0ccolr\1\0\0\0")
    rep = (unit * (n // len(unit) + 1))[:n]
    if r.random() < 0.6:
        im = g.image(r, fmt, small=True).ser()
        c = r.randrange(len(im) + 1)
        if fmt in work.RAW and r.random() < 0.5:
            c = g.pick(r, 2, len(im) - 2, 47)
        rep = im[:c] + rep + im[c:]
    return rep, fmt


def back(item, seed):
    """A tile-part header cut off at the end of the file, at such a distance from
    earlier ones that the placeholder for unreadable values (-9999), taken as a
    length, leads back to one of them."""
    _, fmt, i = item
    r = g.rng(seed, "back", fmt, i)
    im = extremes._img(r, fmt, extremes._cs(r, fmt, tps=[
        g.TilePart(0, k, 0, [], g.payload(r, 0)) for k in range(2 + i % 3)]))
    cs = im.codestreams()[0]
    cs.eoc = b""
    cut = i // 3 % 8
    head = len(cs.tps[0].ser())
    for t in cs.tps[:-1]:
        t.payload = b"\0" * (9999 - head + g.pick(r, 0, 0, 0, 12, -12))
    d = im.ser()
    return d[:len(d) - head + 4 + cut] + (b"" if r.random() < 0.7 else b"\xff"), fmt


def run(item, ctx):
    kind = item[0]
    ctx.n["items_" + kind] += 1
    if kind in BULK_MAX:
        return bulky(item, ctx)
    if kind in ("prefix", "bytes"):
        _, fmt, i = item
        r = g.rng(ctx.seed, kind, fmt, i)
        for _ in range(50):
            data = g.image(r, fmt, small=True, rich=0.6).ser()
            if len(data) < 1500:
                break
        data = data[:3000]
        n = len(data)
        if kind == "prefix":
            step = 1 if ctx.tier != "quick" else 3
            for c in range(r.randrange(step), n + 1, step):
                one(ctx, data[:c], fmt, r)
                if ctx.stop:
                    return
        else:
            step = 1 if ctx.tier != "quick" else 3
            for c in range(r.randrange(step), n, step):
                b = bytearray(data)
                b[c] = g.pick(r, 0, 255, b[c] ^ 128, (b[c] + 1) & 255, (b[c] - 1) & 255, 1, 127,
                              r.randrange(256))
                one(ctx, bytes(b), fmt, r)
                if ctx.stop:
                    return
        return
    if kind == "nest":
        data, fmt = nest(item, ctx.seed)
    elif kind == "back":
        data, fmt = back(item, ctx.seed)
    elif kind == "blob":
        data, fmt = blob(item, ctx.seed)
    else:
        _, data, fmt = work.make(item, ctx.seed)
    one(ctx, data, fmt, g.rng(ctx.seed, "opt", item), kind == "x", kind in ("blob", "nest", "back") or (kind == "n" and ctx.odd(3) == 0))


def one(ctx, data, fmt, r, big=False, force=False):
    verbose, pm, nx = r.random() < 0.5, r.random() < 0.6, r.random() < 0.5
    mix = g.pick(r, 0, 1, 2)
    if r.random() < 0.1:
        fmt = r.choice(work.FMTS)
    if big:
        pm = verbose = True
    path = ctx.write(data)
    size = len(data)
    opts = dict(format=fmt, verbose=verbose, packetmarkers=pm, nullxml=nx, mix=mix, measure=r.random())
    files = {"image." + fmt: data}
    if not (big or force or r.random() < 0.15):
        # plain run; the watchdog hands over to the step monitor
        old, ctx.cpu_limit = ctx.cpu_limit, 5.0
        rep = ctx.analyse_path(path, fmt, verbose, pm, nx, mix, size)
        ctx.cpu_limit = old
        steps = 0
        ctx.n["plain_runs"] += 1
        finish(ctx, rep, steps, path, data, fmt, verbose, pm, nx, mix, opts, big)
        return
    ctx.cases += 1
    c0 = resource.getrusage(resource.RUSAGE_SELF).ru_utime
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_MAX * 2, 0.5)
    hang = False
    rep = None
    try:
        rep, steps = ctx.stepped(path, fmt, verbose, pm, nx, mix, size)
    except engine.Hang:
        hang = True
    finally:
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except engine.Hang:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    cpu = resource.getrusage(resource.RUSAGE_SELF).ru_utime - c0
    if hang or (cpu > CPU_MAX and size < 2000000):
        if cpu_of(ctx, CPU_MAX + 5, path, fmt, verbose, pm, nx, mix)[1] > CPU_MAX:
            ctx.violation("analysis of %d bytes takes more than %d s CPU" % (size, CPU_MAX),
                          files, **opts)
            return
        if hang:
            return
    ctx.n["step_monitored_runs"] += 1
    finish(ctx, rep, steps, path, data, fmt, verbose, pm, nx, mix, opts, big)


def finish(ctx, rep, steps, path, data, fmt, verbose, pm, nx, mix, opts, big):
    size = len(data)
    files = {"image." + fmt: data}
    err = diff.shape_errors(rep, fmt, mix)
    if err or not diff.success(rep):
        ctx.violation("%s, %d bytes: %s; %s" % (fmt, size, "; ".join(err), diff.describe(rep)),
                      files, **opts)
        return
    diff.observe(ctx, rep, fmt)
    ctx.n["steps"] += steps
    ctx.n["bytes"] += size
    if steps:
        ctx.note("work_per_byte_class", int(steps / (size + 1000)))
    if big or ctx.replay or opts["measure"] < (0.04 if size < 20000 else 0.17):
        del rep
        memory(ctx, path, data, fmt, verbose, pm, nx, mix, opts)
    if ctx.cases % 1997 == 0:
        ctx.sample("%s %d bytes, options %s: %d steps" % (fmt, size, opts, steps))


def cpu_of(ctx, limit, *args):
    """(report, CPU seconds) of a plain run (no monitor), which the limit ends."""
    old, ctx.cpu_limit = ctx.cpu_limit, limit
    stepped, ctx.stepped = ctx.stepped, lambda *a: (None, 0)
    c0 = resource.getrusage(resource.RUSAGE_SELF).ru_utime
    try:
        rep = ctx.analyse_path(*args)
    finally:
        ctx.cpu_limit = old
        ctx.stepped = stepped
    return rep, resource.getrusage(resource.RUSAGE_SELF).ru_utime - c0


def bulky(item, ctx):
    mode, fmt, where, what = item
    r = g.rng(ctx.seed, item)
    n, tail = (40000, 0) if mode == "wide" else (3000, 24 << 20)
    data = bulk.make(r, fmt, where, what, n, tail)
    path = ctx.write(data)
    pm, mix, verbose = where == "in" or r.random() < 0.3, g.pick(r, 0, 1, 2), r.random() < 0.5
    limit = BULK_MAX[mode]
    # the least of a few measurements: other load only ever adds to one
    for _ in range(3):
        rep, cpu = cpu_of(ctx, limit * 1.2, path, fmt, verbose, pm, False, mix)
        if cpu <= limit:
            break
    else:
        ctx.violation("%s: %s %s: %d bytes take more than %d s CPU" % (fmt, where, what, len(data), limit),
                      {"image." + fmt: data}, format=fmt, verbose=verbose, packetmarkers=pm, nullxml=False, mix=mix)
        return
    ctx.n["cpu_measurements"] += 1
    ctx.note("bulk_cpu_tenths", int(cpu * 10))
    err = diff.shape_errors(rep, fmt, mix)
    if err or not diff.success(rep):
        ctx.violation("%s: %s %s: %d bytes: %s" % (fmt, where, what, len(data), "; ".join(err) or diff.describe(rep)),
                      {"image." + fmt: data}, format=fmt, verbose=verbose, packetmarkers=pm, nullxml=False, mix=mix)


def memory(ctx, path, data, fmt, verbose, pm, nx, mix, opts):
    gc.collect()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        rep = ctx.analyse_path(path, fmt, verbose, pm, nx, mix)
        peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    ctx.n["memory_measurements"] += 1
    ctx.note("peak_MB", peak >> 20)
    if peak > MEM_BASE + MEM_PER * len(data):
        ctx.violation("analysis of %d bytes allocates %d bytes at its peak" % (len(data), peak),
                      {"image." + fmt: data}, **opts)
    del rep


def gaps(n, seen):
    out = []
    if n["steps"] < 10 ** 7:
        out.append("step monitor did not see the code run")
    if n["memory_measurements"] < 100:
        out.append("memory monitor")
    if n["cpu_measurements"] < 50:
        out.append("CPU monitor")
    if len(seen.get("tests_false", ())) < 100:
        out.append("failed tests")
    return out
