"""C15: analysis is deterministic, isolated, read-only."""
import decimal
import gc
import hashlib
import json
import locale
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import threading
import tracemalloc
import warnings
import xml.etree.ElementTree as ET

import c20
import clirun as cli
import diff
import engine
import extremes
import jpgen as g
import names
import work
from plainrun_tree import tree

PROPERTY = "C15"
RULE = "distinct reports over all histories; every report compared with that of a fresh process"

_events = []
_watch = [False]


def _hook(name, args):
    if not _watch[0] or threading.get_ident() != _watch[1]:
        return
    if name == "open":
        path, mode, flags = (list(args) + [None, None, None])[:3]
        _events.append(("open", os.fsdecode(path) if isinstance(path, (bytes, str)) else path, mode, flags or 0))
    elif name.startswith(("os.", "shutil.", "socket.", "subprocess.", "fcntl.", "tempfile.", "signal.",
                          "resource.", "ctypes.", "syslog.", "urllib.", "ftplib.", "smtplib.", "webbrowser.",
                          "pty.", "winreg.", "glob.", "sqlite3.", "mmap.")):
        _events.append((name,) + tuple(repr(a)[:200] for a in args[:3]))


HARMLESS = {"os.listdir", "os.scandir", "os.walk", "os.fwalk", "glob.glob", "glob.glob/2", "mmap.__new__"}


def setup(ctx):
    sys.addaudithook(_hook)


def items(tier, seed):
    k = 1 if tier == "quick" else 10
    out = [["hist", "", i] for i in range(500 * k)]
    out += [["thread", "", i] for i in range(50 * k)]
    out += [["order", "", i] for i in range(80 * k)]
    out += [["copy", "", i] for i in range(400 * k)]
    out += [["twin", "", i] for i in range(250 * k)]
    out += [["fault", "", i] for i in range(200 * k)]
    out += [["leak", "", i] for i in range(16 * k)]
    return work.shuffled(out, seed) + [["big", "", i] for i in range(4)]


def state():
    """Process-wide state that an analysis must leave alone."""
    from jpylyzer import config
    return {
        "cwd": os.getcwd(), "env": dict(os.environ), "path": list(sys.path),
        "reclimit": sys.getrecursionlimit(), "threads": threading.active_count(),
        "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM,
                                                  signal.SIGPIPE, signal.SIGVTALRM)],
        "umask": _umask(), "locale": locale.setlocale(locale.LC_ALL),
        "decimal": _decimal(), "random": hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
        "warnings": list(map(repr, warnings.filters)), "namespaces": dict(ET._namespace_map),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr), "argv": list(sys.argv),
        "config": {k: v for k, v in vars(config).items() if k.isupper()},
        "switch": sys.getswitchinterval(), "trace": sys.gettrace(), "profile": sys.getprofile(),
        "maxdigits": sys.get_int_max_str_digits(), "gc": gc.isenabled(),
        "fds": sorted(os.listdir("/proc/self/fd")),
        "excepthook": sys.excepthook, "displayhook": sys.displayhook,
    }


def _decimal():
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp,
            sorted(str(k) for k, v in c.traps.items() if v))


def _umask():
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask"):
                return line.split()[1]


def snapshot(d):
    out = {}
    for base, dirs, fs in os.walk(d):
        st = os.lstat(base)
        out[base] = (st.st_mode, st.st_uid, st.st_mtime_ns, sorted(dirs + fs))
        for f in fs:
            p = os.path.join(base, f)
            st = os.lstat(p)
            with open(p, "rb") as h:
                c = hashlib.md5(h.read()).hexdigest()
            out[p] = (st.st_mode, st.st_uid, st.st_ino, st.st_nlink, st.st_size, st.st_mtime_ns, c)
    return out


def pool(r, ctx, d, n, big=False):
    """n files in directory d: [(path, format)]"""
    out = []
    for j in range(n):
        fmt = r.choice(work.FMTS)
        if big:
            x = r.choice([q for q in extremes.items("cs tp box siz icc meta packet")
                          if q[2] != "pal255x1024"])
            im, data, fmt = work.make(x, ctx.seed)
        elif r.random() < 0.05:
            data = g.pick(r, b"", b"\0", b"\xff\x4f", b"\0\0\0\x0cjP  \r\n\x87\n")
        else:
            what = g.pick(r, "mut", "conf", "host", "host", "cross")
            data = work.make([what, fmt, r.randrange(10 ** 9)], ctx.seed)[1]
        p = os.path.join(d, "%d-%s" % (j, names.name(r, 80) if r.random() < 0.3 else "img.jp2"))
        with open(p, "wb") as f:
            f.write(data)
        os.utime(p, (1e9 + j, 1e9 + r.randrange(10 ** 9) + g.pick(r, 0, 0.5, 0.123456)))
        if r.random() < 0.3:
            os.chmod(p, 0o444)
        out.append((p, fmt))
    return out


def fresh(ctx, jobs, mode="mmap", r=None):
    e = dict(os.environ, PYTHONHASHSEED=str(r.randrange(10 ** 6)) if r else "0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-B", os.path.join(engine.VERIF, "lib", "plainrun.py"),
                        engine.REPO, mode], input=json.dumps(jobs).encode(), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
    ctx.n["fresh_processes"] += 1
    ctx.cases += len(jobs)
    return pickle.loads(p.stdout)


def opts(r):
    return [r.random() < 0.5, r.random() < 0.5, r.random() < 0.4, g.pick(r, 0, 0, 1, 2)]


def show(a, b, path=""):
    if a[0] != b[0] or len(a) < 5 or len(b) < 5:
        return "%s: %r / %r" % (path, a[:2], b[:2])
    p = path + "/" + str(a[0])
    if a[1:4] != b[1:4]:
        return "%s: %r / %r" % (p, a[1:4], b[1:4])
    for x, y in zip(a[4], b[4]):
        s = show(x, y, p)
        if s:
            return s
    if len(a[4]) != len(b[4]):
        return "%s: %d / %d children" % (p, len(a[4]), len(b[4]))
    return None


def monitored(ctx, p, fmt, o, files):
    """Report of one analysis in this process, with all monitors on."""
    before = state()
    del _events[:]
    _watch[:] = [True, threading.get_ident()]
    try:
        rep = ctx.analyse_path(p, fmt, *o)
    finally:
        _watch[0] = False
    ev = list(_events)
    ctx.n["monitored_analyses"] += 1
    ctx.n["audit_events"] += len(ev)
    opened = 0
    for e in ev:
        if e[0] == "open":
            fl = e[3]
            wr = fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if isinstance(e[2], str) and set(e[2]) & set("wax+"):
                wr = True
            if wr:
                ctx.violation("analysis opens %r for writing" % (e[1],), files, event=e)
                return None
            if e[1] == p or (isinstance(e[1], str) and os.path.abspath(e[1]) == p):
                opened += 1
            elif isinstance(e[1], str) and e[1].startswith(os.path.dirname(p)):
                ctx.violation("analysis of %r opens %r" % (p, e[1]), files, event=e)
                return None
        elif e[0] == "mmap.__new__":
            pass
        elif e[0] not in HARMLESS:
            ctx.violation("analysis causes %s" % (e,), files)
            return None
    ctx.n["opens_of_the_file"] += opened
    if isinstance(rep, engine.Raised):
        ctx.violation("analysis raises %s" % rep, files)
        return None
    t = tree(rep)
    del rep
    after = state()
    for k in before:
        if before[k] != after[k]:
            ctx.violation("analysis changes process state: %s from %s to %s" % (
                k, str(before[k])[:200], str(after[k])[:200]), files)
            return None
    with open("/proc/self/maps") as f:
        if os.path.basename(p) in f.read():
            ctx.violation("file still mapped after analysis", files)
            return None
    return t


def sig(ctx, t):
    ctx.sig(t[4][2:] if len(t) > 4 else t)


def run(item, ctx):
    kind, _, i = item
    ctx.n["items_" + kind] += 1
    r = g.rng(ctx.seed, "c15", kind, i)
    d = os.path.join(ctx.scratch, "d")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        {"hist": history, "big": history, "thread": threads, "order": order, "copy": copies, "twin": twins,
         "fault": faults, "leak": leak}[kind](ctx, r, d, kind == "big")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def history(ctx, r, d, big):
    fs = pool(r, ctx, d, 4 if big else r.randrange(3, 12), big)
    files = {"%d" % j: open(p, "rb").read() for j, (p, f) in enumerate(fs)}
    jobs = []
    for p, fmt in fs:
        for _ in range(1 if big else 2):
            jobs.append((p, fmt if r.random() < 0.8 else r.choice(work.FMTS), opts(r)))
    snap = snapshot(d)
    k = r.randrange(len(jobs))
    ref = fresh(ctx, jobs[k:] + jobs[:k], "mmap", r)
    ref = ref[-k:] + ref[:-k] if k else ref
    alone = fresh(ctx, [jobs[0]], "mmap", r)
    plain = fresh(ctx, jobs, "plain", r)
    for j, job in enumerate(jobs):
        sig(ctx, ref[j])
        if ref[j][0] == "raised":
            ctx.violation("analysis raises %s" % (ref[j],), files, job=job)
            return
        if j == 0 and alone[0] != ref[0]:
            ctx.violation("report differs between a run alone and after others: %s" %
                          show(alone[0], ref[0]), files, job=job)
            return
        if plain[j] != ref[j]:
            ctx.violation("report differs when memory mapping is not available: %s" %
                          show(plain[j], ref[j]), files, job=job)
            return
        ctx.n["mmap_plain_comparisons"] += 1
    seq = [r.randrange(len(jobs)) for _ in range(len(jobs) * 2)]
    for j in seq:
        t = monitored(ctx, jobs[j][0], jobs[j][1], jobs[j][2], files)
        if t is None:
            return
        ctx.n["history_comparisons"] += 1
        if t != ref[j]:
            ctx.violation("report depends on what was analysed before: %s" % show(ref[j], t), files,
                          job=jobs[j], history=[jobs[q] for q in seq[:seq.index(j) + 1]])
            return
    if snapshot(d) != snap:
        ctx.violation("analysis changed the directory", files)
        return
    ctx.n["directory_snapshots"] += 1
    if r.random() < 0.1:
        ctx.sample("history of %d analyses of %d files identical to fresh processes" % (len(seq), len(fs)))


LEAK = 2 << 20


def leak(ctx, r, d, big):
    """Memory that stays allocated after many analyses of different files."""
    def some(n, sub):
        os.mkdir(os.path.join(d, sub))
        fs = pool(r, ctx, os.path.join(d, sub), n)
        for j in range(4):
            p = os.path.join(d, sub, "large%d" % j)
            with open(p, "wb") as f:
                f.write(work.make(["n", "jp2", g.pick(r, "payload", "unknownlen", "uuidlen"), 2000000 - j],
                                  ctx.seed)[1])
            fs.append((p, "jp2"))
        return [(p, f, opts(r)) for p, f in fs]

    def all_(jobs):
        for p, f, o in jobs:
            ctx.analyse_path(p, f, *o)

    all_(some(30, "warm"))
    jobs = some(120, "jobs")
    gc.collect()
    tracemalloc.start()
    try:
        a = tracemalloc.get_traced_memory()[0]
        all_(jobs)
        gc.collect()
        b = tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()
    ctx.n["leak_runs"] += 1
    ctx.n["leak_max_bytes"] = max(ctx.n["leak_max_bytes"], b - a)
    ctx.note("retained_kB", (b - a) >> 10)
    if b - a > LEAK:
        ctx.violation("%d bytes stay allocated after %d analyses" % (b - a, len(jobs)), None)


def threads(ctx, r, d, big):
    """Analyses in several threads, frequent switches."""
    from jpylyzer.jpylyzer import checkOneFile
    fs = pool(r, ctx, d, 8)
    files = {"%d" % j: open(p, "rb").read() for j, (p, f) in enumerate(fs)}
    jobs = [(p, f, opts(r)) for p, f in fs]
    ref = fresh(ctx, jobs, "mmap", r)
    bad = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)

    def work_(start):
        for j in range(len(jobs)):
            q = (start + j) % len(jobs)
            try:
                t = tree(checkOneFile(jobs[q][0], jobs[q][1], *jobs[q][2]))
            except Exception as ex:
                bad.append((q, repr(ex)))
                return
            if t != ref[q]:
                bad.append((q, show(ref[q], t)))
                return
    try:
        ts = [threading.Thread(target=work_, args=(k,)) for k in range(0, 8, 2)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.cases += 4 * len(jobs)
    ctx.n["threaded_comparisons"] += 4 * len(jobs)
    if bad:
        ctx.violation("report differs when other files are analysed at the same time: %s" % (bad[0],),
                      files, job=jobs[bad[0][0]])


def order(ctx, r, d, big):
    """The command line application: any order and company gives the same file elements."""
    fs = [p for p, f in pool(r, ctx, d, r.randrange(2, 6))]
    files = {"%d" % j: open(p, "rb").read() for j, p in enumerate(fs)}
    fmt = r.choice(work.FMTS)
    o = cli.options(verbose=True, pm=r.random() < 0.5, nullxml=r.random() < 0.5, fmt=fmt,
                    nopretty=True, mix=g.pick(r, 0, 1, 2))
    snap = snapshot(d)
    single = {}
    for p in fs:
        res = cli.forked(ctx, o + [p])
        if res.rc:
            ctx.violation("exit code %d: %r" % (res.rc, res), files)
            return
        single[p] = tree(cli.files(res.doc())[0])
        sig(ctx, single[p])
    for _ in range(2):
        seq = [r.choice(fs) for _ in range(len(fs) + 2)]
        res = cli.forked(ctx, o + seq)
        got = [tree(e) for e in cli.files(res.doc())]
        for p, e in zip(seq, got):
            a, b = (single[p][0], single[p][1], single[p][2], None, single[p][4]), \
                (e[0], e[1], e[2], None, e[4])
            if a != b:
                ctx.violation("file element differs when other files are analysed in the same run: %s" %
                              show(a, b), files, seq=seq)
                return
            ctx.n["order_comparisons"] += 1
        if len(got) != len(seq):
            ctx.violation("%d file elements for %d files" % (len(got), len(seq)), files, seq=seq)
            return
    if snapshot(d) != snap:
        ctx.violation("run changed the directory", files)


def copies(ctx, r, d, big):
    """Only name, metadata and contents matter."""
    (p, fmt), = pool(r, ctx, d, 1)
    data = open(p, "rb").read()
    o = opts(r)
    a = monitored(ctx, p, fmt, o, {"image": data})
    q = os.path.join(d, "elsewhere", "other.bin")
    os.mkdir(os.path.dirname(q))
    shutil.copyfile(p, q)
    b = monitored(ctx, q, fmt, o, {"image": data})
    if a is None or b is None:
        return
    sig(ctx, a)
    ctx.n["copy_comparisons"] += 1
    for x, y in zip(a[4], b[4]):
        if x[0] == "fileInfo" or (x[0] == "warnings" and not data):
            continue
        if x != y:
            ctx.violation("report depends on where the file is: %s" % show(x, y), {"image": data})
            return


def variants(r, data, n):
    """Contents that differ from data in little and nothing of it in length."""
    out = [data]
    while len(out) < n:
        b = bytearray(out[-1] if r.random() < 0.5 else data)
        k = r.random()
        if len(b) < 8:
            b += b"x"
        elif k < 0.5:
            lo = g.pick(r, 0, len(b) // 4, len(b) // 2, len(b) * 3 // 4, len(b) - 4)
            for _ in range(g.pick(r, 1, 1, 1, 2, 5)):
                j = r.randrange(lo, len(b))
                b[j] = g.pick(r, b[j] ^ 1, b[j] ^ 128, (b[j] + 1) & 255, r.randrange(256))
        elif k < 0.7:
            i, j = r.randrange(len(b)), r.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        elif k < 0.85:
            # the same image up to some point
            b = b[:r.randrange(len(b))]
            b += bytes(len(data) - len(b))
        else:
            # another value in one field of a profile, comment, UUID, ...
            for t in (b"desc", b"acsp", b"uuid", b"xml ", b"\xff\x64", b"colr", b"\xff\x52", b"\xff\x90"):
                j = bytes(b).find(t)
                if j >= 0 and r.random() < 0.6:
                    q = j + len(t) + r.randrange(min(160, len(b) - j - len(t)) or 1)
                    if q < len(b):
                        b[q] ^= g.pick(r, 1, 2, 64)
        out.append(bytes(b))
    return out


def siblings(r, im, n, ctx):
    """Images that differ in one box or marker segment only, most of them only in its later part."""
    kinds = {}
    for j, x in enumerate(im.leaf_nodes()):
        if x.fields.f:
            kinds.setdefault(x.typ if isinstance(x, g.Box) else x.tag, []).append(j)
    kind = r.choice(sorted(kinds, key=str))
    if b"colr" in kinds and r.random() < 0.2:
        kind = b"colr"
    j = r.choice(kinds[kind])
    ctx.note("twin_kind", str(kind))
    out = [im.ser()]
    for _ in range(8 * n):
        c = im.copy()
        f = c.leaf_nodes()[j].fields.f
        lo = g.pick(r, 0, len(f) // 2, len(f) - 1, max(0, len(f) - 4))
        for _ in range(g.pick(r, 1, 1, 2, 3)):
            x = f[r.randrange(lo, len(f))]
            if isinstance(x[2], bytes):
                b = bytearray(x[2])
                if b:
                    q = r.randrange(g.pick(r, 0, len(b) // 2, len(b) - 1), len(b))
                    b[q] = g.pick(r, b[q] ^ 1, b[q] ^ 2, 97 + r.randrange(26), r.randrange(256))
                x[2] = bytes(b)
            elif r.random() < 0.5:
                x[2] = (x[2] ^ g.pick(r, 1, 2, 3, 4)) % (1 << 8 * x[1])
            else:
                x[2] = r.choice(g.boundary(r, x[1]))
        b = c.ser()
        if b not in out:
            out.append(b)
        if len(out) == n:
            break
    return out


def twins(ctx, r, d, big):
    """Files that have nearly everything in common, also one replaced by another in place."""
    fmt = r.choice(work.FMTS)
    k = r.random()
    if k < 0.7:
        im = g.image(r, fmt, small=True, rich=0.8)
        while fmt in ("jp2", "jph") and k < 0.2 and not (
                im.hdr(b"colr") and im.hdr(b"colr").fields.has("tagCount")):
            im = g.image(r, fmt, small=True, rich=0.8)
    if k < 0.5:
        vs = siblings(r, im, 6, ctx)
    else:
        vs = variants(r, im.ser() if k < 0.7 else work.make(
            [g.pick(r, "conf", "mut", "host"), fmt, r.randrange(10 ** 9)], ctx.seed)[1], 6)
    if r.random() < 0.3:
        # a file with nothing (or next to nothing) in it, later with contents or the other way round
        vs[r.randrange(len(vs))] = g.pick(r, b"", b"", vs[0][:1], vs[0][:12], bytes(len(vs[0])))
    o = opts(r)
    files = {"%d" % j: v for j, v in enumerate(vs)}
    ps = []
    for j, v in enumerate(vs):
        os.mkdir(os.path.join(d, str(j)))
        ps.append(os.path.join(d, str(j), "image.jp2"))
    ps.append(os.path.join(d, "image.jp2"))

    def put(p, v):
        with open(p, "wb") as f:
            f.write(v)
        os.utime(p, (1e9, 1e9))

    for p, v in zip(ps, vs):
        put(p, v)
    ref = fresh(ctx, [(p, fmt, o) for p in ps[:-1]], "each", r)
    for j in range(len(vs)):
        sig(ctx, ref[j])
        if ref[j][0] == "raised":
            ctx.violation("analysis raises %s" % (ref[j],), files)
            return
    for _ in range(2 * len(vs)):
        j = r.randrange(len(vs))
        same = r.random() < 0.5
        p = ps[-1] if same else ps[j]
        if same:
            put(p, vs[j])
        t = monitored(ctx, p, fmt, o, files)
        if t is None:
            return
        want = ref[j]
        if same:
            # only the path differs
            if not vs[j]:
                continue        # (a warning states the path)
            t, want = [tuple(e for e in x[4] if e[0] != "fileInfo") for x in (t, want)]
            t, want = ("file", (), None, None, t), ("file", (), None, None, want)
        if t != want:
            ctx.violation("report of a file depends on similar files analysed before: %s" % show(want, t), files,
                          replaced=same, variant=j)
            return
        ctx.n["twin_comparisons"] += 1


def faults(ctx, r, d, big):
    """An analysis that fails half-way leaves nothing behind either."""
    fs = pool(r, ctx, d, r.randrange(2, 5))
    files = {"%d" % j: open(p, "rb").read() for j, (p, f) in enumerate(fs)}
    jobs = [(p, f, opts(r)) for p, f in fs]
    ref = fresh(ctx, jobs, "mmap", r)
    snap = snapshot(d)
    for _ in range(3 * len(jobs)):
        p, fmt, o = r.choice(jobs)
        make, cat = c20.exc(r)
        where = g.pick(r, "open", "map", "read", "read", "read")
        fl = c20.Fault(p, where, g.pick(r, 0, 2, 10, r.randrange(100), r.randrange(400)), make)
        with fl:
            before = state()
            rep = ctx.analyse_path(p, fmt, *o)
            if isinstance(rep, engine.Raised):
                ctx.violation("analysis raises %s" % rep, files)
                return
        ctx.n["faults_delivered" if fl.delivered else "faults_not_reached"] += 1
        rep = None
        gc.collect()
        after = state()
        for k in before:
            if before[k] != after[k]:
                ctx.violation("failed analysis (%s at %s) changes process state: %s from %s to %s" % (
                    cat, where, k, str(before[k])[:200], str(after[k])[:200]), files)
                return
        with open("/proc/self/maps") as f:
            if p in f.read():
                ctx.violation("file still mapped after a failed analysis (%s at %s)" % (cat, where), files)
                return
        # the next file, or the same again
        j = r.randrange(len(jobs))
        t = monitored(ctx, jobs[j][0], jobs[j][1], jobs[j][2], files)
        if t is None:
            return
        if t != ref[j]:
            ctx.violation("report depends on a failed analysis (%s at %s) before: %s" % (
                cat, where, show(ref[j], t)), files, job=jobs[j], failed=p)
            return
        ctx.n["after_fault_comparisons"] += 1
    if snapshot(d) != snap:
        ctx.violation("failed analysis changed the directory", files)


def gaps(n, seen):
    return [k for k in ("monitored_analyses", "history_comparisons", "mmap_plain_comparisons",
                        "opens_of_the_file", "order_comparisons", "threaded_comparisons",
                        "copy_comparisons", "twin_comparisons",
                        "after_fault_comparisons") if n[k] < 100]
