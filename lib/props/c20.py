"""C20: file and status information is truthful, also under I/O faults."""
import builtins
import datetime
import errno
import mmap
import os
import shutil
import sys
import time

import clirun as cli
import diff
import engine
import extremes
import jpgen as g
import names
import work
from plainrun_tree import tree

PROPERTY = "C20"
RULE = "distinct (fault, point of the fault, format, report) and distinct reports"


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["info", work.FMTS[i % 4], i] for i in range(5000 * k)]
    out += [["fault", work.FMTS[i % 4], i] for i in range(7000 * k)]
    out += [["run", work.FMTS[i % 4], i] for i in range(700 * k)]
    out += [["perm", work.FMTS[i % 4], i] for i in range(150 * k)]
    out += [["plainf", work.FMTS[i % 4], i] for i in range(16 * k)]
    out += [["bigf", "jp2", i] for i in range(3)]
    out += work.stream("host", 1500 * k)
    return work.shuffled(out, seed)


MSG = {"memory": "memory error", "io": "I/O error", "runtime": "runtime error", "other": "unknown error"}


class Odd(Exception):
    pass


def exc(r):
    """(exception factory, category)"""
    return g.pick(r, (lambda: MemoryError(), "memory"),
                  (lambda: OSError(errno.EIO, "Input/output error"), "io"),
                  (lambda: PermissionError(errno.EACCES, "Permission denied"), "io"),
                  (lambda: OSError(errno.ENXIO, "No such device"), "io"),
                  (lambda: RuntimeError("injected"), "runtime"),
                  (lambda: Odd("injected"), "other"))


class Fault:
    """Delivers one fault to whoever touches the file at path: on open, on mapping or on
    the n-th access to the mapped contents."""

    def __init__(self, path, where, n, make):
        self.path, self.where, self.n, self.make = path, where, n, make
        self.delivered = False
        self.accesses = 0

    def match(self, p):
        return isinstance(p, (str, bytes, os.PathLike)) and \
            os.path.abspath(os.fsdecode(p)) == self.path

    def __enter__(self):
        self.saved = (builtins.open, mmap.mmap)
        real_open, real_map = self.saved
        fault = self
        self.live = False

        def f_open(file, *a, **kw):
            if fault.match(file):
                if fault.where == "open":
                    fault.delivered = True
                    raise fault.make()
                fault.live = True
            elif isinstance(file, str):
                fault.live = False
            return real_open(file, *a, **kw)

        class Map(real_map):
            def __new__(cls, *a, **kw):
                if fault.live and fault.where == "map":
                    fault.delivered = True
                    raise fault.make()
                self = real_map.__new__(cls, *a, **kw)
                self.armed = fault.live
                return self

            def hit(self):
                if self.armed and fault.where == "read":
                    fault.accesses += 1
                    if fault.accesses > fault.n:
                        fault.delivered = True
                        raise fault.make()

            def __getitem__(self, k):
                self.hit()
                return real_map.__getitem__(self, k)

            def read(self, *a):
                self.hit()
                return real_map.read(self, *a)

        builtins.open = f_open
        mmap.mmap = Map
        return self

    def __exit__(self, *a):
        builtins.open, mmap.mmap = self.saved
        return False


def failed_report(rep, fmt, cat):
    """Errors in the report of a failed analysis."""
    err = diff.shape_errors(rep, fmt)
    if err:
        return err[0]
    if diff.success(rep):
        return "success is True"
    if rep.find("isValid").text != "False":
        return "verdict is %s" % rep.find("isValid").text
    m = rep.find("statusInfo/failureMessage")
    if m is None or not (m.text or "").strip():
        return "no failure message"
    if cat and MSG[cat] not in m.text:
        return "failure message %r for a fault of kind %s" % (m.text, cat)
    return None


def sub(r, ctx):
    d = os.path.join(ctx.scratch, "d")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


def info_error(rep, path, given):
    """File information against the file system; path: absolute path."""
    st = os.stat(path)
    fi = rep.find("fileInfo")
    if fi.find("fileName").text != names.xml_visible(os.path.basename(path)):
        return "fileName is %r for %r" % (fi.find("fileName").text, given)
    if fi.find("filePath").text != names.xml_visible(path):
        return "filePath is %r for %r" % (fi.find("filePath").text, given)
    if fi.find("fileSizeInBytes").text != str(st.st_size):
        return "fileSizeInBytes is %r for a file of %d bytes" % (fi.find("fileSizeInBytes").text, st.st_size)
    got = fi.find("fileLastModified").text
    if got not in when(st.st_mtime):
        return "fileLastModified is %r for %r (%s)" % (got, st.st_mtime, sorted(when(st.st_mtime))[0])
    return None


def when(t):
    out = set()
    for x in (t - 1e-6, t, t + 1e-6):
        try:
            out.add(datetime.datetime.fromtimestamp(x).isoformat())
        except (ValueError, OverflowError, OSError):
            out.add(datetime.datetime.fromtimestamp(0).isoformat())
    return out


TIMES = [0, 1, -1, -86400 * 365 * 30, 1e9, 1e9 + 0.5, 1234567890.123456, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 7,
         253402300799, 253402300800, 1e12, 1711846799.999999, 1711846800, 1729994400.25, -62135596801,
         1.7e9 + 0.000001, 2 ** 33, -2 ** 31, -0.5, -1.5, -0.000001, -1e9 - 0.25, -62135596799, 0.000001, 0.5,
         253402300799.5, 951782400, 1709164800, 1e9 + 0.1]
ZONES = ["UTC", "Europe/Amsterdam", "America/St_Johns", "Asia/Kathmandu", "Pacific/Auckland", "EST5EDT"]


def run(item, ctx):
    kind = item[0]
    ctx.n["items_" + kind] += 1
    if kind == "host":
        _, data, fmt = work.make(item, ctx.seed)
        p = ctx.write(data)
        rep = ctx.analyse_path(p, fmt)
        err = diff.shape_errors(rep, fmt)
        e = err[0] if err else info_error(rep, p, p)
        if e:
            ctx.violation(e, {"image." + fmt: data})
        elif (rep.find("statusInfo/failureMessage") is None) != diff.success(rep):
            ctx.violation("success and failure message disagree", {"image." + fmt: data})
        else:
            diff.observe(ctx, rep, fmt)
        return
    _, fmt, i = item
    r = g.rng(ctx.seed, "c20", kind, fmt, i)
    d = sub(r, ctx)
    try:
        {"info": info, "fault": fault, "run": cliruns, "perm": perm, "plainf": plainf,
         "bigf": bigf}[kind](ctx, r, d, fmt)
    finally:
        os.chdir(engine.VERIF)
        shutil.rmtree(d, ignore_errors=True)


def image(r, ctx, fmt, small=False):
    if r.random() < 0.3 or small:
        return work.make(["conf", fmt, r.randrange(10 ** 9)], ctx.seed)[1]
    return g.pick(r, *[work.make([w, fmt, r.randrange(10 ** 9)], ctx.seed)[1] for w in ("mut", "host")])


def info(ctx, r, d, fmt):
    data = image(r, ctx, fmt)
    if r.random() < 0.1:
        data = b""
    dirs = [d]
    for _ in range(r.randrange(3)):
        dirs.append(os.path.join(dirs[-1], names.name(r, 60)))
    os.makedirs(dirs[-1], exist_ok=True)
    p = os.path.join(dirs[-1], names.name(r, 100))
    if os.path.exists(p):
        return
    with open(p, "wb") as f:
        f.write(data)
    t = r.choice(TIMES) if r.random() < 0.6 else r.uniform(-2e9, 4e9)
    try:
        os.utime(p, (1e9, t))
    except (OSError, OverflowError):
        pass
    given = p
    if r.random() < 0.15:
        q = os.path.join(d, "link-%d" % r.randrange(99))
        os.symlink(p, q)
        given = p = q
    cwd = r.choice(dirs)
    os.chdir(cwd)
    k = r.random()
    if k < 0.3:
        given = os.path.relpath(p)
    elif k < 0.4:
        given = "./" + os.path.relpath(p)
    elif k < 0.5:
        given = os.path.join(os.path.dirname(p), ".", os.path.basename(p))
    elif k < 0.6:
        given = os.path.join(d, "..", "d", os.path.relpath(p, d))
    tz = r.choice(ZONES)
    old = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        rep = ctx.analyse_path(given, fmt, r.random() < 0.5)
        err = diff.shape_errors(rep, fmt)
        e = err[0] if err else info_error(rep, p, given)
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()
    if not e and not diff.success(rep):
        e = "success False for a readable file: %s" % diff.describe(rep)
    if not e and rep.find("statusInfo/failureMessage") is not None:
        e = "failure message although successful"
    ctx.n["file_infos"] += 1
    ctx.note("mtimes", round(t, 6))
    if e:
        ctx.violation(e, {"image": data}, path=given, cwd=cwd, mtime=t, tz=tz)
    else:
        diff.observe(ctx, rep, fmt)


def fault(ctx, r, d, fmt):
    p = os.path.join(d, "img.jp2")
    data = image(r, ctx, fmt, small=r.random() < 0.7)
    if len(data) < 2:
        return
    with open(p, "wb") as f:
        f.write(data)
    make, cat = exc(r)
    where = g.pick(r, "open", "map", "read", "read", "read", "read")
    n = g.pick(r, 0, 1, 2, 5, 10, 30, r.randrange(100), r.randrange(400))
    if r.random() < 0.3 and where == "read":
        # first learn how many accesses there are
        with Fault(p, "read", 10 ** 9, make) as f0:
            ctx.analyse_path(p, fmt)
        n = r.randrange(max(1, f0.accesses))
    mix = g.pick(r, 0, 0, 1, 2)
    fl = Fault(p, where, n, make)
    with fl:
        rep = ctx.analyse_path(p, fmt, r.random() < 0.5, r.random() < 0.5, r.random() < 0.5, 0)
    label = "%s at %s %d" % (cat, where, n)
    files = {"image." + fmt: data}
    if not fl.delivered:
        ctx.n["faults_not_reached"] += 1
        err = diff.shape_errors(rep, fmt)
        if err or not diff.success(rep):
            ctx.violation("no fault, but %s %s" % (err, diff.describe(rep)), files)
        return
    ctx.n["faults_%s_%s" % (where, cat)] += 1
    e = failed_report(rep, fmt, cat)
    if not e:
        e = info_error(rep, p, p)
    ctx.sig((cat, where, n, fmt))
    if e:
        ctx.violation("fault (%s): %s" % (label, e), files)
        return
    # and the next analysis is fine again
    rep = ctx.analyse_path(p, fmt)
    err = diff.shape_errors(rep, fmt)
    if err or not diff.success(rep):
        ctx.violation("analysis after a fault (%s): %s %s" % (label, err, diff.describe(rep)), files)
    elif ctx.cases % 1997 < 3:
        ctx.sample("fault (%s) reported as %s" % (label, MSG[cat]))


def check_run(ctx, res, ps, bad, ref, fmt, cat, files, label):
    """Run over files ps of which those in bad could not be read."""
    if res.rc:
        ctx.violation("%s: exit code %d: %s" % (label, res.rc, res.err[-300:]), files)
        return False
    try:
        doc = res.doc()
    except Exception as ex:
        ctx.violation("%s: output not well-formed: %s" % (label, ex), files)
        return False
    fs = cli.files(doc)
    if len(fs) != len(ps):
        ctx.violation("%s: %d file elements for %d files" % (label, len(fs), len(ps)), files)
        return False
    for p, e in zip(ps, fs):
        get = lambda t: e.findtext("/".join(cli.NS + x for x in t.split("/")))
        if get("fileInfo/filePath") != p or get("fileInfo/fileSizeInBytes") != str(os.path.getsize(p)):
            ctx.violation("%s: file information wrong for %r" % (label, p), files)
            return False
        if p in bad:
            m = get("statusInfo/failureMessage")
            if get("statusInfo/success") != "False" or get("isValid") != "False" or not m or \
                    (cat and not any(MSG[c] in m for c in cat)):
                ctx.violation("%s: unreadable file reported with success %s, verdict %s, message %r" % (
                    label, get("statusInfo/success"), get("isValid"), m), files)
                return False
            ctx.n["failed_files"] += 1
        else:
            a, b = ref[p], tree(e)
            if a[:3] + a[4:] != b[:3] + b[4:]:
                ctx.violation("%s: report of a readable file differs from that of a run without fault" %
                              label, files)
                return False
            ctx.n["unaffected_files"] += 1
    return True


def several(ctx, r, d, fmt):
    ps, files = [], {}
    for j in range(r.randrange(2, 6)):
        p = os.path.join(d, "f%d.jp2" % j)
        data = image(r, ctx, fmt) or b"x"
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, 0o644)
        ps.append(p)
        files["f%d" % j] = data
    return ps, files


def reference(ctx, o, ps):
    res = cli.forked(ctx, o + ps)
    return res, ({p: tree(e) for p, e in zip(ps, cli.files(res.doc()))} if not res.rc else None)


def cliruns(ctx, r, d, fmt):
    ps, files = several(ctx, r, d, fmt)
    o = cli.options(verbose=True, fmt=fmt, nopretty=True, mix=g.pick(r, 0, 1, 2))
    res, ref = reference(ctx, o, ps)
    if ref is None:
        ctx.violation("exit code %d without fault: %s" % (res.rc, res.err[-300:]), files)
        return
    victim = r.choice(ps)
    make, cat = exc(r)
    where = g.pick(r, "open", "map", "read")
    n = g.pick(r, 0, 1, 5, 20)
    flag = os.path.join(ctx.scratch, "delivered")
    if os.path.exists(flag):
        os.unlink(flag)

    def before():
        f = Fault(victim, where, n, lambda: (os.close(os.open(flag, os.O_CREAT | os.O_WRONLY)), make())[1])
        f.__enter__()

    res = cli.forked(ctx, o + ps, before=before)
    delivered = os.path.exists(flag)
    ctx.n["runs_with_fault" if delivered else "runs_fault_not_reached"] += 1
    ctx.sig(("run", fmt, cat, where, n, len(ps)))
    check_run(ctx, res, ps, {victim} if delivered else set(), ref, fmt, (cat,), files,
              "run with fault (%s at %s %d) in file %d of %d" % (cat, where, n, ps.index(victim) + 1, len(ps)))


def perm(ctx, r, d, fmt):
    """Files without read permission, run as an unprivileged user."""
    ps, files = several(ctx, r, d, fmt)
    o = cli.options(verbose=True, fmt=fmt, nopretty=True)
    res, ref = reference(ctx, o, ps)
    if ref is None:
        ctx.violation("exit code %d: %s" % (res.rc, res.err[-300:]), files)
        return
    bad = set(r.sample(ps, r.randrange(1, len(ps) + 1)))
    for p in bad:
        os.chmod(p, g.pick(r, 0, 0o200, 0o600))
    for x in (d, ctx.scratch, os.path.dirname(ctx.scratch)):
        os.chmod(x, 0o755)
    can = os.path.join(ctx.scratch, "dropped")
    if os.path.exists(can):
        os.unlink(can)

    def before():
        f = os.open(can, os.O_CREAT | os.O_WRONLY)
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            for p in bad:
                if os.access(p, os.R_OK):
                    os._exit(71)
            os.write(f, b"1")
        except OSError:
            os._exit(71)
        os.close(f)

    res = cli.forked(ctx, o + ps, before=before)
    if res.rc == 71 or not os.path.exists(can) or not os.path.getsize(can):
        ctx.n["cannot_drop_privileges"] += 1
        return
    ctx.n["unprivileged_runs"] += 1
    ctx.sig(("perm", fmt, len(ps), len(bad)))
    check_run(ctx, res, ps, bad, ref, fmt, ("io",), files, "%d of %d files not readable" % (len(bad), len(ps)))


def plainf(ctx, r, d, fmt):
    """Faults when memory mapping is not available, in a new process."""
    import json
    import subprocess
    ps, files = several(ctx, r, d, fmt)
    make, cat = exc(r)
    code = '''
import sys, builtins, io
sys.path[:0] = [%r, %r, %r]
sys.modules["mmap"] = None
import jpylyzer.jpylyzer as j
victim, kind, where = sys.argv[1:4]
E = {"memory": MemoryError(), "io": OSError(5, "x"), "runtime": RuntimeError("x"), "other": KeyError("x")}[kind]
real = builtins.open
def fail():
    sys.stderr.write("FAULT-DELIVERED\\n")
    raise E
class F(io.BufferedReader):
    def read(self, *a): fail()
    def read1(self, *a): fail()
    def readinto(self, *a): fail()
def o(f, *a, **k):
    if f == victim:
        if where == "open": fail()
        return F(io.FileIO(f))
    return real(f, *a, **k)
builtins.open = o
sys.argv = ["jpylyzer"] + sys.argv[4:]
j.main()
''' % (engine.REPO, os.path.join(engine.VERIF, "lib"), os.path.join(engine.VERIF, "lib", "props"))
    o = cli.options(verbose=True, fmt=fmt, nopretty=True)
    res, ref = reference(ctx, o, ps)
    victim = r.choice(ps)
    ctx.cases += 1
    q = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code, victim, cat,
                        g.pick(r, "open", "read")] + o + ps, stdin=subprocess.DEVNULL,
                       capture_output=True, timeout=300)
    hit = b"FAULT-DELIVERED" in q.stderr
    ctx.n["unmapped_runs" if hit else "unmapped_runs_fault_not_reached"] += 1
    ctx.sig(("plain", fmt, cat, len(ps)))
    check_run(ctx, cli.Run(q.returncode, q.stdout, q.stderr), ps, {victim} if hit else set(), ref, fmt, (cat,), files,
              "unmapped run with fault (%s)" % cat)


def bigf(ctx, r, d, fmt):
    """A file larger than the address space left: cannot be mapped."""
    ps, files = several(ctx, r, d, fmt)
    big = os.path.join(d, "big.jp2")
    try:
        with open(big, "wb") as f:
            f.write(b"\0\0\0\x0cjP  \r\n\x87\n")
            f.truncate(64 << 30)
    except OSError:
        ctx.n["no_sparse_files"] += 1
        return
    o = cli.options(verbose=True, fmt=fmt, nopretty=True)
    res, ref = reference(ctx, o, ps)

    def before():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

    ps.insert(1, big)
    res = cli.forked(ctx, o + ps, before=before)
    ctx.n["address_space_runs"] += 1
    check_run(ctx, res, ps, {big}, ref, fmt, ("io", "memory"), files, "file larger than the address space")


def gaps(n, seen):
    return [k for k in ("file_infos", "items_fault", "items_run") if n[k] < 100]
