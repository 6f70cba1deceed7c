"""C21: exit status and output streams tell the truth, however the program is started."""
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import xml.etree.ElementTree

import clirun as cli
import engine
import jpgen as g
import names
import work

PROPERTY = "C21"
RULE = "distinct (kind of invocation, ways of starting it, options, exit status, place of the output fault)"


def items(tier, seed):
    k = 1 if tier == "quick" else 10
    out = [["same", "", i] for i in range(330 * k)]
    out += [["full", "", i] for i in range(330 * k)]
    out += [["usage", "", i] for i in range(300 * k)]
    out += [["info", "", i] for i in range(40 * k)]
    return work.shuffled(out, seed)


MAINS = {"module": ["-m", "jpylyzer"],
         "wrapper": [os.path.join(engine.REPO, "cli.py")],
         "entry point": ["-c", "import sys; from jpylyzer.jpylyzer import main; sys.exit(main())"]}


def start(ctx, how, args, cwd, env=None, flags=(), stdout=subprocess.PIPE, before=None, **kw):
    ctx.cases += 1
    ctx.n["started_" + how.replace(" ", "_")] += 1
    e = dict(os.environ, PYTHONPATH=engine.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    e.pop("PYTHONUNBUFFERED", None)
    e.update(env or {})
    p = subprocess.run([sys.executable, "-B"] + list(flags) + MAINS[how] + args, cwd=cwd, env=e,
                       stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, timeout=300,
                       preexec_fn=before, **kw)
    return cli.Run(p.returncode, p.stdout or b"", p.stderr)


def make_files(r, ctx, d):
    fmt = r.choice(work.FMTS)
    ps = []
    many = r.random() < 0.02
    for j in range(g.pick(r, 130, 300) if many else g.pick(r, 1, 1, 2, 3, 6)):
        what = "host" if many else g.pick(r, "conf", "conf", "mut", "host", "cross")
        data = work.make([what, fmt, r.randrange(10 ** 9)], ctx.seed)[1]
        if r.random() < 0.05:
            data = b""
        n = names.name(r, 60) if r.random() < 0.25 else "img %d.jp2" % j
        if n.startswith("-"):
            n = "x" + n
        p = os.path.join(d, n)
        if os.path.exists(p):
            continue
        with open(p, "wb") as f:
            f.write(data)
        os.utime(p, (1e9, 1e9 + j))
        ps.append(p)
    return fmt, ps


def spelled(r, fmt, o):
    """The same options in some other spelling: list of argument groups."""
    out = []
    f = "".join(r.choice((c.upper(), c.lower())) for c in fmt) if r.random() < 0.3 else fmt
    if fmt != "jp2" or r.random() < 0.5:
        if r.random() < 0.1:
            out.append(["--format", r.choice(work.FMTS)])      # the last one counts
            out.append(["--format", f])
        else:
            out.append(g.pick(r, ["--format", f], ["--format=" + f], ["-f", f], ["-f" + f]))
    if o["mix"]:
        out.append(g.pick(r, ["--mix", str(o["mix"])], ["--mix=%d" % o["mix"]]))
    for key, names_ in (("nopretty", ["--nopretty"]), ("nullxml", ["--nullxml"]),
                        ("pm", ["--packetmarkers", "-p"]), ("verbose", ["--verbose"]),
                        ("recurse", ["--recurse", "-r"])):
        if o[key]:
            out.append([r.choice(names_)])
            if r.random() < 0.1:
                out.append([r.choice(names_)])
    if not (out and out[0][0] == "--format" and len(out) > 1 and out[1][0] == "--format"):
        r.shuffle(out)
    return out


def arrange(r, groups, ps):
    """Options before, after or on both sides of the paths."""
    k = r.randrange(len(groups) + 1) if r.random() < 0.5 else len(groups)
    pre, post = groups[:k], groups[k:]
    flat = lambda l: [x for y in l for x in y]
    if not post and r.random() < 0.3:
        return flat(pre) + ["--"] + ps
    return flat(pre) + ps + flat(post)


def options(r):
    return dict(verbose=r.random() < 0.5, pm=r.random() < 0.5, nullxml=r.random() < 0.4,
                mix=g.pick(r, 0, 0, 1, 2), nopretty=r.random() < 0.5, recurse=r.random() < 0.2)


def run(item, ctx):
    kind, _, i = item
    ctx.n["items_" + kind] += 1
    r = g.rng(ctx.seed, "c21", kind, i)
    d = os.path.join(ctx.scratch, "d")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        {"same": same, "full": full, "usage": usage, "info": info}[kind](ctx, r, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reference(ctx, r, d):
    fmt, ps = make_files(r, ctx, d)
    o = options(r)
    res = cli.forked(ctx, cli.options(fmt=fmt, **o) + ps)
    files = {"f%d" % j: open(p, "rb").read() for j, p in enumerate(ps)}
    return fmt, ps, o, res, files


ENVS = [{}, {}, {"LC_ALL": "C"}, {"PYTHONIOENCODING": "ascii"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0"},
        {"PYTHONIOENCODING": "utf-16"}, {"PYTHONUTF8": "1"}, {"COLUMNS": "1"}, {"PYTHONHASHSEED": "7"},
        {"PYTHONOPTIMIZE": "2"}, {"PYTHONUNBUFFERED": "1"}, {"HOME": "/nonexistent"}]


def anon(out):
    """Output without the name under which the program was started."""
    return re.sub(rb"<toolName>[^<]*</toolName>", b"<toolName/>", out, count=1)


def document(out, n):
    """What is wrong with this report document for n files."""
    try:
        root = xml.etree.ElementTree.fromstring(out)
    except Exception as e:
        return "%s" % e
    tags = [e.tag.split("}")[-1] for e in root]
    if tags != ["toolInfo"] + ["file"] * n:
        return "elements %s" % tags[:5]
    loose = (root.text or "") + "".join(e.tail or "" for e in root)
    if loose.strip():
        return "text %r" % loose.strip()[:80]
    return None


def same(ctx, r, d):
    fmt, ps, o, ref, files = reference(ctx, r, d)
    if ref.rc or not ref.out:
        ctx.violation("exit status %d for existing files: %r" % (ref.rc, ref), files, options=o)
        return
    bad = document(ref.out, len(ps))
    if bad:
        ctx.violation("standard output for %d files is not one complete report document and nothing else: %s" % (len(ps), bad), files, options=o)
        return
    how = r.choice(sorted(MAINS))
    env = r.choice(ENVS)
    if env.get("PYTHONUTF8") == "0" and not all(p.isascii() for p in ps):
        env = {}        # file names mean something else there
    gone = []
    paths = list(ps)
    if r.random() < 0.35:
        # paths that do not exist, anywhere among the others
        for j in range(r.randrange(1, 4)):
            gone.append(os.path.join(d, g.pick(r, "missing%d.jp2", "no such/%d", "gone%d") % j))
            paths.insert(r.randrange(len(paths) + 1), gone[-1])
    argv = arrange(r, spelled(r, fmt, o), paths)
    res = start(ctx, how, argv, r.choice((d, "/", engine.VERIF)), env)
    label = "%s, %r, environment %s" % (how, [a for a in argv if a not in ps], env)
    ctx.sig(("same", how, tuple(sorted(env)), tuple(sorted(o.items())), fmt, len(ps)))
    if res.rc != 0:
        ctx.violation("%s: exit status %d: %s" % (label, res.rc, res.err[-400:]), files, argv=argv)
        return
    a, b = anon(res.out), anon(ref.out)
    if a != b:
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), -1)
        ctx.violation("%s: output differs from that of the plain invocation at byte %d: %r / %r" % (
            label, k, a[max(0, k - 60):k + 60], b[max(0, k - 60):k + 60]), files, argv=argv)
    elif not ref.out.rstrip().endswith(b"</jpylyzer>"):
        ctx.violation("%s: exit status 0, but output ends in %r" % (label, ref.out[-60:]), files, argv=argv)
    elif not all(os.fsencode(p) in res.err.replace(b"\0", b"") for p in gone):
        ctx.violation("%s: missing path not mentioned on standard error: %r" % (label, res.err[-400:]), files, argv=argv)
    else:
        ctx.n["identical_outputs"] += 1
        ctx.n["missing_paths"] += len(gone)
        if r.random() < 0.03:
            ctx.sample("%s: same %d bytes" % (label, len(res.out)))


def full(ctx, r, d):
    """The output cannot be written in full."""
    fmt, ps = make_files(r, ctx, d)
    o = options(r)
    files = {"f%d" % j: open(p, "rb").read() for j, p in enumerate(ps)}
    how = r.choice(sorted(MAINS))
    argv = cli.options(fmt=fmt, **o) + ps
    ref = start(ctx, how, argv, d)
    if ref.rc:
        ctx.violation("exit status %d for existing files: %r" % (ref.rc, ref), files, options=o)
        return
    size = len(ref.out)
    out = os.path.join(ctx.scratch, "out.xml")
    env = {"PYTHONUNBUFFERED": "1"} if r.random() < 0.3 else {}
    k = r.random()
    if k < 0.7:
        # file size limit: the file system is full after so many bytes
        lim = g.pick(r, 0, 1, size - 1, size - 2, size // 2, r.randrange(size), r.randrange(size), size, size + 1,
                     max(0, size - 12), 8192, 4096)
        where = "limit %d of %d" % (lim, size)

        def before():
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        with open(out, "wb") as f:
            res = start(ctx, how, argv, d, env, stdout=f, before=before)
        with open(out, "rb") as f:
            got = f.read()
        whole = lim >= size
    elif k < 0.85:
        where, lim, whole = "full device", 0, False
        with open("/dev/full", "wb") as f:
            res = start(ctx, how, argv, d, env, stdout=f)
        got = b""
    elif k < 0.95:
        where, lim, whole = "nobody reads", 0, False
        a, b = os.pipe()
        os.close(a)
        with os.fdopen(b, "wb") as f:
            res = start(ctx, how, argv, d, env, stdout=f)
        got = b""
    else:
        where, lim, whole = "standard output closed", 0, False

        def before():
            os.close(1)
        res = start(ctx, how, argv, d, env, stdout=None, before=before)
        got = b""
    ctx.n["output_faults" if not whole else "output_just_fits"] += 1
    ctx.sig(("full", how, where.split()[0], lim * 20 // size if size else 0, fmt))
    label = "%s (%s%s)" % (where, how, ", unbuffered" if env else "")
    if whole:
        if res.rc != 0 or got != ref.out:
            ctx.violation("%s: exit status %d, %d bytes written: %s" % (label, res.rc, len(got), res.err[-300:]), files)
        return
    if res.rc == 0:
        ctx.violation("%s: exit status 0 although the output could not be written" % label, files, argv=argv)
    elif not ref.out.startswith(got):
        ctx.violation("%s: what was written is no prefix of the report" % label, files, argv=argv)
    elif r.random() < 0.03:
        ctx.sample("%s: exit status %d, %d bytes written" % (label, res.rc, len(got)))


def usage(ctx, r, d):
    """Invocations that cannot be carried out."""
    fmt, ps = make_files(r, ctx, d)
    snap = sorted(os.listdir(d))
    k = r.randrange(9)
    good = [x for y in spelled(r, fmt, options(r)) for x in y]
    if k == 0:
        argv, what = good, "no path"
    elif k == 1:
        argv, what = good + [g.pick(r, "--nosuch", "--legacy", "-x", "--verbos=1", "--recurse=yes", "-q", "--nopretty=0")] + ps, \
            "unknown option"
    elif k == 2:
        argv, what = ["--mix", g.pick(r, "0", "3", "x", "", "-1", "1.0", "2.0", "12")] + ps, "MIX version"
    elif k in (3, 4, 5):
        f = g.pick(r, "jpx", "jpm", "j2k", "", " ", "jp2 ", "jp", "jp22", "jpg", "j2ch", "all", "jp2,jph", "0", "jph\n",
                   "pdf", "None", "jpc", "jls", "j2", "jp2jph", "ĵp2")
        argv, what = g.pick(r, ["--format", f], ["--format=" + f], ["-f", f]) + ps, "format %r" % f
    elif k == 6:
        argv, what = ps + [g.pick(r, "--format", "--mix", "-f")], "missing value"
    elif k == 7:
        argv, what = good + [os.path.join(d, "missing", "x.jp2")], "no existing file"
    else:
        argv, what = [a for a in good if a not in ("-r", "--recurse")] + [d], "directory without recursion"
    how = r.choice(sorted(MAINS))
    res = start(ctx, how, argv, d)
    ctx.n["usage_errors"] += 1
    ctx.sig(("usage", what, how, res.rc))
    ctx.note("exit_status", (what.split(" ")[0], res.rc))
    label = "%s (%s)" % (what, how)
    if res.rc == 0:
        ctx.violation("%s: exit status 0" % label, None, argv=argv)
    elif b"<file" in res.out or b"<?xml" in res.out or b"<jpylyzer" in res.out:
        ctx.violation("%s: report on standard output: %r" % (label, res.out[:200]), None, argv=argv)
    elif not res.err.strip():
        ctx.violation("%s: exit status %d without any message" % (label, res.rc), None, argv=argv)
    elif b"Traceback" in res.err:
        ctx.violation("%s: crash: %s" % (label, res.err[-400:]), None, argv=argv)
    elif what in ("no existing file", "directory without recursion") and res.rc != 249:
        ctx.violation("%s: exit status %d instead of 249 (-7)" % (label, res.rc), None, argv=argv)
    elif sorted(os.listdir(d)) != snap:
        ctx.violation("%s: files created or removed" % label, None, argv=argv)


def info(ctx, r, d):
    how = r.choice(sorted(MAINS))
    fmt, ps, o, ref, files = reference(ctx, r, d)
    if r.random() < 0.5:
        argv = [g.pick(r, "--version", "-v")] + (ps if r.random() < 0.3 else [])
        res = start(ctx, how, argv, d)
        ver = ref.doc().findtext(cli.NS + "toolInfo/" + cli.NS + "toolVersion")
        ctx.sig(("version", how, ver))
        if res.rc or res.out.decode().strip() != ver:
            ctx.violation("%s: exit status %d, version %r, reports carry %r" % (argv, res.rc, res.out, ver), None)
    else:
        argv = [g.pick(r, "--help", "-h")] + (ps if r.random() < 0.3 else [])
        res = start(ctx, how, argv, d)
        ctx.sig(("help", how))
        txt = res.out.decode("utf-8", "replace")
        lost = [x for x in ("--format", "--mix", "--nopretty", "--nullxml", "--recurse", "--packetmarkers",
                            "--verbose", "--version", "jp2In") if x not in txt]
        if res.rc or lost or "<file" in txt:
            ctx.violation("%s: exit status %d, not mentioned: %s" % (argv, res.rc, lost), None)


def gaps(n, seen):
    return [k for k in ("identical_outputs", "output_faults", "usage_errors", "output_just_fits") if n[k] < 20]
