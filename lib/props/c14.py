"""C14: exactly the requested files are analysed."""
import fnmatch
import os
import shutil
from collections import Counter

import clirun as cli
import jpgen as g
import names
import work

PROPERTY = "C14"
RULE = "distinct (argument kinds, recursion, numbers of denoted files per argument)"
META = set("*?[")


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["tree", "", i] for i in range(7000 * k)] + [["real", "", i] for i in range(24 * k)]
    out += [["many", n, i] for n in MANY for i in range(4 * k)]
    out += [["deep", n, i] for n in DEEP for i in range(2 * k)]
    out += [["loop", "", i] for i in range(150 * k)]
    out += [["via", "", i] for i in range(300 * k)]
    return work.shuffled(out, seed)


MANY = (10, 33, 65, 99, 100, 101, 129, 200, 255, 256, 257, 300, 500, 513, 1000, 1001, 1025, 2049, 3000)
DEEP = (5, 9, 10, 11, 16, 17, 20, 32, 33, 50, 64, 65, 100, 129, 200, 257)
PLAIN = ["a", "b", "sub", "x1", "img", "deep dir", "größe", ".hid", "a.b", "tmp-1", "S", "jp2"]
FPLAIN = ["a.jp2", "b.jp2", "c.JP2", "img1.jp2", "img2.jp2", "img10.jp2", "x.j2c", ".hid.jp2", "noext",
          "a.jp2.bak", "t.tif", "über.jp2", "b", "z z.jp2", ".jp2", "..a.jp2"]
# names that housekeeping code likes to treat specially
SPECIAL = ["__MACOSX", "._x", ".git", ".svn", "CVS", "@eaDir", "$RECYCLE.BIN", "System Volume Information", "lost+found",
           ".Trash-1000", "#recycle", ".snapshot", "node_modules", "__pycache__", "tmp", "temp", "Temp", "TMP", "cache",
           ".cache", "old", "backup", "Backup", "test", "tests", "thumbs", "thumbnails", ".thumbnails", "derivatives",
           "access", "master", "0", "1", "001", "xsd", "build", "dist", ".AppleDouble", ".Trashes", "RECYCLER", "bak", "con", "nul"]
FSPECIAL = ["._a.jp2", ".DS_Store", "Thumbs.db", "desktop.ini", "a.jp2~", "~a.jp2", "~$a.jp2", "#a.jp2#", "a.tmp", "a.jp2.tmp",
            "a.part", "a.jp2.part", "a.bak", "a.txt", "a.xml", "a.md5", "checksums.md5", "manifest.txt", "a.jpg", "a.tif", "a.pdf",
            "a.jpx", "a.jpf", "a.jpm", "a.mj2", "a.jpc", "a.j2k", "a.jhc", "a.jph", "a.J2C", "a.Jp2", "a.jp2 ", "a.jp2.", "a.", "A.JP2",
            "copy of a.jp2", "a (1).jp2", "a - copy.jp2", "a.jp2.swp", ".a.jp2.swp", "a.lock", "con", "nul.jp2", "a.gz", "a.zip", "a.log",
            "jpylyzer.xml", "README", "core", "-"]
# names that a shell would expand
EXPAND = ["~", "~root", "~.jp2", "~+", "$HOME", "${HOME}", "a$HOME.jp2", "$PATH.jp2", "${PATH}.jp2", "%PATH%", "$$.jp2", "`ls`", "$(ls).jp2",
          "{a,b}.jp2", "!a.jp2", "a b.jp2", "'a'.jp2", "\"a\".jp2", "a\\ b.jp2", "@list.jp2", "@a", "%20a.jp2", "file:a.jp2", "a;b.jp2", "a|b.jp2",
          "a,b.jp2", "a:b.jp2", "^a.jp2", "a=b.jp2", "+a.jp2", "1", "None", "nul.jp2", " ", " a.jp2", "a.jp2\n"]
ODD = ["d[1]", "d1", "q?", "st*r", "[a-z]", "d[!x]", "new\nline", "&amp", "[]", "[[]", "-r", os.fsdecode(b"\xe9t")]


class Tree:
    def __init__(self, r, root):
        self.r, self.root = r, root
        self.files, self.dirs, self.special = [], [root], []
        self.fill(root, 0)

    def fill(self, d, depth):
        r = self.r
        n = g.pick(r, 0, 1, 2, 4, 7)
        for _ in range(n):
            nm = g.pick(r, FPLAIN, FPLAIN, FPLAIN, FSPECIAL, None)
            nm = r.choice(nm) if nm else names.name(r, 60)
            p = os.path.join(d, nm)
            if os.path.lexists(p):
                continue
            k = r.random()
            if k < 0.88:
                with open(p, "wb") as f:
                    f.write(g.pick(r, b"x", b"", b"\0\0\0\x0cjP  \r\n\x87\n", b"\xff\x4f"))
                self.files.append(p)
            elif k < 0.92 and self.files:
                os.symlink(r.choice(self.files), p)
                self.files.append(p)
            elif k < 0.96:
                os.symlink("nowhere-%d" % r.randrange(99), p)
                self.special.append(p)
            else:
                os.mkfifo(p)
                self.special.append(p)
        if depth < 4:
            for _ in range(g.pick(r, 0, 1, 2, 3) if depth < 3 else g.pick(r, 0, 0, 1)):
                nm = r.choice(g.pick(r, PLAIN, PLAIN, PLAIN, SPECIAL, ODD))
                p = os.path.join(d, nm)
                if os.path.lexists(p):
                    continue
                os.mkdir(p)
                self.dirs.append(p)
                self.fill(p, depth + 1)

    def under(self, d):
        pre = d.rstrip("/") + "/"
        return [f for f in self.files if f.startswith(pre)]


def comp_match(name, pat):
    """One path component, shell style: hidden names only if asked for."""
    if name.startswith(".") and not pat.startswith("."):
        return False
    return fnmatch.fnmatchcase(name, pat)


PATS = ["*", "*.jp2", "*.JP2", "a*", "img*", "*g1*", "img?*.jp2", "*.j*", "[ab]*", "[!a]*.jp2", ".*", "*b*",
        "zz*", "b*", "*p2"]


def argument(r, t, cwd, recurse):
    """(argument text, denoted files or None if ambiguous, kind, is missing)"""
    def rel(p):
        k = r.random()
        if k < 0.5:
            return p
        q = os.path.relpath(p, cwd)
        if q == ".":
            return q
        if k < 0.7 and not q.startswith(".."):
            return "./" + q
        if q.startswith("-"):
            return "./" + q
        return q

    k = r.random()
    if k < 0.3 and t.files:
        f = r.choice(t.files)
        a = rel(f)
        if recurse and "*" in a:
            return None
        return a, [f], "file", False
    if k < 0.42:
        base = rel(r.choice(t.dirs))
        a = os.path.join(base, g.pick(r, "missing.jp2", "no/such", "gone", "a.jp2x"))
        if "*" in a or os.path.lexists(os.path.join(cwd, a)):
            return None
        return a, [], "missing", True
    if k < 0.65:
        d = r.choice(t.dirs)
        a = rel(d)
        if "*" in a:
            return None
        if a != "." and r.random() < 0.2:
            a += "/"
        return a, t.under(d) if recurse else [], "dir-r" if recurse else "dir", False
    if k < 0.68 and t.special:
        s = r.choice(t.special)
        a = rel(s)
        if "*" in a:
            return None
        missing = not os.path.exists(s)
        return a, [], "dangling" if missing else "fifo", None
    if k < 0.74:
        # wildcard that denotes a single directory
        d = r.choice(t.dirs[1:] or t.dirs)
        base = rel(os.path.dirname(d))
        nm = os.path.basename(d)
        if d == t.root or META & set(base + nm) or nm.startswith((".", "-")):
            return None
        pat = g.pick(r, nm[:2] + "*", nm + "*", "*" + nm[-2:])
        sib = [os.path.basename(x) for x in t.dirs + t.files + t.special
               if os.path.dirname(x) == os.path.dirname(d)]
        if [x for x in sib if comp_match(x, pat)] != [nm]:
            return None
        a = os.path.join(base, pat)
        return a, t.under(d) if recurse else [], "wilddir-r" if recurse else "wilddir", False
    # wildcard in the last component, perhaps also in the one before
    d = r.choice(t.dirs)
    pat = r.choice(PATS)
    base = rel(d)
    if META & set(base):
        if base == d:
            return None
        return None
    if r.random() < 0.75 or d == t.root or base in (".", "..") or base.endswith(".."):
        dirs = [d]
        a = pat if base == "." and r.random() < 0.6 else os.path.join(base, pat)
        kind = "wild"
    else:
        par, nm = os.path.split(base)
        dp = g.pick(r, nm[:1] + "*", "*", "*" + nm[-1:])
        real = os.path.dirname(d)
        dirs = [x for x in t.dirs if os.path.dirname(x) == real and comp_match(os.path.basename(x), dp)]
        a = os.path.join(par, dp, pat)
        kind = "wild2"
    if a.startswith("-"):
        a = "./" + a
    if os.path.isfile(os.path.join(cwd, a)):
        return None
    direct = [f for f in t.files if os.path.dirname(f) in dirs and comp_match(os.path.basename(f), pat)]
    if not recurse:
        return a, direct, kind, False
    deep = []
    for x in dirs:
        for f in t.under(x):
            if comp_match(os.path.basename(f), pat):
                deep.append(f)
        for y in t.dirs:
            if y.startswith(x + "/") and comp_match(os.path.basename(y), pat):
                return None    # does the pattern denote that directory's files as well? left open
    return a, deep, kind + "-r", False


def vis(p):
    return names.xml_visible(os.path.abspath(p)).replace("\r\n", "\n").replace("\r", "\n")


class Flat(Tree):
    """Trees of given size, depth, or with links that lead back into the tree."""

    def __init__(self, r, root, kind, n):
        self.r, self.root = r, root
        self.files, self.dirs, self.special = [], [root], []
        if kind == "many":
            k = g.pick(r, 1, 1, 2, 7)
            for j in range(k - 1):
                self.sub(root, "d%d" % j)
            for j in range(n):
                self.file(r.choice(self.dirs), g.pick(r, "img%05d.jp2", "%d.jp2", "a%d") % j)
        elif kind == "deep":
            d = root
            for j in range(n):
                d = self.sub(d, g.pick(r, "d", "e%d" % j, "sub dir"))
                if j % 3 == 0 or j == n - 1:
                    self.file(d, "f%d.jp2" % j)
        else:
            self.fill(root, 2)
            for _ in range(r.randrange(1, 4)):
                d = r.choice(self.dirs)
                up = r.choice([x for x in self.dirs if (d + "/").startswith(x + "/")])
                p = os.path.join(d, "loop%d" % r.randrange(9))
                if not os.path.lexists(p):
                    os.symlink(up if r.random() < 0.5 else os.path.relpath(up, d), p)

    def sub(self, d, name):
        p = os.path.join(d, name)
        os.mkdir(p)
        self.dirs.append(p)
        return p

    def file(self, d, name):
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(b"x")
        self.files.append(p)


def bulk(item, ctx, r, root):
    kind, n, i = item
    t = Flat(r, root, kind, n)
    q = r.randrange(4) if kind == "many" else 0
    if q == 0 or not t.files:
        d = t.root if kind != "loop" or r.random() < 0.5 else r.choice(t.dirs)
        if "*" in d[len(t.root):]:
            d = t.root          # an asterisk is a wildcard, even if there is such a directory
        args, recurse = [(d, t.under(d), "dir-r", False)], True
    elif q == 1:
        fs = list(t.files)
        r.shuffle(fs)
        args, recurse = [(f, [f], "file", False) for f in fs], False
    else:
        recurse = q == 3
        pat = os.path.join(t.root, "*")
        if META & set(t.root):
            return
        den = t.files if recurse else [f for f in t.files if os.path.dirname(f) == t.root]
        if recurse and len(t.dirs) > 1:
            return
        args = [(pat, den, "wild", False)]
    ctx.n["bulk_" + kind] += 1
    ctx.note("bulk_sizes", (kind, len(t.files)))
    verify(item, ctx, args, recurse, t.root, t)


def via(item, ctx, r, root):
    """Paths that lead through links to directories, '..', '.' and doubled separators.

    Each file has a size of its own, by which it is recognised: what the reported path says
    about '..' after a link is not looked at."""
    dirs, size, links = [root], {}, []
    for j in range(r.randrange(2, 7)):
        d = os.path.join(r.choice(dirs), "d%d" % j)
        os.mkdir(d)
        dirs.append(d)
    for j, d in enumerate(dirs):
        for n in r.sample(["x.jp2", "y.jp2", "z", "w.jp2"], r.randrange(1, 4)):
            size[os.path.join(d, n)] = len(size) + 1
            with open(os.path.join(d, n), "wb") as f:
                f.write(b"x" * len(size))
    for j in range(r.randrange(1, 4)):
        p = os.path.join(r.choice(dirs), "l%d" % j)
        to = r.choice(dirs)
        os.symlink(g.pick(r, to, os.path.relpath(to, os.path.dirname(p))), p)
        links.append(p)
    cwd = r.choice(dirs)
    recurse = r.random() < 0.4
    args, want = [], []
    for _ in range(r.randrange(1, 5)):
        # a walk from the current directory, resolved the way the system does
        cur, parts = cwd, []
        for _ in range(r.randrange(1, 6)):
            here = [os.path.basename(x) for x in dirs[1:] + links if os.path.dirname(x) == cur]
            step = g.pick(r, *(here * 2 + [".."] * (cur != root) + ["."]))
            parts.append(step)
            cur = os.path.realpath(os.path.join(cur, step))
        sep = g.pick(r, "/", "/", "/", "//", "/./")
        a = sep.join(parts)
        if r.random() < 0.3:
            a = os.path.join(cwd, a)
        kind = g.pick(r, "file", "file", "file", "wild", "dir")
        if kind == "file":
            f = r.choice([x for x in size if os.path.dirname(x) == cur])
            args.append(a + sep + os.path.basename(f))
            want.append([size[f]])
        elif kind == "wild":
            if recurse:
                continue
            args.append(a + "/*.jp2")
            want.append([v for x, v in size.items() if os.path.dirname(x) == cur and x.endswith(".jp2")])
        else:
            args.append(a + g.pick(r, "", "/"))
            want.append([v for x, v in size.items() if (os.path.dirname(x) + "/").startswith(cur + "/")]
                        if recurse else [])
    if not args:
        return
    res = cli.forked(ctx, cli.options(recurse=recurse, nopretty=True) + args, cwd=cwd, wall=60)
    ctx.n["via_runs"] += 1
    ctx.sig(("via", recurse, tuple(len(w) for w in want)))
    label = "%r in %r (links %s)" % (args, cwd[len(root):], [(x[len(root):], os.readlink(x)) for x in links])
    if not sum(want, []):
        if res.rc != 249:
            ctx.violation("%s: exit code %d without any file" % (label, res.rc), None)
        return
    if res.rc:
        ctx.violation("%s: exit code %d: %r" % (label, res.rc, res.err[-300:]), None)
        return
    got = [int(e.findtext("{*}fileInfo/{*}fileSizeInBytes")) for e in cli.files(res.doc())]
    pos = 0
    for a, w in zip(args, want):
        if sorted(got[pos:pos + len(w)]) != sorted(w):
            ctx.violation("%s: files of sizes %s analysed for %r, %s denoted" % (
                label, got[pos:pos + len(w)], a, w), None, reported=got)
            return
        pos += len(w)
        ctx.n["via_arguments"] += 1
    if pos != len(got):
        ctx.violation("%s: %d files reported, %d denoted" % (label, len(got), pos), None)


def run(item, ctx):
    kind, _, i = item
    r = g.rng(ctx.seed, "c14", *([kind, i] if not item[1] else item))
    top = os.path.join(ctx.scratch, "t")
    shutil.rmtree(top, ignore_errors=True)
    root = os.path.join(top, g.pick(r, "root", "r[1]", "r o", "q?", "é"))
    os.makedirs(root)
    try:
        if kind in ("many", "deep", "loop"):
            bulk(item, ctx, r, root)
            return
        if kind == "via":
            os.rename(root, os.path.join(top, "v"))
            via(item, ctx, r, os.path.realpath(os.path.join(top, "v")))
            return
        t = Tree(r, root)
        for _ in range(2):
            one(item, ctx, r, t)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def one(item, ctx, r, t):
    cwd = r.choice(t.dirs)
    recurse = r.random() < 0.5
    args = []
    for _ in range(g.pick(r, 1, 1, 2, 3, 5)):
        a = argument(r, t, cwd, recurse)
        if a is not None:
            args.append(a)
    if r.random() < 0.12:
        nm = r.choice(EXPAND)
        p = os.path.join(cwd, nm)
        inside = r.random() < 0.4
        if not os.path.lexists(p) and "*" not in p:
            if inside:
                os.mkdir(p)
                t.dirs.append(p)
                p, nm = os.path.join(p, "a.jp2"), nm + "/a.jp2"
            with open(p, "wb") as f:
                f.write(b"x")
            t.files.append(p)
            # (what was denoted so far may have grown)
            args = [(g.pick(r, nm, nm, "./" + nm, p), [p], "file", False)]
            ctx.n["names_of_shell_syntax"] += 1
    if args and r.random() < 0.15:
        args.append(r.choice(args))
    if not args:
        return
    total = sum(len(a[1]) for a in args)
    if total > 400:
        return
    verify(item, ctx, args, recurse, cwd, t)


def verify(item, ctx, args, recurse, cwd, t):
    total = sum(len(a[1]) for a in args)
    ctx.n["runs"] += 1
    argv = cli.options(recurse=recurse, nopretty=True) + [a[0] for a in args]
    if any(a[0].startswith("-") for a in args):
        argv = cli.options(recurse=recurse, nopretty=True) + ["--"] + [a[0] for a in args]
    if item[0] == "real":
        res = cli.real(ctx, argv, cwd=cwd)
    else:
        res = cli.forked(ctx, argv, cwd=cwd, wall=60)
    info = dict(argv=argv, cwd=cwd, tree=t.files, expected=[a[1] for a in args])
    label = "%r in %r" % (argv, os.path.basename(cwd))
    for a, den, kind, missing in args:
        ctx.n["arg_" + kind] += 1
        ctx.note("arguments", (kind, min(len(den), 20)))
    ctx.sig((recurse, tuple((a[2], len(a[1])) for a in args[:20]), len(args)))
    # warnings about missing paths
    err = res.err.decode("utf-8", "replace")
    flat = " ".join(err.split())
    for a, den, kind, missing in args:
        w = flat.count(" ".join((a + " does not exist").split())) if a.isprintable() and a.isascii() else None
        if missing and w == 0:
            ctx.violation("%s: no warning about missing %r" % (label, a), None, **info)
            return
        if missing is False and w and not any(b[3] is not False for b in args):
            ctx.violation("%s: %r is said not to exist" % (label, a), None, **info)
            return
    if total == 0:
        ctx.n["runs_without_files"] += 1
        if res.rc != 249:
            ctx.violation("%s: exit code %d without any file (%s)" % (label, res.rc, err[-300:]), None, **info)
        elif b"<file" in res.out:
            ctx.violation("%s: files reported although none is denoted" % label, None, **info)
        return
    if res.rc != 0:
        ctx.violation("%s: exit code %d: %s" % (label, res.rc, err[-400:]), None, **info)
        return
    got = [x.replace("\r\n", "\n").replace("\r", "\n") for x in cli.paths(res.doc())]
    ctx.n["files_denoted"] += total
    pos = 0
    for a, den, kind, missing in args:
        part = got[pos:pos + len(den)]
        pos += len(den)
        w, gq = Counter(vis(f) for f in den), Counter(part)
        if w != gq:
            ctx.violation("%s: argument %r (%s) denotes %d files; missing %s, surplus %s" % (
                label, a, kind, len(den), [os.path.basename(x) for x in (w - gq)][:4],
                [os.path.basename(x) for x in (gq - w)][:4]), None, reported=got, **info)
            return
    if pos != len(got):
        ctx.violation("%s: %d files reported, %d denoted" % (label, len(got), pos), None,
                      reported=got, **info)
    if ctx.cases % 997 == 0:
        ctx.sample("%s -> %d files" % (label, len(got)))


def gaps(n, seen):
    return [k for k in ("arg_file", "arg_missing", "arg_dir", "arg_dir-r", "arg_wild", "arg_wild-r",
                        "arg_wild2", "arg_wild2-r", "runs_without_files", "arg_dangling", "arg_fifo", "arg_wilddir-r", "arg_wilddir",
                        "via_arguments")
            if n[k] < 20]
