"""C12: command line output is well-formed, faithful, schema-conformant."""
import os
import re
import shutil
import xml.etree.ElementTree as ET

import clirun as cli
import diff
import engine
import extremes
import jpgen as g
import names
import work

PROPERTY = "C12"
NS = cli.NS
XSI = "{http://www.w3.org/2001/XMLSchema-instance}"
MIXNS = {1: "{http://www.loc.gov/mix/v10}", 2: "{http://www.loc.gov/mix/v20}"}
_schema = {}


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [["run", work.FMTS[i % 4], i] for i in range(2400 * k)]
    out += [["xsd", work.FMTS[i % 4], i] for i in range(1500 * k)]
    out += [["real", work.FMTS[i % 4], i] for i in range(48 * k)]
    out += [["many", work.FMTS[i % 4], n] for i in range(1 if tier == "quick" else 4)
            for n in (17, 33, 65, 100, 101, 129, 200, 256, 257, 300, 513)]
    for fmt in work.FMTS:
        out += [["one"] + x for x in work.sweep_fields(seed, fmt, tier, None, 0.0, 0.007)]
    out += [["big"] + x for x in extremes.items("cs tp box siz icc meta unknown packet")
            if x[2] != "pal255x1024"]
    out += [["big"] + x for x in extremes.sized("cs tp box siz icc meta unknown packet", tier="quick", seed=seed,
                                                frac=0.15 if tier == "quick" else 1.0)]
    return work.shuffled(out, seed)


def norm(s):
    return (s or "").replace("\r\n", "\n").replace("\r", "\n")


def expected(e, mix):
    """Analysis result -> comparable tree as an XML reader has to see it."""
    def tag(t):
        if t.startswith("{"):
            return t
        if t.startswith("mix:"):
            return MIXNS[mix] + t[4:]
        return NS + t

    def attr(k):
        return XSI + k[4:] if k.startswith("xsi:") else k

    at = {attr(k): norm(v) for k, v in e.attrib.items() if not k.startswith("xmlns")}
    return (tag(e.tag), tuple(sorted(at.items())), norm(e.text),
            tuple(expected(c, mix) + (norm(c.tail),) for c in e))


def actual(e):
    return (e.tag, tuple(sorted(e.attrib.items())), norm(e.text),
            tuple(actual(c) + (norm(c.tail),) for c in e))


WS = re.compile(r"[ \t\n]+")


def loose(t):
    """Up to white space in attributes and next to child elements."""
    tag, at, text, kids = t[:4]
    at = tuple((k, WS.sub(" ", v)) for k, v in at)
    if kids:
        text = WS.sub(" ", text).strip(" ")
    return (tag, at, text, tuple(loose(c) + (WS.sub(" ", c[4]).strip(" "),) for c in kids))


def first_diff(a, b, path=""):
    if a[0] != b[0]:
        return "%s: element %s instead of %s" % (path, b[0], a[0])
    p = path + "/" + a[0].split("}")[-1]
    if a[1] != b[1]:
        return "%s: attributes %r instead of %r" % (p, b[1], a[1])
    if a[2] != b[2]:
        return "%s: text %r instead of %r" % (p, b[2][:200], a[2][:200])
    if len(a[3]) != len(b[3]):
        return "%s: children %s instead of %s" % (p, [c[0] for c in b[3]][:20], [c[0] for c in a[3]][:20])
    for x, y in zip(a[3], b[3]):
        d = first_diff(x, y, p)
        if d:
            return d
        if x[4] != y[4]:
            return "%s: tail %r instead of %r" % (p, y[4][:200], x[4][:200])
    return None


def schema(name):
    if name not in _schema:
        from lxml import etree
        _schema[name] = etree.XMLSchema(etree.parse(os.path.join(engine.REPO, "xsd", name)))
    return _schema[name]


def content(r, fmt, ctx):
    """(bytes, what)"""
    k = r.random()
    if k < 0.08:
        return b""
    i = r.randrange(10 ** 9)
    what = "mut" if k < 0.4 else "conf" if k < 0.65 else "host" if k < 0.9 else "cross"
    return work.make([what, fmt, i], ctx.seed)[1]


def run(item, ctx):
    ctx.n["items_" + item[0]] += 1
    kind = item[0]
    if kind in ("one", "big"):
        _, data, fmt = work.make(item[1:], ctx.seed)
        r = g.rng(ctx.seed, "c12", item)
        datas = [data]
    else:
        _, fmt, i = item
        r = g.rng(ctx.seed, "c12", kind, fmt, i)
        if kind == "many":
            datas = [content(r, fmt, ctx) for _ in range(i)]
        elif kind == "xsd":
            datas = [work.make(["conf", fmt, r.randrange(10 ** 9)], ctx.seed)[1]
                     for _ in range(r.randrange(1, 3))]
        else:
            datas = [content(r, fmt, ctx) for _ in range(g.pick(r, 1, 1, 2, 3, 5))]
    d = os.path.join(ctx.scratch, "d")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    ps = []
    for data in datas:
        while True:
            n = names.name(r) if kind != "xsd" or r.random() < 0.3 else "i%d.jp2" % r.randrange(999)
            sub = d if r.random() < 0.8 else os.path.join(d, names.name(r, 100))
            p = os.path.join(sub, n)
            if (sub == d or os.path.isdir(sub) or not os.path.exists(sub)) and not os.path.exists(p):
                break
        os.makedirs(sub, exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        ps.append(p)
    if r.random() < 0.2:
        ps.append(r.choice(ps))
    o = dict(verbose=r.random() < 0.5, pm=r.random() < 0.5, nullxml=r.random() < 0.4,
             mix=g.pick(r, 0, 0, 1, 2))
    nopretty = r.random() < 0.4
    files = {"image%d" % j: x for j, x in enumerate(datas)}
    emix = o["mix"] if fmt in work.CONT else 0
    try:
        reps = [ctx.analyse_path(p, fmt, o["verbose"], o["pm"], o["nullxml"], emix) for p in ps]
        if any(isinstance(x, engine.Raised) for x in reps):
            ctx.violation("analysis raises: %s" % [x for x in reps if isinstance(x, engine.Raised)][0],
                          files, paths=ps)
            return
        for x in reps:
            diff.observe(ctx, x, fmt)
        exp = [expected(x, emix) for x in reps]
        valid = all(x.find("isValid").text == "True" for x in reps)
        f = fmt if r.random() < 0.9 else fmt.upper()
        one(ctx, r, kind, ps, f, o, nopretty, exp, valid, files)
        if r.random() < 0.4:
            one(ctx, r, kind, ps, f, o, not nopretty, exp, valid, files)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(ctx, r, kind, ps, fmt, o, nopretty, exp, valid, files):
    args = cli.options(nopretty=nopretty, fmt=fmt if fmt != "jp2" or r.random() < 0.5 else None, **o)
    args = args + ps if r.random() < 0.7 else ps[:1] + args + ps[1:] if len(ps) == 1 else args + ps
    info = dict(args=args)
    if kind == "real":
        env = g.pick(r, {}, {"LC_ALL": "C"}, {"PYTHONIOENCODING": "ascii"}, {"LC_ALL": "C.UTF-8"},
                     {"PYTHONIOENCODING": "latin-1"})
        res = cli.real(ctx, args, env=env)
        info["env"] = env
    else:
        res = cli.forked(ctx, args)
    ctx.n["nopretty" if nopretty else "pretty"] += 1
    if res.rc != 0:
        ctx.violation("exit code %d for %r: %s" % (res.rc, args, res.err[-400:]), files, **info)
        return
    try:
        res.out.decode("utf-8")
        doc = res.doc()
    except (UnicodeDecodeError, ET.ParseError) as e:
        ctx.violation("output for %r is not a well-formed UTF-8 document: %s" % (args, e),
                      dict(files, stdout=res.out), **info)
        return
    if not res.out.startswith(b"<?xml version='1.0' encoding='UTF-8'?>"):
        ctx.violation("no XML declaration: %r" % res.out[:80], files, **info)
    tags = [c.tag for c in doc]
    if doc.tag != NS + "jpylyzer" or tags != [NS + "toolInfo"] + [NS + "file"] * len(ps):
        ctx.violation("document consists of %s %s for %d files" % (doc.tag, tags, len(ps)), files, **info)
        return
    ti = [(c.tag, bool(c.text)) for c in doc[0]]
    if ti != [(NS + "toolName", True), (NS + "toolVersion", True)]:
        ctx.violation("toolInfo is %s" % ti, files, **info)
    ctx.n["documents"] += 1
    ctx.n["file_elements"] += len(ps)
    for p, e, x in zip(ps, exp, doc[1:]):
        a = actual(x)
        if nopretty:
            dd = first_diff(e, a[:4])
        else:
            dd = first_diff(loose(e), loose(a))
        if dd:
            ctx.violation("file element for %r (%s) differs from the analysis result: %s" % (
                os.path.basename(p), "nopretty" if nopretty else "pretty", dd),
                dict(files, stdout=res.out), **info)
            return
        # path and name, not via the code under test
        for t, v in (("fileName", os.path.basename(p)), ("filePath", p)):
            got = x.findtext(NS + "fileInfo/" + NS + t)
            if got != norm(names.xml_visible(v)):
                ctx.violation("%s is %r for %r" % (t, got, v), files, **info)
                return
    if valid:
        from lxml import etree
        loc = (doc.get(XSI + "schemaLocation") or "").split()
        if len(loc) != 2 or loc[0] != NS[1:-1]:
            ctx.violation("schemaLocation is %r" % loc, files, **info)
            return
        sch = os.path.basename(loc[1])
        if not os.path.exists(os.path.join(engine.REPO, "xsd", sch)):
            ctx.violation("schema %r is not a published one" % sch, files, **info)
            return
        try:
            lx = etree.fromstring(res.out, etree.XMLParser(huge_tree=True, resolve_entities=False))
        except etree.XMLSyntaxError:
            # libxml2 refuses namespace names that are not URIs; no fault of the document
            ctx.n["not_schema_checked"] += 1
            return
        s = schema(sch)
        ctx.n["schema_validations"] += 1
        if not s.validate(lx):
            ctx.violation("output for a valid image breaks the schema: %s" % str(s.error_log.last_error)[:400],
                          dict(files, stdout=res.out), **info)
    if ctx.cases % 997 < 3:
        ctx.sample("%d files, options %s: %d bytes of output as expected" % (
            len(ps), args[:-len(ps)], len(res.out)))


def gaps(n, seen):
    return [k for k in ("pretty", "nopretty", "schema_validations") if n[k] < 500]
