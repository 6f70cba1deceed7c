"""C01: the verdict is the conjunction of all tests; non-verbose = failed ones."""
import bulk
import diff
import extremes
import jpgen as g
import work

PROPERTY = "C01"


def items(tier, seed):
    k = 1 if tier == "quick" else 12
    out = work.stream("mut", 7000 * k) + work.stream("host", 3000 * k)
    out += work.stream("conf", 1500 * k) + work.stream("cross", 1500 * k)
    for fmt in work.FMTS:
        out += work.sweep_fields(seed, fmt, tier, None, 0.01, 0.08)
        out += work.sweep_struct(seed, fmt)[::1 if tier != "quick" else 2]
        out += work.sweep_tileparts(fmt)[::1 if tier != "quick" else 4]
    out += extremes.items("cs tp box siz")
    out += extremes.sized("cs tp box siz", tier=tier, seed=seed)
    out += bulk.items(tier, seed, lambda w, k: True)
    return work.shuffled(out, seed)


def flat(elem, path=()):
    """Ordered list of (path with sibling positions counted per element, text)."""
    out = []
    for e in elem:
        if len(e):
            out.append((path + (e.tag,), None))
            out += flat(e, path + (e.tag,))
        else:
            out.append((path + (e.tag,), e.text))
    return out


def pruned(elem):
    """Verbose tree without the passed tests (and without emptied parents), as
    nested tuples."""
    out = []
    for e in elem:
        if len(e):
            sub = pruned(e)
            if sub:
                out.append((e.tag, sub))
        elif e.text != "True":
            out.append((e.tag, e.text))
    return tuple(out)


def plain(elem):
    return tuple((e.tag, plain(e)) if len(e) else (e.tag, e.text) for e in elem)


def run(item, ctx):
    im, data, fmt = work.make(item, ctx.seed)
    r = g.rng(ctx.seed, "opt", item)
    pm, nx, mix = r.random() < 0.5, r.random() < 0.3, g.pick(r, 0, 0, 1, 2)
    files = {"image." + fmt: data}
    v = ctx.analyse(data, fmt, True, pm, nx, mix)
    q = ctx.analyse(data, fmt, False, pm, nx, mix)
    ctx.n["items_" + item[0]] += 1
    for name, rep in (("verbose", v), ("non-verbose", q)):
        err = diff.shape_errors(rep, fmt, mix)
        if err:
            ctx.violation("%s report: %s" % (name, err[0]), files)
            return
    lv = diff.observe(ctx, v, fmt)
    ok = diff.success(v)
    bad = [(p, t) for p, t in lv if t not in ("True", "False")]
    if bad:
        ctx.violation("test without outcome: %s" % (bad[:3],), files)
        return
    allpass = all(t == "True" for p, t in lv)
    verdict = v.find("isValid").text
    ctx.n["verdict_" + verdict] += 1
    ctx.n["leaf_tests"] += len(lv)
    if verdict != str(allpass and ok):
        ctx.violation("%s: verdict %s although %d of %d tests failed (success %s)" % (
            fmt, verdict, sum(t != "True" for p, t in lv), len(lv), ok), files)
    if q.find("isValid").text != verdict:
        ctx.violation("%s: verdict %s in verbose, %s in non-verbose output" % (
            fmt, verdict, q.find("isValid").text), files)
    want, got = pruned(v.find("tests")), plain(q.find("tests"))
    if want != got:
        ctx.violation("%s: non-verbose tests are not the failed ones of the verbose output: "
                      "%s instead of %s" % (fmt, str(got)[:400], str(want)[:400]), files)
    # was any test that has to be carried out left out, or its outcome altered?
    if ok:
        ds = diff.discrepancies(data, fmt, v, pm, nx)
        rel = [d for d in ds if d[0].startswith(("tests", "verdict"))]
        ctx.n["model_comparisons"] += 1
        if rel:
            ctx.violation("%s [%s]: %s: expected %s, reported %s" % (
                fmt, ", ".join(im.notes), rel[0][0], str(rel[0][1])[:300], str(rel[0][2])[:300]),
                files)
    if ctx.cases % 997 < 2:
        ctx.sample("%s %s: %d tests, %d failed, verdict %s" % (
            item, fmt, len(lv), sum(t != "True" for p, t in lv), verdict))


def gaps(n, seen):
    out = []
    if len(seen.get("tests_false", ())) < 120:
        out.append("failed tests")
    if not n["verdict_True"] or not n["verdict_False"]:
        out.append("both verdicts")
    return out
