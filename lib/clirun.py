"""Runs the command line application and reads its output back."""

import os
import resource
import signal
import subprocess
import sys
import traceback
import xml.etree.ElementTree as ET

import engine

NS = "{http://openpreservation.org/ns/jpylyzer/v2/}"


class Run:
    def __init__(self, rc, out, err):
        self.rc = rc
        self.out = out      # bytes
        self.err = err

    def doc(self):
        return ET.fromstring(self.out)

    def __repr__(self):
        return "rc=%s stdout=%r stderr=%r" % (self.rc, self.out[-300:], self.err[-300:])


def forked(ctx, args, cwd=None, before=None, wall=300):
    """jpylyzer.main() in a forked child of this (already loaded) interpreter."""
    so = os.path.join(ctx.scratch, ".stdout")
    se = os.path.join(ctx.scratch, ".stderr")
    ctx.cases += 1
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(wall)
            for path, fd in ((so, 1), (se, 2)):
                f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(f, fd)
                os.close(f)
            sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
            sys.stderr = open(2, "w", encoding="utf-8", errors="backslashreplace", closefd=False)
            if cwd:
                os.chdir(cwd)
            if before:
                before()
            from jpylyzer import jpylyzer
            sys.argv = ["jpylyzer"] + list(args)
            try:
                jpylyzer.main()
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 255)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    with open(so, "rb") as f:
        out = f.read()
    with open(se, "rb") as f:
        err = f.read()
    os.unlink(so)
    os.unlink(se)
    return Run(rc, out, err)


def real(ctx, args, cwd=None, env=None):
    """A new interpreter: python -m jpylyzer."""
    ctx.cases += 1
    e = dict(os.environ, PYTHONPATH=engine.REPO, PYTHONDONTWRITEBYTECODE="1",
             PYTHONWARNINGS="ignore")
    e.update(env or {})
    p = subprocess.run([sys.executable, "-B", "-m", "jpylyzer"] + list(args), cwd=cwd, env=e,
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
    return Run(p.returncode, p.stdout, p.stderr)


def options(verbose=False, pm=False, nullxml=False, mix=0, nopretty=False, fmt=None, recurse=False):
    out = []
    if fmt:
        out += ["--format", fmt]
    if mix:
        out += ["--mix", str(mix)]
    if nopretty:
        out.append("--nopretty")
    if nullxml:
        out.append("--nullxml")
    if recurse:
        out.append("--recurse")
    if pm:
        out.append("--packetmarkers")
    if verbose:
        out.append("--verbose")
    return out


def files(doc):
    return doc.findall(NS + "file")


def paths(doc):
    return [e.findtext(NS + "fileInfo/" + NS + "filePath") for e in files(doc)]
