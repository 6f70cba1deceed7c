"""Fresh interpreter that analyses the files listed on stdin (JSON) and writes the reports
(pickled nested tuples) to stdout.  argv: repository, 'mmap', 'plain' or 'each'
(a process of its own for each)."""
import json
import os
import pickle
import sys

sys.dont_write_bytecode = True
repo, mode = sys.argv[1:3]
sys.path.insert(0, repo)
out = os.fdopen(os.dup(1), "wb")
null = os.open(os.devnull, os.O_RDWR)
os.dup2(null, 1)
os.dup2(null, 2)
sys.stderr = open(2, "w", errors="replace")
if mode == "plain":
    sys.modules["mmap"] = None
import warnings  # noqa: E402
warnings.simplefilter("ignore")
from jpylyzer.jpylyzer import checkOneFile  # noqa: E402


def tree(e):
    return (e.tag, tuple(sorted(e.attrib.items())), e.text, e.tail, tuple(tree(c) for c in e))


def one(path, fmt, opts):
    try:
        return tree(checkOneFile(path, fmt, *opts))
    except Exception as ex:
        return ("raised", repr(ex))


def apart(job):
    """In a process that has not analysed anything."""
    r, w = os.pipe()
    if os.fork() == 0:
        os.close(r)
        with os.fdopen(w, "wb") as f:
            pickle.dump(one(*job), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        t = pickle.load(f)
    os.wait()
    return t


res = [(apart(job) if mode == "each" else one(*job)) for job in json.load(sys.stdin)]
pickle.dump(res, out)
