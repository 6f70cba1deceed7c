#!/usr/bin/env python3
"""check.py PROPERTY [--replay case.json] -- decide one property by monitoring runs."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") \
        and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.pop("VERIF_REEXEC", None)
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "lib", "props")]
import engine  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(prop.lower())
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        case = json.load(open(sys.argv[3]))
        tier, seed, only = case["tier"], case["seed"], case["item"]
    sys.exit(engine.run_check(mod, tier, seed, only))


main()
