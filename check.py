#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--only LABEL]"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harness import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--worker", nargs=3)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.worker:
        import importlib
        sys.path.insert(1, core.REPO)
        try:
            mod = importlib.import_module("harness.props." + a.prop.lower())
            core.worker(mod, a.prop, a.tier, a.seed, a.worker[2], int(a.worker[0]),
                        int(a.worker[1]), json.loads(a.only) if a.only else None)
        except core.MachineryError as e:
            print(e)
            sys.stdout.flush()
            os._exit(3)
        return 0
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        only, a.tier, a.seed = [r["case"]], r["tier"], r["seed"]
    elif a.only:
        only = [a.only]
    return core.run_check(a.prop, a.tier, a.seed, only, a.keep)


if __name__ == "__main__":
    sys.exit(main())
