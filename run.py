"""
usage:
  run.py check PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  run.py replay FILE
  run.py determinism PROPERTY [--runs N]
  run.py setup
"""

import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "determinism", "setup"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))
    )
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    if a.cmd == "setup":
        runner.build()
        runner.build_shim()
        return 0
    if a.cmd == "replay":
        return runner.replay(a.arg)
    if a.cmd == "determinism":
        return runner.determinism(a.arg, a.tier, a.seed, a.runs or 100)
    return runner.check(a.arg, a.tier, a.seed, a.workers, a.runs)


if __name__ == "__main__":
    sys.exit(main())
