#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import env

env.setup()
from vlib import core


def main(argv):
    if argv and argv[0] == "--worker":
        _, mod, tier, shard, shards, seed, budget, out = argv
        sys.setrecursionlimit(3000)
        core.worker_main(mod, tier, int(shard), int(shards), int(seed), float(budget), out)
        return 0
    if argv == ["--reference"]:
        from vlib import refparser

        sys.setrecursionlimit(3000)
        refparser.serve()
        return 0
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--shards", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        import importlib

        return core.replay(importlib.import_module(f"checks.{a.id.lower()}"), a.replay)
    return core.main(a.id, a.tier, a.seed, a.shards, a.budget)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
