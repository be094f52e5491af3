#!/opt/veriftools/pyvenv/bin/python
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import engine  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    parser.add_argument("--replay")
    parser.add_argument("--worker")
    parser.add_argument("--out")
    args = parser.parse_args()
    prop = args.property.upper()
    if args.replay:
        return engine.replay(prop, args.replay)
    if args.worker:
        shard, shards = map(int, args.worker.split("/"))
        engine.worker(prop, args.tier, args.seed, shard, shards, args.out)
        return 0
    return engine.check(prop, args.tier, args.seed)


if __name__ == "__main__":
    sys.exit(main())
