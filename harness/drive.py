"""drive.py <module> <function> <shard> <nshards> <seed> <tier> <trace> [<generated cases>]"""
import importlib
import json
import os
import sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.getcwd()]   # the harness, the library of the working tree
import vh  # noqa: E402


def main():
    mod, fun, shard, nsh, seed, tier, path = sys.argv[1:8]
    rec = vh.Rec(path, int(seed), int(shard), int(nsh), tier)
    if len(sys.argv) > 8:
        with open(sys.argv[8]) as f:
            rec.cases = [json.loads(ln) for ln in f if ln.strip()]
    try:
        getattr(importlib.import_module(mod), fun)(rec)
    finally:
        rec.close()


main()
