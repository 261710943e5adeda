#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | --replay FILE | --setup"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B, checks, core


def main():
    a = sys.argv[1:]

    def opt(name, d):
        return a[a.index(name) + 1] if name in a else d
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    if "--setup" in a:
        return checks.setup()
    if "--replay" in a:
        return checks.replay(opt("--replay", ""))
    return checks.run(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
