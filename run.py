#!/usr/bin/env python3
"""Usage: run.py <property id>.  See DESIGN.md."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from xa import runner, s_handles, s_counts, s_create, s_unique, s_std, s_types  # noqa
from xa.plan import plan  # noqa


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    with open(os.path.join(runner.HERE, "known-findings.json")) as f:
        known = json.load(f)["known"]
    sys.exit(runner.run_property(prop, tier, plan(prop, tier), known))


if __name__ == "__main__":
    main()
