#!/usr/bin/env python3
"""check.py <property> — decides one property.  VERIF_TIER=quick|thorough, VERIF_SEED=<n>."""
import os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, checks_front, checks_doc, checks_rest

CHECKS = {}
for m in (checks_front, checks_doc, checks_rest):
    for k in dir(m):
        if len(k) == 3 and k[0] == "c" and k[1:].isdigit():
            CHECKS[k.upper()] = getattr(m, k)


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py " + "|".join(sorted(CHECKS)), file=sys.stderr)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    return core.run(sys.argv[1], tier, CHECKS[sys.argv[1]])


if __name__ == "__main__":
    sys.exit(main())
