#!/usr/bin/env python3-vt
"""check.py <property>: decides one property for /repo's working tree."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/vf")
sys.setrecursionlimit(100000)

import build
import conform
import plan


class Known:
    """Known findings: 'finding: property=<id> key=<key> <what fails>' and 'fixed: ...' lines."""

    def __init__(self):
        self.items = []
        with open(HERE + "/known-findings.txt") as f:
            for l in f:
                if l.startswith("finding: "):
                    w = l.split()
                    self.items.append((w[1].split("=", 1)[1], w[2].split("=", 1)[1], " ".join(w[3:])))

    def get(self, prop):
        return [(k, t) for p, k, t in self.items if p == prop]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    b = build.Build()
    try:
        run = plan.Run(prop, tier, seed, b, Known().get(prop))
        run.go()
    finally:
        b.clean()
    ev = run.evidence()
    ev["wall_s"] = round(time.time() - t0, 2)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for line in run.known_lines:
        print(line)
    for o in run.summary():
        print(o)
    if run.violations:
        v = run.violations[0]
        path = "%s/evidence/replay/%s.txt" % (HERE, prop)
        with open(path, "w") as f:
            f.write(run.replay_text())
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v["input"] else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


main()
