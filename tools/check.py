#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (tier and seed from the environment)."""
import importlib, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "tools"), os.path.join(VERIF, "checks")]
import common  # noqa: E402

MODULES = ["utf", "seg", "width", "scan", "norm", "case", "emoji", "script", "runs", "ucdcheck", "capi",
           "names", "multistage", "tools_check", "cursor", "alt", "bounded"]


def find(pid):
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m:
                continue
            raise
        if pid in mod.CHECKS:
            return mod.CHECKS[pid]
    return None


if __name__ == "__main__":
    pid = sys.argv[1]
    entry = find(pid)
    if not entry:
        print("no check for", pid)
        sys.exit(2)
    level, fn = entry
    sys.exit(common.main(pid, level, fn))
