#!/usr/bin/env python3
"""check.py <property>: decide one property on the current /repo sources."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.report import Report  # noqa: E402
from sa.project import ExtractError  # noqa: E402


def main():
    pid = sys.argv[1]
    R = Report(pid, os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick")
    mod = importlib.import_module("rules." + pid.lower())
    try:
        mod.check(R)
    except ExtractError as e:
        print("sources cannot be analysed:", e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return R.finish()


if __name__ == "__main__":
    sys.exit(main())
