#!/usr/bin/env python3
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        core.TIER = sys.argv[2]
    try:
        from vlib import registry
        return registry.CHECKS[prop]()
    except core.ModelError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
