#!/usr/bin/env python3
"""Builds the framework (pass plugin, runtime) and warms the cache for the current /repo tree."""
import check
import sys


def main():
    try:
        plugin, rt = check.build_plugin(), check.build_rt()
    except check.NoAnswer as e:
        print(e)
        return 1
    try:
        for cfg in ("real", "complex"):
            check.build_archive(cfg, False, plugin)
        for s in check.SUITES:
            check.build_suite(s, False, plugin, rt)
    except check.NoAnswer as e:
        print("warning (the checks rebuild themselves): %s" % e)
    return 0


if __name__ == "__main__":
    sys.exit(main())
