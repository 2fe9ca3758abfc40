#!/usr/bin/env python3
"""checks/run.py <property id> [quick|thorough]"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import check  # noqa: E402

REG = {}
for line in open(os.path.join(HERE, "registry.txt")):
    line = line.split("#")[0].split()
    if len(line) == 2:
        mod, _, fn = line[1].partition(":")
        REG[line[0]] = (mod, fn)


def lazy(mod, fn):
    return lambda: getattr(importlib.import_module(mod), fn)()


if __name__ == "__main__":
    check.main({k: lazy(*v) for k, v in REG.items()})
