"""python -m mc.run C01"""
import importlib, os, sys
from mc import core


def entry(pid):
    m = importlib.import_module("mc.checks." + pid.lower())
    core.main(m.run, pid, getattr(m, "LEVEL", "model_checking"), getattr(m, "SHARDS", 1))


if __name__ == "__main__":
    entry(sys.argv[1])
