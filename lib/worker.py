"""Shard worker: runs the monitors of one check module and records what they observed."""
import faulthandler
import importlib
import json
import os
import sys
import time
from pathlib import Path

faulthandler.enable()


def main():
    cfgp = Path(sys.argv[1])
    cfg = json.loads(cfgp.read_text())
    import vf

    return vf.run_shard(cfg, cfgp.parent)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
