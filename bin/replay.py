#!/usr/bin/env python3
"""replay.py <replay file>: builds the harness without instrumentation from /repo and replays the recorded values.
Exit 1 and the failing assertion if the violation reproduces, 0 if it does not."""
import json, os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sxlib import *
sys.path.insert(0, HAR)
import registry


def main():
    f = os.path.abspath(sys.argv[1])
    with open(f) as fh:
        body = fh.read()
    pid = re.search(r'^# property (\w+)', body, re.M).group(1)
    hn = re.search(r'^harness (\S+)', body, re.M).group(1)
    params = json.loads(re.search(r'^# params (.*)$', body, re.M).group(1))
    h = [x for x in registry.PROPS[pid]['harnesses'] if x['name'] == hn][0]
    wd = tempfile.mkdtemp(prefix='sxreplay')
    try:
        sx, nat = build_harness(h, tools(), wd)
        rc, out = native(nat, f, {'SXP_' + k: str(v) for k, v in params.items()})
        print(out)
        return 1 if rc == 1 else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
