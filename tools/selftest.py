#!/usr/bin/env python
"""setup_cmd: nothing is built; checks that the machinery and the tree load and that
one simulated run is exactly repeatable."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import loader, props, runner  # noqa
from sim.tape import Tape  # noqa


def main():
    loader.load()
    scn = props.scenario("C01", "quick")
    scn.prepare()
    a = runner.run_once(scn, Tape(7))
    b = runner.run_once(scn, Tape(record=a.record))
    assert a.log == b.log, "not repeatable"
    print("ok: %d choices, %d events" % (len(a.record), len(a.log)))


if __name__ == "__main__":
    try:
        main()
    except Exception as e:  # a broken tree is for the checks to report
        print("selftest: %s: %s" % (type(e).__name__, e))
