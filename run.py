#!/usr/bin/env python
"""Entry point of every check.

run.py <property> [--runs N] [--workers N] [--seed N] [--tier quick|thorough]
run.py --replay <file>
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PYPY = os.environ.get("SIM_PYTHON", "/opt/pypyvenv/bin/python")
if sys.implementation.name != "pypy" and os.path.exists(PYPY):
    os.execv(PYPY, [PYPY, os.path.abspath(__file__)] + sys.argv[1:])

from sim import runner  # noqa


def main(argv):
    if argv[0] == "--worker":
        runner.worker(argv[1], argv[2], argv[3], int(argv[4]), int(argv[5]),
                      int(argv[6]), argv[7], float(argv[8]))
        return 0
    if argv[0] == "--replay":
        return runner.replay_file(argv[1])
    if argv[0] == "--shrink":
        runner.shrink_file(argv[1], argv[2], float(argv[3]))
        return 0
    opts = {"--runs": None, "--workers": None, "--seed": None, "--tier": None}
    prop = argv[0]
    rest = argv[1:]
    while rest:
        opts[rest[0]] = rest[1]
        rest = rest[2:]
    tier = opts["--tier"] or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = opts["--seed"] or os.environ.get("VERIF_SEED", "1")
    try:
        seed = int(seed)
    except ValueError:
        from sim.core import stable_hash
        seed = stable_hash(seed) & 0x7FFFFFFF
    return runner.check(
        prop, tier, seed,
        workers=int(opts["--workers"]) if opts["--workers"] else None,
        runs=int(opts["--runs"]) if opts["--runs"] else None)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
