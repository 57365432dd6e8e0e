"""python3 -m sa.run C01 [quick|thorough]"""
import os
import sys

from . import checks, checks_io, checks_derived, checks_spa, checks_misc, checks_range, checks_cli, checks_jpl, checks_empty, checks_missing, checks_shared, checks_state, checks_cost, checks_api    # noqa: F401
from .framework import main


def cli(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return main(prop, checks.CHECKS[prop], tier, seed)


if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    sys.exit(cli(sys.argv))
