import os
import sys

from . import core


def main():
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if mode == 'replay':
        return core.replay(pid, sys.argv[3])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or None
    return core.run_check(pid, mode, seed, jobs)


sys.exit(main())
