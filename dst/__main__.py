import json
import os
import sys

from . import core


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a[0] == 'check':
        for x in a[2:]:
            if x.startswith('--tier='):
                tier = x[7:]
            if x.startswith('--seed='):
                base = int(x[7:])
        return core.check_main(a[1], tier, base)
    if a[0] == 'worker':
        core.worker(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7]), int(a[8]))
        return 0
    if a[0] == 'replay':
        return core.replay_main(a[1])
    if a[0] == 'digest':
        rec = json.load(open(a[1]))
        print(core.execute(core.load(rec['property']), rec['plan'])[1].dig.hexdigest())
        return 0
    if a[0] == 'one':  # one CID SEEDINDEX: run a single seed verbosely
        c = core.load(a[1])
        plan = c.gen(core.seed_rng(a[1], base, int(a[2])), int(a[2]), tier)
        v, run = core.execute(c, plan)
        print(v, run.n, run.sim, len(run.cover), getattr(run, 'tb', ''))
        return 0
    print(__doc__ or 'usage: check|replay|one', file=sys.stderr)
    return 2


sys.exit(main())
