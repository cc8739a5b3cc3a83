#!/usr/bin/env python3
"""Do the generators of scenarios work for every seed: tools/smoke.py FROM TO [TIER] [PROP...]   (maintenance tool, no check uses it)"""
import collections, importlib, os, random, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/lib']

# the table of check.py
src = open(V + '/check.py').read()
check = {'__file__': V + '/check.py'}
exec(src[:src.index('def main')], check)


class Stop(Exception):
    pass


class Fake:
    def __init__(self, prop, tier, seed, nth):
        self.prop, self.tier, self.quick, self.seed = prop, tier, tier == 'quick', seed
        self.rnd = random.Random('%s/%s' % (prop, seed))
        self.work, self.n, self.nth = '/tmp/smoke', 0, nth
        os.makedirs(self.work, exist_ok=True)

    def execute(self, scs, *a, **k):
        self.n += 1
        self.count = len(scs)
        raise Stop

    def __getattr__(self, name):
        return lambda *a, **k: None


lo, hi = int(sys.argv[1]), int(sys.argv[2])
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
for prop in sys.argv[4:] or sorted(check['FAMILY']):
    bad = 0
    for seed in range(lo, hi):
        c = Fake(prop, tier, seed, 1)
        try:
            importlib.import_module(check['FAMILY'][prop]).check(c)
            print(prop, seed, 'no scenarios')
        except Stop:
            pass
        except Exception:
            bad += 1
            print(prop, seed, traceback.format_exc().splitlines()[-3:])
    print(prop, hi - lo, 'seeds', bad, 'bad', flush=True)
