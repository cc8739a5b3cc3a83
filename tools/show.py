#!/usr/bin/env python3
"""prints replay files readably: show.py C17 [n]"""
import json, sys, glob
p, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 5


def txt(x):
    if isinstance(x, list) and x and all(isinstance(c, int) for c in x) and all(9 <= c for c in x):
        try:
            return ''.join(chr(c) if c < 0x110000 else '\\x%02x' % (c - 2000000) for c in x)
        except ValueError:
            return x
    if isinstance(x, list):
        return [txt(y) for y in x]
    if isinstance(x, dict):
        return {k: txt(v) for k, v in x.items()}
    return x


fs = sorted(glob.glob('/verif/work/%s/replay/*' % p))
step = max(1, len(fs) // n)
for f in fs[::step]:
    r = json.load(open(f))
    at = r['rejected_at']
    print(f, 'at', at)
    print('   sc', str(txt(r['record']['sc']))[:700])
    for k, e in enumerate(r['record']['ev'][max(0, at - 2):at], max(1, at - 1)):
        print('   %d' % k, str(txt(e))[:500])
