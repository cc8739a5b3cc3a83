#!/usr/bin/env python3
"""Which planted bugs do the checks see: tools/detect.py [ID...]   (maintenance tool, no check uses it)
TIER, SEED; PROPS: checks to run instead of the one of the bug's property; BASE: directory with copies verif and repo of both
(the copy of the harness adapted) to work in"""
import json, os, re, subprocess, sys, time
B = os.environ.get('BASE', '')
V, R = B + '/verif', B + '/repo'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
tier = os.environ.get('TIER', 'quick')
for i in ids:
    d = os.path.join(V, 'seeded', i)
    props = os.environ.get('PROPS', json.load(open(d + '/meta.json'))['property']).split()
    assert not subprocess.run(['git', '-C', R, 'status', '--porcelain', '-uno'], stdout=subprocess.PIPE).stdout
    subprocess.run(['git', '-C', R, 'apply', d + '/patch.diff'], check=True)
    try:
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, V + '/check.py', p, '--tier', tier, '--seed', os.environ.get('SEED', '1')],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            n = len(re.findall('^VIOLATION property=' + p, r.stdout, re.M))
            print('%-28s %s rc %d, %d violations, %d s %s' % (i, p, r.returncode, n, time.time() - t, '' if r.returncode == 1 and n else '   <--- MISSED'), flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    finally:
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
