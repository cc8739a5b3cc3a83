#!/usr/bin/env python3
"""showhttp.py REPLAY...: a remote input in readable form"""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(p))
    r = d.get('record', d)
    s = r['sc']
    print('==', p, 'rejected at', d.get('rejected_at'), '\n  url', bytes(s['url']), 'fmt', None if s['auto'] else bytes(s['fmt']), 'refuse', s['refuse'])
    for a in s['answers']:
        print('  for', bytes(a['target']), 'end', a['end'], 'pause', a['pause'], len(a['segs']), 'pieces', [l['kind'] for l in a['layers']], bytes(a['sent'])[:400], '...', len(a['sent']))
    for e in r['ev'][:12]:
        print('   ', {k: (bytes(v) if k == 'ts' else v) for k, v in e.items()})
