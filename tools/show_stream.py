#!/usr/bin/env python3
"""show_stream.py REPLAY: the record of a rejected C29 scenario in short"""
import json, sys
for p in sys.argv[1:]:
    r = json.load(open(p))
    s = r['record']['sc']
    print(p.split('/')[-1], s['mode'], s['label'], 'rejected at', r['rejected_at'], 'x', s['x'], 'take', s['take'], 'total', s['total'], 'settled', s['settled'], 'outlen', s['outlen'],
          [(i['name'], i['fmt'], i['piece'], i['limit'], len(i['pre']) // 2, len(i['unit']) // 2) for i in s['inputs']], s['gates'], s['framing'], s['argv'])
    ev = r['record']['ev']
    for e in ev[max(0, r['rejected_at'] - 3):r['rejected_at'] + 1]:
        print('   ', json.dumps(e)[:300])
