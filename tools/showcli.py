#!/usr/bin/env python3
"""showcli.py REPLAY...: a run of the command line in readable form"""
import json, sys
tx = lambda c: bytes(b for x in c for b in ([x - 2000000] if x >= 2000000 else chr(x).encode())).decode('utf-8', 'backslashreplace')
for p in sys.argv[1:]:
    r = json.load(open(p))
    r = r.get('record', r)
    s = r['sc']
    print('==', p, '\n  argv', [tx(a) for a in s['argv']], 'tz', [tx(a) for a in s['tz']], 'stdout', s['stdout'])
    for f in s['files']:
        print('  file', tx(f['path']), [l['kind'] + ' ' + tx(l['entry']) for l in f['layers']], repr(tx(f['layers'][-1]['t']))[:700])
    print('  dirs', [tx(d) for d in s['dirs']], 'full', [tx(d) for d in s['full']])
    if s['stdin'][-1]['t']:
        print('  stdin', [l['kind'] for l in s['stdin']], repr(tx(s['stdin'][-1]['t']))[:400])
    for e in r['ev']:
        if e['e'] == 'run':
            print('  status', e['status'], 'crash', e['crash'], 'msg', e['msg'])
            print('  out', repr(tx(e['out']))[:1200])
            for f in e['files']:
                print('  wrote', tx(f['path']), repr(tx(f['t']))[:600])
