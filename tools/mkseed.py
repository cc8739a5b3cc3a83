#!/usr/bin/env python3
"""Plant one bug: tools/mkseed.py DEFS.py ID...   (maintenance tool, no check uses it)

DEFS.py has SEEDS = {id: {'property':, 'edits': [(file, old, new)], 'demo': rust source of main.rs,
'needs':, 'breaks':}}.  Works in a scratch copy of /repo, keeps the bug in /verif/seeded/<id> only if
it builds, passes the tests, and the demonstration tells it apart."""
import json, os, runpy, shutil, subprocess, sys
V = os.environ.get('OUT', '/verif')
S = '/tmp/seedwork'
R = S + '/repo'

def sh(c, cwd=None, timeout=900):
    return subprocess.run(['bash', '-c', c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def copy():
    os.makedirs(S, exist_ok=True)
    sh('rsync -a --delete --exclude=/chop/target --exclude=/util/dcgen/target /repo/ %s/' % R) if shutil.which('rsync') else None
    if not os.path.isdir(R):
        sh('cp -a /repo %s' % R)

def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in sys.argv[2:] or seeds:
        s = seeds[i]
        copy()
        sh('git checkout -q -- . && git clean -fdq src', R)
        for f, old, new in s['edits']:
            p = os.path.join(R, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, 'edit does not apply', f, t.count(old))
                break
            open(p, 'w').write(t.replace(old, new))
        else:
            diff = sh('git diff', R).stdout
            d = os.path.join(V, 'seeded', i)
            t = os.path.join(S, i)
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            for n in ('demo.sh', 'common.rs', 'Cargo.lock'):
                shutil.copy(os.path.join(V, 'tools/seed', n), t)
            for n in s.get('files', ()):
                shutil.copy(n, t)
            open(t + '/main.rs', 'w').write('mod common;\n#[allow(unused_imports)]\nuse common::*;\n' + s['demo'])
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(t + '/meta.json', 'w'), indent=1)
            open(t + '/patch.diff', 'w').write(diff)
            env = '. /opt/vp/env.sh; export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH; '
            b = sh(env + 'cargo test --no-run --offline 2>&1 | tail -30; exit ${PIPESTATUS[0]}', R)
            if b.returncode:
                print(i, 'does not build\n', b.stdout); continue
            o = sh(env + 'cargo test --no-fail-fast --offline -- --test-threads 8', R).stdout
            if ' ... FAILED' in o or o.count(' ... ok') < len(stable):
                print(i, 'tests fail', o.count(' ... ok'), [l for l in o.splitlines() if 'FAILED' in l][:5]); continue
            sh('git checkout -q -- tests', R)
            a = sh('bash %s/demo.sh' % t, '/repo')
            b = sh('bash %s/demo.sh' % t, R)
            print(i, 'demo', a.returncode, b.returncode)
            if a.returncode != 0: print(a.stdout[-1500:])
            if b.returncode == 0 or 'error' in b.stdout and b.returncode == 2: print('NOT TOLD APART', b.stdout[-800:])
            if a.returncode == 0 and b.returncode not in (0, 2):
                print(b.stdout[-300:])
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(t, d)
                print(i, 'kept')
        sys.stdout.flush()
main()
