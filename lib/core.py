"""Orchestration only: build the harness from /repo, run scenarios in it, hand the
recorded observations to TLC, report.  All judging is done by the TLA+ modules."""
import json, os, random, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
TARGET = os.path.join(VERIF, 'target')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = int(os.environ.get('VERIF_CORES', '8'))


ERRORS = ['', '', 'other', 'eof', 'pipe', 'data', 'input', 'timeout', 'perm', 'block', 'reset', 'none', 'zero', 'csv', 'interrupted']


class ToolError(Exception):
    """something of ours is broken: neither a pass nor a violation"""


def dump(x):
    return json.dumps(x, ensure_ascii=True, separators=(',', ':'))


# rounds of quick checks, from what they cost
ROUNDS = {'C24': 1, 'C27': 2, 'C28': 2, 'C07': 2, 'C17': 2}


def rounds(prop, quick):
    return int(os.environ.get('VERIF_ROUNDS', ROUNDS.get(prop, 3) if quick else 1))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.rnd = random.Random('%s/%s' % (prop, seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'work', prop)
        if os.path.isdir(self.work):
            shutil.rmtree(self.work)
        os.makedirs(self.work)
        self.replays = os.path.join(self.work, 'replay')
        self.states = self.transitions = self.validated = 0
        self.samples, self.violations, self.notes, self.runs = [], [], [], []
        self.known = {}
        self.n = 0
        self.designs = set()
        self.summary = {}

    def round(self, k):
        if k:
            self.rnd = random.Random('%s/%s/%s' % (self.prop, self.seed, k))
        self.summary.setdefault('rounds', 0)
        self.summary['rounds'] += 1

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def dir(self, name):
        self.n += 1
        d = os.path.join(self.work, '%02d-%s' % (self.n, name))
        os.makedirs(d)
        return d

    # ------------------------------------------------------------------ build
    def build(self):
        env = dict(os.environ)
        env.setdefault('HOME', '/root')
        env['CARGO_NET_OFFLINE'] = 'true'
        cmd = '. /opt/vp/env.sh 2>/dev/null; cd %s/harness && cargo build --offline --locked --target-dir %s' % (VERIF, TARGET)
        lock = os.path.join(VERIF, 'harness', 'Cargo.lock')
        r = subprocess.run(['bash', '-c', cmd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            raise ToolError('the harness does not build against /repo')
        self.bin = os.path.join(TARGET, 'debug', 'conformance')
        self.chop = os.path.join(TARGET, 'debug', 'chop')
        self.log('built')

    # -------------------------------------------------------------- execution
    def _limits(self):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def _worker(self, d, k, scs, hang_s, env):
        """run scs in one harness process, restarting it behind a scenario that ends it"""
        sf, of = os.path.join(d, 's%d.ndjson' % k), os.path.join(d, 'o%d.ndjson' % k)
        with open(sf, 'w') as f:
            for s in scs:
                f.write(dump(s) + '\n')
        open(of, 'w').close()
        done = hangs = 0
        while done < len(scs):
            with open(os.path.join(d, 'err%d.txt' % k), 'ab') as ef:
                p = subprocess.Popen([self.bin, 'run', sf, of, str(done)], stdin=subprocess.DEVNULL,
                                     stdout=ef, stderr=ef, preexec_fn=self._limits, env=env, cwd=d)
                size, moved, hung = -1, time.time(), False
                while True:
                    try:
                        p.wait(0.05 if hang_s < 5 else 0.2)
                        break
                    except subprocess.TimeoutExpired:
                        beat = of + '.beat'
                        s = (os.path.getsize(of), os.path.getsize(beat) if os.path.exists(beat) else 0)
                        if s != size:
                            size, moved = s, time.time()
                        elif time.time() - moved > hang_s:
                            p.kill()
                            p.wait()
                            hung = True
                            break
            with open(of, 'rb') as f:
                data = f.read()
            cut = data.rfind(b'\n') + 1
            done = data[:cut].count(b'\n')
            if p.returncode == 0 and done == len(scs):
                break
            if p.returncode == 3:
                raise ToolError('harness error, see %s/err%d.txt' % (d, k))
            if done >= len(scs):
                break
            # the scenario after the last complete line ended the process
            how = 'hang' if hung else ('exit' if p.returncode >= 0 else 'abort')
            rec = {'ev': [{'e': 'end', 'r': how, 'id': '', 'msg': 'status %d' % p.returncode}]}
            with open(of, 'wb') as f:
                f.write(data[:cut] + dump(rec).encode() + b'\n')
            done += 1
            hangs += hung
            if hangs == 3:
                # enough has been seen
                break
        with open(of) as f:
            return [json.loads(x) for x in f]

    def execute(self, scs, name='run', hang_s=20, env=None, workers=CORES):
        """-> list of {'sc':..., **observation} in the order of scs"""
        if not scs:
            return []
        # injected failures are of every kind
        for s in scs:
            s.setdefault('err', self.rnd.choice(ERRORS))
            # outputs that are written over older, longer ones
            if s['op'] in ('csvout', 'dcw', 'dest'):
                s.setdefault('old', self.rnd.choice([0, 0, 1, 100, 20000]))
        d = self.dir(name)
        e = dict(os.environ)
        e.update(env or {})
        n = min(workers, len(scs))
        parts = [scs[k::n] for k in range(n)]
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda k: self._worker(d, k, parts[k], hang_s, e), range(n)))
        out = [None] * len(scs)
        for k in range(n):
            for j, o in enumerate(res[k]):
                rec = {'sc': parts[k][j]}
                rec.update(o)
                out[k + j * n] = rec
        out = [x for x in out if x]
        self.log('executed %d scenarios on the real code (%s)' % (len(out), name))
        return out

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, d=None, workers=1, heap='3g', timeout=800, extra=()):
        d = d or self.dir('tlc-' + module)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xss128m', '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
               '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-checkpoint', '0', '-config', os.path.join(SPEC, cfg), *extra,
               os.path.join(SPEC, module + '.tla')]
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC ran out of time on ' + module)
        out = r.stdout
        with open(os.path.join(d, 'tlc.out'), 'w') as f:
            f.write(out)
        m = re.search(r'(\d+) states generated, (\d+) distinct states', out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return r.returncode, out, gen, dist, d

    def design(self, module, cfg, env=None, workers=4, what='', min_states=10, heap='6g', extra=(), timeout=800):
        """exhaustive model checking of a design; any counterexample is ours to fix"""
        if (module, cfg, str(env)) in self.designs:
            return
        self.designs.add((module, cfg, str(env)))
        rc, out, gen, dist, d = self.tlc(module, cfg, env, workers=workers, heap=heap, extra=extra, timeout=timeout)
        if rc != 0 or 'No error has been found' not in out or dist < min_states:
            print(out[-5000:])
            raise ToolError('design check %s/%s failed (rc %d, %d states)' % (module, cfg, rc, dist))
        self.states += dist
        self.transitions += gen
        self.runs.append({'spec': module, 'config': cfg, 'states': dist, 'transitions': gen, 'what': what})
        self.log('design %s: %d states, %d transitions' % (module, dist, gen))

    def validate(self, module, recs, cfg='trace.cfg', env=None, parts=None, focus=None, what='', heap='3g', view=None):
        """check recorded observations against a trace specification; rejected ones are violations"""
        if not recs:
            return
        d = self.dir('val-' + module)
        full = recs
        if view:
            recs = [view(r) for r in recs]
        weight = [len(dump(r)) for r in recs]
        parts = parts or max(1, min(CORES, sum(weight) // 60000 + 1))
        order = sorted(range(len(recs)), key=lambda i: -weight[i])
        load, groups = [0] * parts, [[] for _ in range(parts)]
        for i in order:
            g = load.index(min(load))
            groups[g].append(i)
            load[g] += weight[i] + 200
        groups = [sorted(g) for g in groups if g]

        def one(g):
            idx = list(groups[g])
            rej, gen_t, dist_t = [], 0, 0
            for attempt in range(6):
                dd = os.path.join(d, 'p%d.%d' % (g, attempt))
                os.makedirs(dd)
                tf = os.path.join(dd, 'traces.ndjson')
                with open(tf, 'w') as f:
                    for i in idx:
                        f.write(dump(recs[i]) + '\n')
                e = {'TRACE': tf, 'FOCUS': focus or self.prop}
                e.update(env or {})
                rc, out, gen, dist, _ = self.tlc(module, cfg, e, d=dd, heap=heap)
                for m in re.finditer(r'<<"REJECTED", (\d+), (-?\d+)>>', out):
                    rej.append((idx[int(m.group(1)) - 1], int(m.group(2))))
                if 'Model checking completed' in out and 'Error:' not in out:
                    os.remove(tf)
                    return rej, gen_t + gen, dist_t + dist, None
                # the specification could not evaluate an observation: it lies outside of
                # everything it allows; blame the record TLC was working on
                bad = re.findall(r'/\\ t = (\d+)', out) or re.findall(r'^t = (\d+)', out, re.M)
                if not bad:
                    return rej, 0, 0, 'TLC failed on %s: %s' % (module, out[-3000:])
                b = int(bad[-1]) - 1
                self.log('%s could not evaluate: %s' % (module, ' '.join(re.findall(r'(?s)but it produced the .{0,900}', out))[-900:]))
                rej = [r for r in rej if False]
                self.notes.append('record outside of the vocabulary of %s' % module)
                self.odd.append((idx[b], 0))
                idx.pop(b)
                if not idx:
                    return rej, 0, 0, None
            return rej, 0, 0, 'too many evaluation failures in ' + module
        self.odd = []
        with ThreadPoolExecutor(min(CORES, len(groups))) as ex:
            res = list(ex.map(one, range(len(groups))))
        gen = dist = 0
        rejected = list(self.odd)
        for rej, a, b, err in res:
            if err:
                raise ToolError(err)
            rejected += rej
            gen += a
            dist += b
        self.states += dist
        self.transitions += gen
        self.validated += len(recs)
        self.runs.append({'spec': module, 'config': cfg, 'states': dist, 'transitions': gen,
                          'records': len(recs), 'what': what})
        for i in sorted(range(len(recs)), key=lambda i: weight[i])[len(recs) // 2:][:1]:
            if len(self.samples) < 6:
                s = dump(recs[i])
                self.samples.append({'what': what, 'record': json.loads(s) if len(s) < 6000 else s[:3000] + '...'})
        self.log('validated %d records against %s: %d states, %d rejected' % (len(recs), module, dist, len(rejected)))
        for i, at in sorted(set(rejected)):
            self.reject(module, cfg, full[i], at, env, focus)

    def reject(self, module, cfg, rec, at, env, focus):
        key = rec['sc'].get('known', '')
        for k in load_known():
            if k['property'] == self.prop and key and k['key'] == key:
                self.known[key] = k['what']
                return
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, '%04d.json' % (len(self.violations) + 1))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'module': module, 'cfg': cfg, 'env': env or {}, 'focus': focus or self.prop,
                       'rejected_at': at, 'record': rec}, f)
        self.violations.append(p)

    # ----------------------------------------------------------------- result
    def finish(self, assumptions=(), exhaustive=None, extra=None):
        self.summary.update(assumptions=assumptions, exhaustive=exhaustive)
        sums = self.summary.setdefault('extra', {})
        for k, v in (extra or {}).items():
            sums[k] = sums.get(k, 0) + v
        # scratch files are of no use any more
        for n in os.listdir(self.work):
            if n != 'replay' and not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(os.path.join(self.work, n), ignore_errors=True)
        return 1 if self.violations else 0

    def report(self):
        assumptions, exhaustive, extra = self.summary['assumptions'], self.summary['exhaustive'], self.summary['extra']
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated, 'samples': self.samples, 'runs': self.runs, 'rounds': self.summary['rounds']}
        if exhaustive is not None:
            cov['exhaustive'] = exhaustive
        if extra:
            cov.update(extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, what in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for p in self.violations[:20]:
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        if len(self.violations) > 20:
            print('... %d violations in total' % len(self.violations))
        self.log('%s: %d states, %d records, %d violations' % (self.tier, self.states, self.validated, len(self.violations)))
        return 1 if self.violations else 0


def load_known():
    out = []
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for l in f:
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                out.append({'property': m.group(1), 'key': m.group(2), 'what': m.group(3)})
    return out
