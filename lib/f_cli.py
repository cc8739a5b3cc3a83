"""C27: whole runs of the command line tool (spec/Cli.tla)."""
import datetime
import f_dc, f_detect
from f_csv import cs, fmt_text

ZONE = {'UTC': 'UTC', 'Tokyo': 'Asia/Tokyo', 'Kolkata': 'Asia/Kolkata', 'GMTp5': 'Etc/GMT+5', 'NewYork': 'America/New_York', 'London': 'Europe/London',
        'Sydney': 'Australia/Sydney', 'LordHowe': 'Australia/Lord_Howe', 'Berlin': 'Europe/Berlin',
        'Azores': 'Atlantic/Azores', 'Beirut': 'Asia/Beirut'}
ZEROS = {'s': 9, 'ms': 6, 'us': 3, 'ns': 0}
SUFFIX = {'s': 'Seconds', 'ms': 'Millis', 'us': 'Micros', 'ns': 'Nanos'}
SHORT = {'output': 'o', 'format': 'f', 'timezone': 'z', 'begin': 'b', 'end': 'e', 'epoch': 'E', 'human': 'H', 'granularity': 'g', 'help': 'h', 'version': 'V'}
FLAGS = ('backtrace', 'epoch', 'human', 'help', 'version')
VALUED = ['output', 'format', 'timezone', 'begin', 'end', 'time-col-name', 'granularity', 'csv-in-delimiter', 'delimiter', 'csv-in-has-header', 'print-time',
          'csv-in-ts-col', 'csv-in-ts-col-date', 'csv-in-ts-col-time', 'csv-in-ts-fmt', 'csv-in-ts-fmt-date', 'csv-in-ts-fmt-time', 'csv-in-epoch']
TEXT = ['', 'a', 'x,y', 'say "hi"', 'two\nlines', '\u00e9', '\u20ac\U0001f600', 'a b', ';', '-1', 'null', '0']


def layer(kind, b, entry=''):
    return {'kind': kind, 'b': list(b), 'entry': list(entry.encode()), 't': cs(b.decode('utf-8', 'surrogateescape'))}


class Gen:
    def __init__(self, ctx):
        self.r, self.q, self.out, self.id = ctx.rnd, ctx.quick, [], 0
        self.packer = f_detect.Gen(ctx)

    # ----------------------------------------------------------------- contents
    def packed(self, b, name, allow=True):
        """-> (name, bytes, layers)"""
        r = self.r
        ls = [layer('raw', b)]
        if not allow or r.random() < 0.75:
            return name, b, ls
        p = r.choice(['gz', 'lz4', 'lz4b', 'lzf', 'zst', 'zip'])
        b, kind, entry = self.packer.pack(b, p)
        ls = [layer(kind, b, entry)] + ls
        if kind == 'zip':
            # what is inside of it has a name of its own
            return name + r.choice(['', '.zip', '.zip', '.zip']), b, ls
        return name + r.choice([''] + ['.' + {'lz4b': 'lz4'}.get(p, p)] * 4), b, ls

    def world(self):
        """how times are given in all csv inputs of a run: options, columns, function from ns to their texts, zone needed"""
        r = self.r
        kind = r.choice(['epoch', 'epoch', 'epoch', 'big', 'big', 'text', 'text', 'iso', 'explicit', 'explicit', 'split', 'split'])
        w = {'kind': kind, 'opts': [], 'zone': None, 'names': ['t'], 'step': 10**9, 'base': 0}
        u = r.choice(list(ZEROS))
        z = 10**ZEROS[u]
        if kind == 'epoch':
            w['opts'].append(('csv-in-epoch', u))
            w.update(base=r.choice([0, 0, 5, 10**6]) * z, step=z, cells=lambda n: [str(n // z)])
        elif kind == 'big':
            w.update(base=r.randrange(700_000_000, 1_900_000_000) * 10**9, step=z, cells=lambda n: [str(n // z)])
            w['names'] = [r.choice(['t', 'timestamp', 'x', 'time' + SUFFIX[u], 'TimeStamp' + SUFFIX[u]])]
        else:
            w['base'] = int((datetime.datetime(r.randrange(2009, 2036), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60)) - datetime.datetime(1970, 1, 1)).total_seconds()) * 10**9
            if kind == 'iso':
                f = '%Y-%m-%dT%H:%M:%S.%9fZ'
                w['step'] = r.choice([1, 10**9])
            elif kind == 'text':
                f = r.choice(['%Y%m%d.%H%M%S', '%Y%m%d %H%M%S', '%Y%m%d %H:%M:%S', '%Y/%m/%d-%H:%M:%S'])
            elif kind == 'explicit':
                f = r.choice(['%F %T', '%d %b %Y %H:%M:%S', '%Y-%m-%d %H:%M:%S%.f', '%F %T %z', '%Y%m%d%H%M%S%3f', '%d/%m/%Y %T'])
                w['opts'].append(('csv-in-ts-fmt', f))
            if kind == 'split':
                d, t = '%Y%m%d', r.choice(['%H%M%S', '%H:%M:%S'])
                w['names'] = ['date', 'time']
                if r.random() < 0.6:
                    w['names'] = [r.choice(['date', 'day', 'd']), r.choice(['time', 'tod', 'hour'])]
                    w['cols'] = True
                if r.random() < 0.5:
                    d, t = r.choice(['%Y%m%d', '%d.%m.%Y', '%F']), r.choice(['%T', '%H%M%S', '%H.%M.%S'])
                    w['opts'] += [('csv-in-ts-fmt-date', d), ('csv-in-ts-fmt-time', t)]
                fs = [d, t]
            else:
                fs = [f]

            def cells(n):
                d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n // 10**9)
                x = [d.year, d.month, d.day, d.hour, d.minute, d.second]
                return [fmt_text(g, x, n % 10**9, 0, Fixed()) for g in fs]
            w['cells'] = cells
            if kind not in ('iso',) and not (kind == 'explicit' and '%z' in f):
                w['zone'] = True
        # where the columns are
        k = len(w['names'])
        w['cols_n'] = r.randrange(0, 3)
        w['at'] = sorted(r.sample(range(w['cols_n'] + k), k)) if (r.random() < 0.4 and kind != 'big') or w.get('cols') else list(range(k))
        w['header'] = r.random() < 0.75
        if not w['header'] and kind == 'split':
            w['cols'] = True
        names = ['v%d' % i for i in range(w['cols_n'])]
        for i, n in zip(w['at'], w['names']):
            names.insert(i, n)
        w['all'] = names
        if kind != 'split' and (w['at'] != [0] or r.random() < 0.2):
            w['opts'].append(('csv-in-ts-col', w['names'][0] if w['header'] and r.random() < 0.6 else str(w['at'][0])))
        elif w.get('cols'):
            a, b = (w['names'] if w['header'] and r.random() < 0.6 else [str(i) for i in w['at']])
            w['opts'] += [('csv-in-ts-col-date', a), ('csv-in-ts-col-time', b)]
            if kind == 'split' and any(o[0] == 'csv-in-ts-col-date' for o in w['opts']) and not any(o[0] == 'csv-in-ts-fmt-date' for o in w['opts']):
                pass
        w['delim'] = r.choice([',', ',', ',', '\t', ';', '|'])
        if w['delim'] in ';|' or r.random() < 0.15:
            w['opts'].append(('csv-in-delimiter', '\\t' if w['delim'] == '\t' and r.random() < 0.5 else w['delim']))
        if r.random() < (0.85 if kind not in ('epoch', 'big') or w['opts'] and w['opts'][-1][0] == 'csv-in-ts-col' else 0.3):
            yes = 'yes' if w['header'] else 'no'
            h = r.choice(['auto', yes, yes, yes])
            w['opts'].append(('csv-in-has-header', r.choice([h, h.upper(), h.title()])))
        return w

    def times(self, w, n):
        r, t, out = self.r, w['base'], []
        for _ in range(n):
            t += r.choice([0, 0, 1, 1, 2, 5]) * w['step']
            out.append(t)
        return out

    def csv(self, w, pool, names=None, bad=None):
        r = self.r
        names = names or w['all']
        ts = sorted(r.choice(pool) for _ in range(r.choice([1, 2, 2, 3, 4] if r.random() < 0.93 else [0])))
        lines = [names] if w['header'] else []
        for k, n in enumerate(ts):
            cells = w['cells'](n)
            row = []
            for c in names:
                self.id += 1
                row.append(cells[w['names'].index(c)] if c in w['names'] else 'r%d' % self.id if r.random() < 0.7 else r.choice(TEXT))
            lines.append(row)
        if bad is not None and len(lines) > 1:
            k = r.randrange(1 if w['header'] else 0, len(lines))
            if bad == 'time':
                lines[k][names.index(w['names'][0])] = 'oops'
            elif bad == 'long':
                lines[k] = lines[k] + ['more']
            else:
                lines[k] = lines[k][:names.index(w['names'][0])]
        d = w['delim']
        eol = r.choice(['\n', '\n', '\r\n'])
        q = lambda s: '"' + s.replace('"', '""') + '"' if any(c in s for c in (d, '"', '\n', '\r')) else s
        return (eol.join(d.join(q(s) for s in l) for l in lines) + r.choice([eol, eol, ''])).encode()

    def dc(self, names, types, pool, cut=False):
        r = self.r
        rows = []
        for n in sorted(r.choice(pool) for _ in range(r.choice([0, 1, 2, 3]))):
            v = []
            for t in types:
                x = f_dc.val(r, t)
                if t == 'T' and x[0] == 'T':
                    self.id += 1
                    x = ['T', list(('r%d' % self.id if r.random() < 0.7 else r.choice(TEXT)).encode())]
                v.append(x)
            rows.append({'ts': list(n.to_bytes(8, 'big')), 'v': v})
        b = bytes(f_dc.encode({'n': [list(x.encode()) for x in names], 't': types}, rows, user=r.choice([b'', b'', b'hello'])))
        return b[:-r.randrange(1, min(len(b), 8))] if cut else b

    # ---------------------------------------------------------------- arguments
    def spell(self, opts, pos):
        r = self.r
        groups = []
        for k, v in opts:
            s = SHORT.get(k)
            if k in FLAGS:
                groups.append(['-' + s] if s and r.random() < 0.6 else ['--' + k])
                continue
            forms = [['--' + k + '=' + v]]
            if not (v.startswith('-') and len(v) > 1):
                forms.append(['--' + k, v])
                if s:
                    forms.append(['-' + s, v])
            if s and v and not v.startswith('='):
                forms += [['-' + s + v], ['-' + s + '=' + v]]
            groups.append(r.choice(forms))
        r.shuffle(groups)
        # flags in front of others
        for i in range(len(groups) - 1, 0, -1):
            if groups[i - 1] in (['-E'], ['-H']) and groups[i][0][1] != '-' and r.random() < 0.5:
                groups[i - 1:i + 1] = [[groups[i - 1][0] + groups[i][0][1:]] + groups[i][1:]]
        out = list(groups)
        if any(p.startswith('-') for p in pos) or r.random() < 0.1:
            k = next((i for i, p in enumerate(pos) if p.startswith('-')), r.randrange(len(pos) + 1))
            tail = [['--']] + [[p] for p in pos[k:]]
            head = pos[:k]
        else:
            head, tail = pos, []
        at = sorted(r.randrange(len(out) + 1) for _ in head)
        for i, p in reversed(list(zip(at, head))):
            out.insert(i, [p])
        return [t for g in out + tail for t in g]

    # ------------------------------------------------------------------ whole runs
    def scenario(self, fault=None):
        r = self.r
        w = self.world()
        more = {'zones': [], 'given': [], 'user': r.random() < 0.12}
        gives = r.random() < 0.15
        files, dirs, full, old, pos, fmts = [], [], [], [], [], []
        opts = list(w['opts'])
        pool = self.times(w, r.choice([1, 3, 6, 8]))
        what = r.choice(['csv'] * 6 + ['dc', 'dc', 'mix'])
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 3, 4, 5])
        bad = r.choice(['time', 'long', 'short']) if fault == 'row' else None
        # the rules of Time.tla for zones with daylight saving time are those of these years
        zones = ['UTC', 'Tokyo', 'Kolkata', 'GMTp5'] if w['base'] < 1_231_000_000 * 10**9 else list(ZONE)
        zone = r.choice(zones)
        target = r.choice(['', '', '', 'csv', 'csv', 'dc', 'dc'])
        dctypes = ['T'] * len(w['all']) if what == 'mix' else [r.choice('TTTIJSBC' + ('DF' if target == 'dc' else '')) for _ in range(r.randrange(0, 4))]
        dcnames = w['all'] if what == 'mix' else ['c%d' % i for i in range(len(dctypes))]
        victim = r.randrange(max(n, 1))

        def content(hit, inside=False):
            """-> (kind, bytes)"""
            kind = what if what != 'mix' else r.choice(['csv', 'dc'])
            if kind == 'dc':
                names, types = list(dcnames), list(dctypes)
                if hit and fault == 'header' and types:
                    if r.random() < 0.5:
                        names[-1] += 'x'
                    else:
                        types[-1] = 'J' if types[-1] != 'J' else 'I'
                if r.random() < (0.6 if more['user'] else 0.01):
                    b = self.dc(names, types, pool, cut=bool(hit and bad))
                    return 'udc', (b'' if fault == 'row' and hit and r.random() < 0.3 else b'UDC!') + b
                return 'dc', self.dc(names, types, pool, cut=bool(hit and bad))
            names = list(w['all'])
            if hit and fault == 'header':
                v = [c for c in names if c not in w['names']]
                if v:
                    i = names.index(r.choice(v))
                    if r.random() < 0.5:
                        names[i] += 'x'
                    else:
                        del names[i]
                else:
                    names.append('v9')
            elif inside and r.random() < 0.3:
                # other files of a directory may have more columns in another order
                if w['header'] and w['kind'] == 'epoch' and not any(o[0] == 'csv-in-ts-col' and o[1].isdigit() for o in opts) and w['at'] != [0]:
                    names.append('more')
                    r.shuffle(names)
            return 'csv', self.csv(w, pool, names, bad if hit else None)

        def put(prefix, kind, b, i):
            stem = prefix + r.choice(['f%d', 'in%d', 'a b%d', '\u00fc%d', 'x.y%d']) % i
            name, b2, ls = self.packed(b, stem + '.' + kind if r.random() < 0.8 else stem)
            if fault == 'damaged' and i == victim:
                name, b2 = stem + '.' + kind + r.choice(['.gz', '.zst', '.lz4', '.lzf']), b'this is not packed'
                ls = [layer('raw', b2)]
            f = {'path': cs(name), 'layers': ls, 'file': b2.hex()}
            if gives and not prefix and r.random() < 0.6:
                # not a file at all
                name = r.choice(['mem:', 'mem:/a/', 'http:', 'no/way/', './', 'ftp://h/']) + name
                f.update(path=cs(name), fail=fault == 'missing' and i == victim)
                more['given'].append(f)
            else:
                files.append(f)
            last[:] = [f]
            return name
        stdin, last = b'', []
        if n == 0:
            kind, stdin = content(fault in ('row', 'header'))
            if fault == 'empty':
                stdin = b''
            _, data, ls = self.packed(stdin, 'x')
            if ls[0]['kind'] == 'zip' and r.random() < 0.8:
                data, ls = stdin, [layer('raw', stdin)]
            if r.random() < 0.25:
                fmts.append(r.choice([kind, '.' + kind, 'auto']))
                if len(ls) > 1 and fmts[0] != 'auto':
                    fmts[0] += '.' + ls[0]['kind']
        else:
            data, ls = r.choice([(b'', None), (b't,a\n1,2\n', None)])
            ls = [layer('raw', data)]
        same = r.random() < 0.12
        for i in range(n):
            hit = i == victim
            if r.random() < 0.2:
                d = r.choice(['dir%d', 'dir%d.csv', 'd e%d'] ) % i
                dirs.append(cs(d))
                m = r.choice([0, 1, 1, 2, 3, 4])
                for j in range(m):
                    kind, b = content(hit and j == m - 1, inside=j > 0)
                    put(d + '/', kind, b, j * 10 + r.randrange(10))
                if r.random() < 0.3:
                    dirs.append(cs(d + '/sub'))
                    kind, b = content(False)
                    put(d + '/sub/', kind, b, 9)
                pos.append(r.choice([d, d, d + '/', './' + d]))
                fmts.append('auto')
            elif same and pos and not any(p.startswith('dir') for p in pos):
                pos.append(pos[0])
                fmts.append('auto')
            else:
                kind, b = content(hit)
                if fault == 'empty' and hit:
                    b = b''
                pre = ''
                if r.random() < 0.15:
                    pre = 'deep%d/er/' % i
                    dirs += [cs('deep%d' % i), cs('deep%d/er' % i)]
                elif r.random() < 0.05:
                    pre = '-'
                name = put(pre, kind, b, i)
                pos.append(r.choice([name, name, name, './' + name if not name.startswith('-') and last[0] in files else name]))
                packs = last[0]['layers'][0]['kind']
                f = kind + ('' if packs == 'raw' else '.' + packs)
                fmts.append(r.choice(['auto', 'auto', f, '.' + f]))
        # formats: leave out what is the same at the end
        if fmts and r.random() < 0.4:
            k = r.random()
            if k < 0.3:
                while len(fmts) > 1 and fmts[-1] == fmts[-2]:
                    fmts.pop()
            elif k < 0.6 and len(fmts) > 2:
                # the last format is for all inputs that follow, also if it is auto
                del fmts[r.randrange(2, len(fmts)):]
                fmts[-1] = 'auto'
            elif k < 0.7:
                fmts += [r.choice(['auto', 'csv', 'dc', 'csv.gz'])] * r.choice([1, 2])
            if fault == 'format':
                fmts[r.randrange(len(fmts))] = r.choice(['xyz', 'csv.', 'dc', 'csv', 'gz', 'CSV'])
            if fmts != ['']:
                opts.append(('format', ','.join(fmts) + (',' if r.random() < 0.1 else '')))
        tz = []
        if w['zone'] or r.random() < 0.55:
            if fault == 'zone' and r.random() < 0.6:
                pass
            elif r.random() < 0.75:
                opts.append(('timezone', ZONE[zone] if fault != 'zone' else r.choice(['', 'utc', 'Mars', 'Asia/tokyo', 'UTC '])))
                if r.random() < 0.2:
                    tz = [cs(r.choice([ZONE[z] for z in zones] + ['nowhere']))]
            else:
                tz = [cs(ZONE[zone] if fault != 'zone' else r.choice(['', 'utc', 'Mars']))]
        if r.random() < 0.15:
            self.names(more, opts, tz, zones, fault == 'zone')
        # output
        path = ''
        if target:
            path = r.choice(['out.%s', 'o.%s', './out.%s', 'a.b.%s', '%s', 'x%s', 'out/put.%s']) % target
            if path.startswith('out/'):
                dirs.append(cs('out'))
            if fault == 'output':
                k = r.randrange(5)
                if k == 0:
                    path = 'missing/out.' + target
                elif k == 1:
                    path = r.choice(['out.txt', 'out', '', 'out.csv.gz', 'out.CSV', 'out.dc '])
                elif k == 2:
                    path = 'isdir.' + target
                    dirs.append(cs(path))
                else:
                    path = 'full.' + target
                    full.append(cs(path))
            elif r.random() < 0.3:
                # something is there already
                old.append({'path': cs(path), 'file': (b'what was there before\n' * r.choice([1, 500])).hex()})
            opts.append(('output', path))
        links, source = [], []
        if (n == 0 or files) and (fault == 'own' or (not fault and target and r.random() < 0.3)):
            old, full = [], []
            path, links, source = self.own(fault == 'own', target or 'csv', n, pos, files, dirs, ls, data, path)
            opts = [o for o in opts if o[0] != 'output'] + [('output', path)]
            if source:
                data = b''
        stdout = 'pipe'
        if fault == 'stdout':
            stdout = r.choice(['full', 'gone'])
        if r.random() < 0.5 or (not w['zone'] and not tz and not any(o[0] == 'timezone' for o in opts) and r.random() < 0.8):
            opts.append(('epoch', None))
        elif r.random() < 0.3:
            opts.append(('human', None))
        if r.random() < 0.4:
            opts.append(('granularity', r.choice(list(ZEROS))))
        if r.random() < 0.25:
            opts.append(('delimiter', r.choice([';', '\t', '|', '::', ' ', '\u20ac', '', ','])))
        if r.random() < 0.25:
            opts.append(('print-time', r.choice(['no', 'No', 'NO', 'yes', 'YES'])))
        if r.random() < 0.2:
            opts.append(('time-col-name', r.choice(['when', '', 'a,b', '-t', '\u00e9'])))
        if r.random() < 0.1:
            opts.append(('backtrace', None))
        for k in ('begin', 'end'):
            if r.random() < 0.3:
                t = max(0, r.choice(pool) + r.choice([0, 0, 0, 1, -1, w['step'], -w['step']]))
                d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t // 10**9)
                forms = ['%s.%09dZ' % (d.strftime('%Y-%m-%dT%H:%M:%S'), t % 10**9)]
                if 630_000_000 * 10**9 <= t < 2_000_000_000 * 10**9:
                    forms += [str(t), str(t // 10**6), str(t // 10**9)]
                if w['zone']:
                    forms += [d.strftime('%Y%m%d-%H%M%S')] * 3 + [d.strftime('%Y'), d.strftime('%Y%m%d'), d.strftime('%Y-%m-%d %H:%M:%S')]
                opts.append((k, r.choice(forms)))
        if fault == 'range':
            opts = [o for o in opts if o[0] not in ('begin', 'end')] + [(r.choice(['begin', 'end']), r.choice(['', 'now', '2019-13-01', '12', '20190229-000000', '-5']))]
        if fault == 'delim':
            opts = [o for o in opts if o[0] != 'csv-in-delimiter'] + [('csv-in-delimiter', r.choice(['', ',,', '\u20ac', '\\n', '\\']))]
        if fault == 'missing':
            k = r.randrange(len(pos) + 1)
            pos.insert(k, r.choice(['nothing.csv', 'no/thing.dc', '', 'nothing']))
        argv = self.spell(opts, pos)
        if fault == 'usage':
            argv = self.misuse(argv, opts)
        self.add(argv, files, dirs, full, ls, data, stdout, tz, old, links, source, more)
        if self.out:
            self.out[-1]['about'] = [str(fault), w['kind'], what, str(w['header'])]

    def own(self, own, target, n, pos, files, dirs, ls, data, path):
        """the output is one of the inputs (own), or close to them -> output, links, file that is the standard input"""
        r = self.r
        text = lambda p: ''.join(map(chr, p))
        if n == 0:
            # standard input is a file
            files.append({'path': cs('std.' + target), 'layers': ls, 'file': data.hex()})
            inputs = ['std.' + target]
        else:
            inputs = [text(f['path']) for f in files]
        source = [cs(inputs[-1])] if n == 0 else []
        tops = [p for p in pos if any(text(d) == p for d in dirs)]
        if own:
            out = r.choice(inputs)
            if '/sub/' in out or not out.endswith(('csv', 'dc')) or r.random() < 0.3:
                name = 'link.' + target
                return name, ([{'path': cs(name), 'to': cs(out)}] if '/sub/' not in out else []), source
            return r.choice([out, out, './' + out]), [], source
        k = r.randrange(4)
        if k == 0 and tops:
            # new in a directory that is read
            return r.choice(tops) + '/new.' + target, [], source
        if k == 1 and tops:
            d = r.choice(tops) + '/sub'
            dirs.append(cs(d))
            return d + '/new.' + target, [], source
        if k == 2:
            dirs.append(cs('other'))
            return 'other/' + inputs[0].split('/')[-1].split('.')[0] + '.' + target, [], source
        return path, [], source

    def names(self, more, opts, tz, zones, wrong):
        """zones by names of one's own"""
        r = self.r
        for _ in range(r.choice([1, 2, 3])):
            # also names that mean another zone otherwise
            z = r.choice(zones)
            more['zones'].append({'name': cs(r.choice(['office', 'Tokyo', 'here ', 'utc', 'UTC', '', 'Asia/Tokyo', 'Europe/London', '\u00fc'])), 'zone': z, 'tz': ZONE[z]})
        # one name, one zone
        seen = {}
        for z in more['zones']:
            seen[tuple(z['name'])] = z
        more['zones'] = list(seen.values())
        if wrong or r.random() < 0.2:
            return
        name = r.choice(more['zones'])['name']
        if tz:
            tz[:] = [name]
        else:
            for i, o in enumerate(opts):
                if o[0] == 'timezone':
                    opts[i] = ('timezone', ''.join(map(chr, name)))

    def misuse(self, argv, opts):
        r = self.r
        k = r.randrange(9)
        given = [o[0] for o in opts]
        put = lambda toks, end=False: (lambda i: argv[:i] + toks + argv[i:])(len(argv) if end else 0)
        if k == 0:
            return put([r.choice(['--outputs', '--out', '-x', '--', '-Ex', '--no-such', '-q', '---', '--Epoch', '-C']) if r.random() < 0.9 else '--nothing=1'])
        if k == 1:
            return argv + [r.choice(['-o', '--format', '-z', '-b', '--granularity', '--csv-in-epoch', '-Ef', '--end'])]
        if k == 2 and given:
            n = r.choice(given)
            return put(['--' + n] + ([] if n in FLAGS else [dict(opts)[n]]))
        if k == 3:
            n, v = r.choice([('granularity', 'NS'), ('granularity', 'm'), ('granularity', ''), ('csv-in-epoch', 'S'), ('csv-in-epoch', 'hours'), ('csv-in-has-header', 'maybe'), ('csv-in-has-header', ''),
                             ('print-time', 'auto'), ('print-time', '1'), ('csv-in-has-header', 'ye')])
            return put(['--%s=%s' % (n, v)])
        if k == 4:
            n, v = r.choice([('csv-in-ts-col', '0'), ('csv-in-ts-col-date', '0'), ('csv-in-ts-col-time', '1'), ('csv-in-ts-fmt', '%F'), ('csv-in-ts-fmt-date', '%Y%m%d'), ('csv-in-ts-fmt-time', '%H%M%S'), ('csv-in-epoch', 's')])
            return put(['--' + n, v])
        if k == 5:
            return put([r.choice(['-h', '--help', '-V', '--version', '-Eh'])], r.random() < 0.5)
        if k == 6:
            return put(['-E', '-H'])
        if k == 7:
            return put([r.choice(['-o', '-f', '-b', '--time-col-name', '--delimiter']), r.choice(['-E', '--human', '-x'])])
        return put(r.choice([['-E', '-E'], ['-EE'], ['-HE'], ['--backtrace', '--backtrace'], ['-gs', '-gms'], ['--epoch', '-E']]))

    def add(self, argv, files, dirs, full, stdin, data, stdout='pipe', tz=(), old=(), links=(), source=(), more=None):
        more = more or {'zones': [], 'given': [], 'user': False}
        given = [''.join(map(chr, f['path'])) for f in more['given']]
        if any(a != b and b.startswith(a) for a in given for b in given + [''.join(map(chr, f['path'])) for f in files]):
            return
        paths = [bytes(b for c in f['path'] for b in chr(c).encode()) for f in files]
        if len(set(paths)) < len(paths):
            return
        have = set()
        ds = []
        for d in dirs:
            if tuple(d) not in have:
                have.add(tuple(d))
                ds.append(d)
        self.out.append({'op': 'cli', 'argv': [cs(a) for a in argv], 'tz': list(tz), 'files': files, 'dirs': ds, 'full': full, 'more': more, 'old': list(old), 'links': list(links), 'from': list(source), 'stdin': stdin,
                         'data': data.hex(), 'pipe': self.r.choice([0, 0, 1, 7, 100000]), 'stdout': stdout})


class Fixed:
    def choice(self, x):
        return x[1] if len(x) == 5 else x[0]


FAULTS = ['row', 'row', 'header', 'header', 'damaged', 'format', 'zone', 'output', 'output', 'stdout', 'range', 'delim', 'missing', 'usage', 'usage', 'usage', 'empty', 'own', 'own']


def generate(ctx):
    g = Gen(ctx)
    n = 1500 if ctx.quick else 30000
    while len(g.out) < n:
        g.scenario(g.r.choice(FAULTS) if g.r.random() < 0.4 else None)
    return g.out


def view(rec):
    s = rec['sc']
    files = [{'path': f['path'], 'layers': f['layers']} for f in s['files']]
    ev = [{k: v for k, v in e.items() if k != 'msg'} for e in rec['ev']]
    return {'sc': {'argv': s['argv'], 'tz': s['tz'], 'files': files, 'dirs': s['dirs'], 'full': s['full'], 'links': s['links'], 'more': {'zones': s['more']['zones'], 'user': s['more']['user'], 'given': [{'path': f['path'], 'fail': f['fail'], 'layers': f['layers']} for f in s['more']['given']]}, 'from': s['from'], 'stdin': s['stdin'], 'stdout': s['stdout']}, 'ev': ev}


def check(ctx):
    scs = generate(ctx)
    recs = ctx.execute(scs, hang_s=60)
    ok = sum(r['ev'][0].get('status') == 0 for r in recs)
    ctx.log('%d of %d runs succeeded' % (ok, len(recs)))
    if not 0.25 * len(recs) < ok < 0.95 * len(recs) and not any(e.get('crash') for r in recs for e in r['ev']):
        ctx.log('unusual number of successful runs')
    ctx.design('CliDesign', 'CliDesign.cfg' if ctx.quick else 'CliDesignT.cfg', workers=8, min_states=100000,
               what='command lines of up to %d arguments in every spelling; merging of three sources' % (3 if ctx.quick else 4))
    ctx.validate('CliTrace', recs, what='whole runs of the command line tool', view=view)
    return ctx.finish(assumptions=['inputs are sorted by time; arguments are valid UTF-8; columns of floating point numbers only with dc output (C25 has them)'])
