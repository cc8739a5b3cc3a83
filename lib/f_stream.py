"""C29: inputs without an end (spec/Stream.tla)."""
import io, struct, warnings, zipfile, zlib
import containers as c
import f_dc

RAW = DEC = 131072
AHEAD = 3
OUT = 131072


def contents(r, fmt, unit, ts=None, varied=False, short=False):
    """-> (header, rows of one unit, length of a row, least length of a row written as csv and as dc, where no two rows are alike)"""
    w = r.choice([1, 7, 20, 60]) if unit < 30000 else r.choice([7, 20, 200])
    if varied:
        w = 7 if short else max(w, 7)
    word = lambda: ''.join(r.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(w))
    if fmt == 'csv':
        rows = lambda n, ts=ts: [b'%d,%s,%06d\n' % (ts or r.randrange(10, 100), word().encode(), r.randrange(10**6)) for _ in range(n)]
        n = len(rows(1)[0])
        if varied:
            plain, rows = rows, lambda k, ts=None: [b'1000000000,' + x[x.index(b',') + 1:] for x in plain(k)]
            n = len(rows(1)[0])
            return b't,s,v\n', rows, n, n - 4, n + 8, [{'off': 1, 'w': 9, 'base': 10}, {'off': 11, 'w': 7, 'base': 10}]
        return b't,s,v\n', rows, n, n - 4, n + 8, []
    h = {'n': [list(b'a'), list(b's'), list(b'd')], 't': ['J', 'T', 'D']}

    def rows(n, ts=ts):
        rs = [{'ts': list(struct.pack('>Q', ts or r.randrange(10, 100))), 'v': [['J', list(struct.pack('>q', r.randrange(1 << 60)))], ['T', list(word().encode())], ['N', []]]} for _ in range(n)]
        return [bytes(f_dc.encode(h, [x]))[len(head):] for x in rs]
    head = bytes(f_dc.encode(h, []))
    n = len(rows(1)[0])
    at = []
    if varied:
        row = lambda ts, x: bytes(f_dc.encode(h, [{'ts': ts, 'v': [['J', [0] * 8], ['T', x], ['N', []]]}]))[len(head):]
        diff = lambda a, b: [i for i in range(n) if a[i] != b[i]]
        z, o = [0] * w, [1] * w
        d, e = diff(row([1] * 8, z), row([2] * 8, z)), diff(row([1] * 8, z), row([1] * 8, o))
        assert d == list(range(d[0], d[0] + 8)) and e == list(range(e[0], e[0] + w))
        at = [{'off': d[0] + 1, 'w': 7, 'base': 256}, {'off': e[0], 'w': 7, 'base': 10}]
    return head, rows, n, w + 4, n, at


def zst_raw(d, last=0):
    return b''.join(struct.pack('<I', len(d[i:i + 100000]) << 3 | last)[:3] + d[i:i + 100000] for i in range(0, len(d), 100000))


def flat(head, unit, kind):
    """-> (pre, unit) of the packed input"""
    if kind == 'plain':
        return head, unit
    if kind == 'gz flush':
        z = zlib.compressobj(6, zlib.DEFLATED, -15)
        a = z.compress(head) + z.flush(zlib.Z_FULL_FLUSH)
        b = z.compress(unit) + z.flush(zlib.Z_FULL_FLUSH)
        return b'\x1f\x8b\x08\0\0\0\0\0\0\x03' + a, b
    if kind == 'gz stored':
        z = zlib.compressobj(0, zlib.DEFLATED, -15)
        a = z.compress(head) + z.flush(zlib.Z_FULL_FLUSH)
        b = z.compress(unit) + z.flush(zlib.Z_FULL_FLUSH)
        return b'\x1f\x8b\x08\0\0\0\0\0\0\x03' + a, b
    if kind == 'gz members':
        return c.gz_member(head), c.gz_member(unit)
    if kind == 'zst frames':
        return c.zstd_frame(head), c.zstd_frame(unit)
    if kind == 'zst blocks':
        return b'\x28\xb5\x2f\xfd\x00\x38' + zst_raw(head), zst_raw(unit)
    if kind in ('lz4 blocks', 'lz4 summed blocks'):
        s = kind != 'lz4 blocks'
        b = lambda d: c.lz4_frame(d, csum=False, bsum=s)[7:-4]
        return c.lz4_frame(head, csum=False, bsum=s)[:-4], b(unit)
    if kind == 'lz4 frames':
        return c.lz4_frame(head), c.lz4_frame(unit)
    if kind == 'lz4 java':
        return c.lz4b(head, end=False)[0], c.lz4b(unit, end=False)[0]
    if kind == 'lzf':
        return c.lzf(head)[0], c.lzf(unit)[0]
    raise KeyError(kind)


KINDS = ['plain', 'gz flush', 'gz stored', 'gz members', 'zst frames', 'zst blocks', 'lz4 blocks', 'lz4 summed blocks', 'lz4 frames', 'lz4 java', 'lzf']
SUFFIX = {'p': '', 'g': '.gz', 'z': '.zst', 'l': '.lz4'}


def suffix(kind):
    return '.lzf' if kind == 'lzf' else SUFFIX[kind[0]]


class Inp:
    def __init__(self, r, kind, fmt, size, k, unit_ts=None, pre_rows=0, file=False, tag='', varied=False):
        """size: bytes of rows in a unit, k: rows that will be read"""
        short, varied = varied, varied or kind == 'plain' and unit_ts is None and not pre_rows and r.random() < 0.7
        head, rows, n, self.csvlen, self.dclen, vary = contents(r, fmt, size, unit_ts, varied, short)
        m = max(1, size // n)
        head += b''.join(rows(pre_rows, 10))
        pre, unit = flat(head, b''.join(rows(m)), kind)
        self.x = {'skip': pre_rows, 'hdr': len(head), 'len': n, 'm': 1, 'pre': len(pre), 'unit': n} if kind == 'plain' else \
            {'skip': pre_rows, 'hdr': len(head), 'len': n, 'm': m, 'pre': len(pre), 'unit': len(unit)}
        self.m, self.kind, self.fmt = m, kind, fmt
        # names that say everything, something, or nothing
        full = fmt and '.' + fmt + suffix(kind)
        name, f = r.choice([('x' + full, ''), ('x' + full, ''), ('data', ''), ('y', full), ('y', full[1:]), ('x' + suffix(kind), '')]) if not file else ('x' + full, '')
        limit = self.may(k) + 2 * RAW + (1 << 20)
        self.rec = {'pre': pre.hex(), 'unit': unit.hex(), 'post': '', 'row': n, 'vary': vary, 'limit': limit, 'piece': r.choice([1 << 20, 65536, 8192, 4096, 1000, 333]), 'name': tag + name, 'fmt': f, 'file': file, 'files': 0}
        self.n = n

    def may(self, n):
        x = self.x
        d = x['hdr'] + max(0, n + AHEAD - x['skip']) * x['len'] + DEC
        return x['pre'] + -(-(d - x['hdr']) // (x['m'] * x['len'])) * x['unit'] + RAW

    def due(self, sent):
        """the first row that does not have to be there yet"""
        lo, hi = 0, 1 << 28
        while lo < hi:
            mid = (lo + hi) // 2
            if self.may(mid) > sent:
                hi = mid
            else:
                lo = mid + 1
        return lo


def sc(mode, inputs, take, **k):
    s = {'op': 'stream', 'mode': mode, 'inputs': [i.rec for i in inputs], 'take': take, 'every': max(1, take // 12), 'chains': [], 'begin': None, 'end': None,
         'gates': [], 'framing': '', 'argv': [], 'outfile': '', 'label': ' + '.join('%s %s' % (i.fmt, i.kind) for i in inputs),
         'x': [i.x for i in inputs], 'seen': True, 'live': len(inputs), 'settled': take // 4, 'outlen': 1, 'behind': 0, 'ends': 'enough', 'total': take}
    s.update(k)
    return s


def sizes(r):
    return r.choice([1, 300, 4000, 4000, 20000, 60000])


def limit_rows(i, dec, raw=1 << 28):
    """so many rows that their bytes, and those of the packed input, do not become too many"""
    return max(200, min(dec // i.n, i.due(raw)))


def make(r, kind, fmt, dec, **k):
    size = sizes(r)
    i = Inp(r, kind, fmt, size, 0, **k)
    n = limit_rows(i, dec, 24 << 20)
    i.rec['limit'] = i.may(n) + 2 * RAW + (1 << 20)
    return i, n


def g_c29(ctx):
    r, q, out = ctx.rnd, ctx.quick, []
    dec = (3 << 20) if q else (16 << 20)
    # row by row, everything that can be streamed
    for kind in KINDS:
        for fmt in ('csv', 'dc'):
            for _ in range(1 if q else 6):
                i, n = make(r, kind, fmt, dec)
                out.append(sc('rows', [i], n))
    # graphs with outputs, several inputs, filters in between
    for t in range(16 if q else 100):
        k = r.choice([1, 1, 2, 3, 5])
        fmt = r.choice(['csv', 'dc'])
        if t % 4 == 0:
            # many short rows, no two alike
            k = t // 4 % 3 + 1
            fmt = ('csv', 'dc')[t // 4 % 2]
            ins = [make(r, 'plain', fmt, 2 * dec, tag='i%d' % j, varied=True) for j in range(k)]
        else:
            ins = [make(r, r.choice(KINDS), fmt, dec // 2, tag='i%d' % j) for j in range(k)]
        n = min(x for _, x in ins)
        ins = [x for x, _ in ins]
        filt = []
        if r.random() < 0.4:
            col = {'csv': 's', 'dc': 's'}[fmt]
            filt = [r.choice([{'k': 'del', 'col': cs(col)}, {'k': 'eq', 'col': cs(col), 'val': ['T', r.randrange(1, 3), 0]}])]
        ext = r.choice(['csv', 'dc'])
        sink = [{'k': 'file', 'name': 'o.' + ext, 'cfg': cfg()}] if r.random() < 0.8 else []
        if k == 1:
            chains = [[{'k': 'count', 'i': 1}] + filt + sink]
        else:
            chains = [[{'k': 'count', 'i': j + 1}] + filt + [{'k': 'merge', 'to': k + 1}] for j in range(k)] + [[{'k': 'msink', 'x': k}] + sink]
        outlen = 0 if filt else min(i.csvlen if ext == 'csv' else i.dclen for i in ins)
        out.append(sc('drive', ins, n, chains=chains, outlen=outlen))
    # the end of the range is the end of reading
    for _ in range(8 if q else 40):
        k = r.choice([1, 2, 3])
        fmt = r.choice(['csv', 'dc'])
        pre = [r.choice([0, 1, 5, 300]) for _ in range(k)]
        ins = []
        for j in range(k):
            i = Inp(r, r.choice(KINDS), fmt, sizes(r), 0, unit_ts=99, pre_rows=pre[j], tag='i%d' % j)
            i.rec['limit'] = i.may(0) + 2 * RAW + (1 << 20)
            # the rows of the first part are part of what is called header here
            i.stop = pre[j]
            ins.append(i)
        chains = [[{'k': 'count', 'i': j + 1}] + [{'k': 'merge', 'to': k + 1}] for j in range(k)] + [[{'k': 'msink', 'x': k}]] if k > 1 else [[{'k': 'count', 'i': 1}]]
        s = sc('drive', ins, 1 << 30, chains=chains, end=50, ends='ok', total=sum(pre), settled=1 << 30)
        s['every'] = 50
        out.append(s)
    # directories of many files
    for _ in range(4 if q else 10):
        # what is cut off there is complete
        kind, fmt = r.choice(['plain', 'gz members', 'zst frames', 'lz4 frames', 'lz4 java', 'lzf']), r.choice(['csv', 'dc'])
        i = Inp(r, kind, fmt, r.choice([300, 4000]), 0)
        files = 400 if q else 3000
        units = r.choice([1, 2])
        i.rec.update(name='x.' + fmt + suffix(kind), fmt='', files=files, limit=i.x['pre'] + units * len(i.rec['unit']) // 2)
        n = files * units * i.m
        out.append(sc('dir', [i], 1 << 30, seen=False, live=2, ends='ok', total=n, settled=n // 4, every=max(1, n // 12)))
    # local files
    for kind in (r.sample(KINDS, 4) if q else KINDS):
        fmt = r.choice(['csv', 'dc'])
        i, n = make(r, kind, fmt, 2 * dec, file=True)
        out.append(sc('file', [i], n, seen=False))
    for m in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2):
        fmt = r.choice(['csv', 'dc'])
        i = Inp(r, 'plain', fmt, 4000, 0, file=True)
        i.rec['vary'] = []
        copies = max(2 * dec, 10 << 20) // (i.m * i.n)
        d = bytes.fromhex(i.rec['pre']) + bytes.fromhex(i.rec['unit']) * copies
        b = c.zips([('inner.' + fmt, d)], m, level=1)[0]
        if m == zipfile.ZIP_STORED:
            # the contents as they are between what is in front of them and behind
            at, u = b.index(d), bytes.fromhex(i.rec['unit'])
            head = len(bytes.fromhex(i.rec['pre']))
            i.rec.update(pre=b[:at + head].hex(), unit=u.hex(), post=b[at + len(d):].hex(), limit=len(b), name='x.zip')
        else:
            i.rec.update(pre=b.hex(), unit='00', limit=len(b), name='x.zip')
        out.append(sc('file', [i], i.m * copies, seen=False, label='zip %d of %s' % (m, fmt)))
    # held back by a server, or at the standard input of the tool
    for what in (['http'] * 6 + ['cli'] * 8 if q else ['http'] * 33 + ['cli'] * 44):
        kind, fmt = r.choice(KINDS), r.choice(['csv', 'dc'])
        i = Inp(r, kind, fmt, sizes(r), 0)
        gates = sorted(r.sample([300000, 450000, 700000, 1000000, 1500000], r.choice([1, 2, 3])))
        if i.may(0) > gates[-1]:
            continue
        if i.rec['piece'] < 4096:
            i.rec['piece'] = 4096
        i.rec['limit'] = gates[-1] + 10
        ext = r.choice(['', 'csv', 'dc'])
        outlen = 1 if what == 'http' else i.dclen if ext == 'dc' else i.csvlen
        behind = 0 if what == 'http' else OUT
        gs = [{'sent': g, 'out': max(0, i.due(g) * outlen - behind)} for g in gates]
        f = r.choice(['length', 'chunked', 'close']) if what == 'http' or r.random() < 0.4 else ''
        argv = ['--epoch', '--csv-in-epoch', 'ns', '--csv-in-ts-col', '0', '--csv-in-has-header', 'yes', '--csv-in-delimiter', ',']
        if f:
            argv.append('http://127.0.0.1:PORT/' + i.rec['name'])
        if i.rec['fmt'] or not f:
            argv += ['-f', i.rec['fmt'] or r.choice(['auto', '.' + fmt + suffix(kind)])]
        if ext:
            argv += ['-o', 'o.' + ext]
        out.append(sc(what, [i], 1, gates=gs, framing=f, argv=argv, outfile='o.' + ext if ext else '', outlen=outlen, behind=behind, ends='ok'))
    return out


def cs(s):
    return [ord(x) for x in s]


def cfg():
    return {'delim': cs(','), 'print': True, 'name': [], 'style': 'epoch', 'unit': 'ns', 'zone': 'none'}


def view(rec):
    s = rec['sc']
    v = {k: s[k] for k in ('x', 'seen', 'live', 'settled', 'outlen', 'behind', 'ends', 'total', 'label')}
    v['gates'] = len(s['gates'])
    return {'sc': v, 'ev': [{k: x for k, x in e.items() if k != 'msg'} for e in rec['ev']]}


def check(ctx):
    ctx.design('StreamDesign', 'StreamDesign.cfg' if ctx.quick else 'StreamDesignT.cfg', workers=4, min_states=40000,
               what='buffers around an unpacking of whole units, all piece sizes, held back anywhere')
    recs = ctx.execute(g_c29(ctx), hang_s=120)
    ctx.validate('StreamTrace', recs, what='recorded reads of inputs without an end', view=view)
    return ctx.finish(assumptions=['at most 128 KiB of packed and 128 KiB of unpacked input, and 128 KiB of output, wait in buffers; no more than 4 MiB of memory are held altogether',
                                   'an input held back for 20 seconds is not going to be read any further'])
