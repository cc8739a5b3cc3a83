"""C26: which transport and which reader an input gets (spec/Detect.tla)."""
import itertools, zipfile
import containers as c
import f_dc


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & (2**64 - 1)
    return '%016x' % h


def layer(kind, b, entry='', is_='', pay=''):
    return {'kind': kind, 'b': list(b[:8192]), 'entry': list(entry.encode()), 'h': fnv(b), 'is': is_, 'pay': pay}


class Gen:
    def __init__(self, ctx):
        self.r, self.q, self.n, self.out = ctx.rnd, ctx.quick, 0, []

    def base(self, kind):
        """contents: (bytes, layer)"""
        self.n += 1
        r, pay = self.r, str(self.n)
        if kind == 'csv':
            b = r.choice([b't,ccol\n1,%d\n', b't,ccol\r\n1,%d\r\n', b't,ccol\n1,%d']) % self.n
            return b, layer('raw', b, is_='csv', pay=pay)
        if kind == 'dc':
            b = bytes(f_dc.encode({'n': [list(b'dcol')], 't': 'I'}, [{'ts': [0] * 7 + [1], 'v': [['I', list(self.n.to_bytes(4, 'big'))]]}]))
            return b, layer('raw', b, is_='dc', pay=pay)
        if kind.startswith('near'):
            # text with a byte that differs from the signature of the binary format
            i = int(kind[4:])
            sig = bytearray.fromhex('00000000444341540002')
            sig[i] = r.choice([x for x in (0, 1, 2, 3, 65, 68, 67, 84, 127) if x != sig[i]])
            b = bytes(sig) + b',t,ccol\n5,1,%d\n' % self.n
            return b, layer('raw', b, is_='csv', pay=pay)
        if kind.startswith('tiny'):
            pay = '7' * int(kind[4:])
            b = r.choice([b'ccol\n%s', b'ccol\n%s\n']) % pay.encode()
            return b, layer('raw', b, is_='csv', pay=pay)
        if kind == 'late':
            # not text behind what is looked at
            b = b't,ccol\n' + b'1,%d\n' % self.n * 1700 + b'\xff\xfe\n'
            return b, layer('raw', b, is_='other')
        b = {'empty': b'',
             'words': b'some text\nmore of it\n',
             'nul': b'\0\0\0\0',
             'cut dc': bytes.fromhex('0000000044434154') + b'\0',
             'old dc': bytes.fromhex('00000000444341540001') + b'abc',
             'odd dc': bytes.fromhex('00000001444341540002') + b'abc',
             'only dc': bytes.fromhex('00000000444341540002'),
             'binary': b'\xff\xfe\xfd%d\n\x80' % self.n,
             'half': b't,ccol\n1,\xc3\n2,3\n',
             'late': b'',
             '1f8b': b'\x1f\x8b', 'gz2': b'\x1f\x8b\x07\0abc\n', 'lz4x': b'\x04"M\x19abc\n', 'lz4b': b'LZ4B', 'lz4bl': b'LZ4Bloc\n',
             'lz4blk': b'LZ4Block', 'zv2': b'ZV\2a\n', 'zv': b'ZV\0', 'zstd': b'\x28\xb5\x2f\xfc\n', 'pk': b'PK\3', 'pk12': b'PK\1\2', 'pk78': b'PK\7\x08\n',
             'one': b'x', 'two': b'x\n', 'three': b'a\nb', 'newline': b'\n', 'bom': b'\xef\xbb\xbf',
             'bz': b'BZh91AY&SY\n'}[kind]
        return b, layer('raw', b, is_='other')

    BASES = ['csv', 'dc', 'empty', 'words', 'nul', 'cut dc', 'old dc', 'odd dc', 'only dc', 'binary', 'half', 'late', '1f8b', 'gz2', 'lz4x', 'lz4b', 'lz4bl',
             'lz4blk', 'zv2', 'zv', 'zstd', 'pk', 'pk12', 'pk78', 'bz',
             'one', 'two', 'three', 'newline', 'bom'] + ['near%d' % i for i in range(10)] + ['tiny%d' % i for i in range(1, 8)]
    PACK = ['gz', 'lz4', 'lz4b', 'lzf', 'zst', 'zip', 'zip0']

    def contents(self, base=None, packs=None):
        r = self.r
        if base is None:
            base = r.choice(['csv', 'dc']) if r.random() < 0.7 else r.choice(self.BASES)
        if packs is None:
            packs = [r.choice(self.PACK) for _ in range(r.choice([0, 0, 0, 1, 1, 1, 2]))]
        b, l = self.base(base)
        ls = [l]
        for p in packs:
            b, kind, entry = self.pack(b, p)
            if kind == 'badzip':
                ls = [layer(kind, b, entry)]
            else:
                ls = [layer(kind, b, entry)] + ls
        return b, ls

    def pack(self, b, p):
        r = self.r
        if p == 'gz':
            return c.gz(b)[0], 'gz', ''
        if p == 'lz4':
            return c.lz4(b)[0], 'lz4', ''
        if p == 'lz4b':
            return c.lz4b(b)[0], 'lz4', ''
        if p == 'lzf':
            # without any chunk there is nothing to be recognised
            return (c.lzf(b)[0] if b else b'ZV\0\0\0'), 'lzf', ''
        if p == 'zst':
            return c.zst(b)[0], 'zst', ''
        e = r.choice(NAMES)
        if p == 'zip':
            return c.zips([(r.choice(['', 'sub/']) + e, b)])[0], 'zip', e
        return c.zips(r.choice([[], [(e, b), ('other', b)]]))[0], 'badzip', ''

    def input(self, path, contents, fmt=None, exists=True, stdin=False, dir=False):
        b, ls = contents
        return {'stdin': stdin, 'path': list(path.encode()), 'exists': exists, 'layers': ls, 'auto': fmt is None,
                'fmt': list((fmt or '').encode()), 'file': b.hex(), 'dir': dir, 'more': []}

    def directory(self, names, contents, fmt=None):
        """files of a directory, in order of their names"""
        names = sorted(names, key=lambda x: x.encode())
        n = self.input(names[0], contents[0], fmt, dir=True)
        n['more'] = [{'path': list(p.encode()), 'layers': ls, 'file': b.hex()} for p, (b, ls) in zip(names[1:], contents[1:])]
        return n

    def user(self, suffix='', magic=b'', any=False, fail=False):
        return {'suffix': list(suffix.encode()), 'magic': list(magic), 'any': any, 'fail': fail}

    def tran(self, prefix, contents, fail=False):
        b, ls = contents
        return {'prefix': list(prefix.encode()), 'fail': fail, 'layers': ls, 'file': b.hex(), 'piece': self.r.choice([1, 3, 8192, 100000])}

    def add(self, inputs, users=(), trans=(), csv=True):
        self.out.append({'op': 'detect', 'setup': {'users': list(users), 'trans': list(trans), 'csv': csv}, 'inputs': inputs,
                         'none': self.r.random() < 0.5, 'plain': self.r.random() < 0.5, 'pipe': self.r.choice([0, 1, 7, 4096, 1 << 20])})

    def some_user(self):
        r = self.r
        return self.user(r.choice(['', '.u', '.csv', '.dc', 'csv', '.gz', 'x', '.u.csv', '']),
                         r.choice([b'', b't,', b'\0\0\0\0DCAT', b'\x1f\x8b', b'PK', b'\xff', b's', b'']), r.random() < 0.1, r.random() < 0.1)


NAMES = ['x.csv', 'x.dc', 'x', 'x.csv.gz', 'x.dc.zst', 'x.csv.lz4', 'x.dc.lzf', 'x.gz', 'x.zip', 'x.csv.zip', 'x.gz.csv', 'x.CSV', 'x.Gz', '.csv', '.dc', '.gz',
         'csv', 'x.csvx', 'x.dc.csv', 'x.csv.dc', 'x.csv.gz.gz', 'x.csv.bz2', 'x.tar.gz', 'x.u', 'x.u.zst', 'x.', 'x.csv.', '\u00fc.csv', '\u00fc', 'x y.csv',
         'x.zst.lz4', 'x.csv~', 'x.xdc', 'x.xcsv', 'x.dcx']
FORMATS = ['csv', '.csv', 'dc', '.dc', 'csv.gz', '.dc.zst', 'gz', '.zip', 'csv.zip', '.dc.zip', 'zip', 'dc.lzf', '.csv.lz4', 'a.csv', 'x', '', '.', 'CSV', 'u', '.u',
           'u.gz', 'csv.gz.gz', '.csv.', 'csv.gz.zip', 'AUTO', '..csv', 'txt', 'dc.gz', 'csv.zst', '.gz.zip']
VIRTUAL = ['mem:x.csv', 'mem:a/b/x.csv.gz', 'mem:x.dc/', 'mem:a/..', 'mem:x', 'mem:x.zip', 'm/x.csv', 'mem:x.csv/.', 'mem:x.u']
NOWHERE = ['nothing.csv', 'nothing/x.csv', 'http://127.0.0.1:9/x.csv', 'ftp://x/x.csv', 'file:///x.csv', '', '-', 'nothing']


def universe(ctx):
    g = Gen(ctx)
    r, q = g.r, g.q
    # every name with every kind of contents, every format with every kind of contents
    kinds = [(b, p) for b in ('csv', 'dc', 'words', 'empty', 'binary') for p in ([], ['gz'], ['lz4'], ['lz4b'], ['lzf'], ['zst'], ['zip'], ['zip0'])]
    both = [('name', n, k) for n in NAMES for k in kinds] + [('fmt', f, k) for f in FORMATS for k in kinds]
    if q:
        both = r.sample(both, 1100)
    todo = []
    for what, x, (b, p) in both:
        if what == 'name':
            todo.append(g.input(x, g.contents(b, p), dir=r.random() < 0.15))
        else:
            todo.append(g.input(r.choice(['x', 'x', 'x.csv', 'x.dc.gz', 'x.u', 'y.zip']), g.contents(b, p), x, dir=r.random() < 0.1))
    # every odd beginning
    for b in g.BASES:
        for n in ('x', 'x.csv', 'x.dc', 'x.gz'):
            todo.append(g.input(n, g.contents(b, [])))
        for p in g.PACK[:6]:
            todo.append(g.input('x', g.contents(b, [p])))
    # directories of several files
    for _ in range(400 if q else 8000):
        k = r.choice([2, 2, 3, 4])
        names = r.sample(NAMES, k) if r.random() < 0.5 else r.sample([n for n in NAMES if not n.endswith(('z', 'lz4', 'lzf', 'zst', 'zip'))], k)
        base = r.choice(['csv', 'csv', 'dc'])
        packs = [[]] * k if r.random() < 0.6 else [r.choice([[], [r.choice(g.PACK[:6])]]) for _ in range(k)]
        fmt = r.choice([None, None, base, '.' + base, base, base, r.choice(FORMATS)])
        kinds = [base if r.random() < 0.97 else r.choice(['csv', 'dc', 'empty', 'binary']) for _ in range(k)]
        todo.append(g.directory(names, [g.contents(b, p) for b, p in zip(kinds, packs)], fmt))
    r.shuffle(todo)
    while todo:
        k = min(len(todo), r.choice([1, 2, 3, 5]))
        g.add(todo[:k], csv=r.random() < 0.85)
        todo = todo[k:]
    # standard input
    for b in g.BASES:
        for p in [[]] + [[x] for x in g.PACK]:
            for f in [None, r.choice(FORMATS)]:
                if not q or r.random() < 0.25 or (p == [] and f is None):
                    us = [g.some_user() for _ in range(r.choice([0, 0, 1]))]
                    g.add([g.input('', g.contents(b, p), f, exists=False, stdin=True)], us, csv=r.random() < 0.85)
    # users' handlers
    for _ in range(500 if q else 20000):
        us = [g.some_user() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        ts = [g.tran(r.choice(['mem:', 'mem:', 'm', '', 'mem:a']), g.contents(), r.random() < 0.15) for _ in range(r.choice([0, 1, 1, 2]))]
        ins = []
        for _ in range(r.choice([1, 1, 2, 3])):
            f = r.choice(FORMATS) if r.random() < 0.35 else None
            k = r.random()
            if k < 0.5:
                ins.append(g.input(r.choice(NAMES), g.contents(), f, dir=r.random() < 0.1))
            elif k < 0.9 and ts:
                ins.append(g.input(r.choice(VIRTUAL), g.contents('csv', []), f, exists=False))
            else:
                ins.append(g.input(r.choice(NOWHERE + VIRTUAL), g.contents('csv', []), f, exists=False))
        g.add(ins, us, ts, csv=r.random() < 0.8)
    return g.out


def view(rec):
    """without what the specification does not look at"""
    s = rec['sc']
    strip = lambda d: {k: v for k, v in d.items() if k != 'file'}
    setup = dict(s['setup'])
    setup['trans'] = [strip(t) for t in setup['trans']]
    inputs = [dict(strip(i), more=[strip(m) for m in i['more']]) for i in s['inputs']]
    return {'sc': {'setup': setup, 'inputs': inputs}, 'ev': rec['ev']}


def check(ctx):
    scs = universe(ctx)
    ctx.design('DetectDesign', 'DetectDesign.cfg' if ctx.quick else 'DetectDesignT.cfg', workers=8, min_states=50000,
               what='every decision in small worlds against what it should come to')
    recs = ctx.execute(scs)
    ctx.validate('DetectTrace', recs, what='inputs and who read them', view=view)
    return ctx.finish(assumptions=['file names are valid UTF-8', 'readers tell themselves by the columns of the contents used here'])
