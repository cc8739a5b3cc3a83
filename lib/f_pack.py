"""C23, C24: compressed and packaged inputs (spec/Container.tla)."""
import random, zipfile, zlib, struct
import containers as c
import f_dc

SUFFIX = {'gz': '.gz', 'zst': '.zst', 'lz4': '.lz4', 'lz4b': '.lz4', 'lzf': '.lzf', 'zip': '.zip'}


def csv(r, size, kind='mixed'):
    out, t, n = [b't,u,v\n'], 0, 6
    while n < size:
        t += r.randrange(1, 1000)
        k = r.randrange(4) if kind == 'mixed' else {'rep': 0, 'rnd': 2}[kind]
        w = [b'a' * r.randrange(30), b'the same words', bytes(r.choice(b'abcdefghijklmnopqrstuvwxyz0123456789ABCDEF') for _ in range(r.randrange(40))), b''][k]
        x = b'%d,%s,%d\n' % (t, w, r.randrange(10**r.randrange(1, 9)))
        out.append(x)
        n += len(x)
    return b''.join(out)


def scenario(kind, data, built, reads, ext, label):
    """reads: list of (what, name, fmt, extra); data and built are base 0 and 1"""
    b, parts, safe = built
    rs = []
    for what, name, fmt, x in reads:
        d = {'what': list(what), 'b': 0 if what[0] == 'plain' else 1, 'cut': -1, 'at': 0, 'xor': 0, 'over': '', 'name': name, 'fmt': fmt}
        if what[0] in ('plain', 'cut'):
            d['cut'] = what[1]
        if what[0] in ('flip', 'sum'):
            d['at'] = what[1]
            d['over' if isinstance(x, str) else 'xor'] = x
        rs.append(d)
    return {'op': 'pack', 'kind': kind, 'label': label, 'base': [data.hex(), b.hex()], 'parts': [{'c': x, 'p': y} for x, y in parts],
            'safe': safe, 'reads': rs}


def plains(parts, total, ext):
    return [(('plain', p), 'plain' + ext, '', 0) for p in sorted({y for _, y in parts} | {total})]


def names(kind, ext, inner='x'):
    s = SUFFIX[kind]
    out = [('x' + ext + s, ''), ('data', ''), ('x.bin', ''), ('y', ext + s), ('y', (ext + s)[1:]), ('y.dc.gz' if ext == '.csv' else 'y.csv.zst', ext + s), ('a.b' + ext + s, ''), ('x' + s, '')]
    return out


def variants(r, data, q):
    """everything a container can be, for this data"""
    n = len(data)
    cut1 = sorted({r.randrange(n + 1)})
    cut3 = sorted(r.randrange(n + 1) for _ in range(3))
    edge = sorted({min(n, x) for x in (0, 1, 8191, 8192, 65536)})
    small = n < 20000
    v = []
    A = lambda kind, built, label: v.append((kind, built, label))
    for lv in (0, 1, 6, 9) if not q or small else (0, 6):
        A('gz', c.gz(data, level=lv), 'gz level %d' % lv)
    A('gz', c.gz(data, name=b'some name.csv', comment=b'about', extra=b'ab\4\0xxxx', hcrc=True), 'gz all header fields')
    A('gz', c.gz(data, strategy=zlib.Z_FIXED), 'gz fixed codes')
    A('gz', c.gz(data, strategy=zlib.Z_HUFFMAN_ONLY), 'gz huffman only')
    A('gz', c.gz(data, flush=max(1, n // 7)), 'gz flushed')
    for cuts in (cut1, cut3, edge, [0], [n], [n // 2, n // 2]):
        A('gz', c.gz(data, cuts), 'gz members %s' % cuts)
    A('gz', c.gz(data, cut3, name=b'n', hcrc=True), 'gz members with names')
    for a in ([], ['-1'], ['-19'], ['--no-check'], ['--fast=3'], ['-3', '--single-thread'], ['--stream-size=%d' % n] if n else [], ['--long=20']) if not q or small else ([], ['--no-check'], ['-19']):
        A('zst', c.zst(data, args=a), 'zst %s' % a)
    for cuts in (cut1, cut3, edge, [0], [n]):
        A('zst', c.zst(data, cuts), 'zst frames %s' % cuts)
        A('zst', c.zst(data, cuts, args=['--no-check']), 'zst frames without checksums %s' % cuts)
    for s in (b'', b'12345', b'x' * 9000):
        A('zst', c.zst(data, cut1, skip=s), 'zst skippable frames of %d' % len(s))
    for ind in (True, False):
        for bsum in (False, True):
            for csum in (False, True):
                A('lz4', c.lz4(data, independent=ind, bsum=bsum, csum=csum, csize=r.random() < 0.5, bd=r.choice([4, 5, 6, 7])), 'lz4 %s %s %s' % (ind, bsum, csum))
    A('lz4', c.lz4(data, store=True), 'lz4 stored')
    A('lz4', c.lz4(data, independent=False, block=max(1, n // 5)), 'lz4 small linked blocks')
    A('lz4', c.lz4(data, block=max(1, n // 5), bsum=True), 'lz4 small blocks')
    for cuts in (cut1, cut3, edge, [0], [n]):
        A('lz4', c.lz4(data, cuts), 'lz4 frames %s' % cuts)
    A('lz4', c.lz4(data, cut1, skip=b'abc'), 'lz4 skippable frames')
    for b in (64, 1024, 65536):
        if n < 200 * b:
            A('lz4b', c.lz4b(data, b), 'lz4 java blocks of %d' % b)
            A('lz4b', c.lz4b(data, b, store=True), 'lz4 java stored blocks of %d' % b)
            A('lzf', c.lzf(data, b - 1), 'lzf chunks of %d' % (b - 1))
            A('lzf', c.lzf(data, b - 1, store=True), 'lzf stored chunks of %d' % (b - 1))
    return v


def zip_variants(r, data, ext, q):
    v = []
    f = [('inner' + ext, data)]
    for m in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2):
        v.append((c.zips(f, m), 'zip method %d' % m))
        v.append((c.zips(f, m, stream=True), 'zip streamed, method %d' % m))
        v.append((c.zips(f, m, zip64=True), 'zip 64, method %d' % m))
        v.append((c.zips([('sub dir/inner' + ext, data)], m, comment=b'a comment'), 'zip with comment, method %d' % m))
    v.append((c.zips(f, level=1), 'zip level 1'))
    v.append((c.zips([('\u00fcn\u00ef' + ext, data)]), 'zip, name in utf-8'))
    v.append((c.zips([('inner', data)]), 'zip, inner name without extension'))
    v.append((c.zips(f, extra=struct.pack('<HH4s', 0x7777, 4, b'abcd') + struct.pack('<HH', 0x7778, 0), fcomment=b'file comment'), 'zip with extra fields'))
    v.append((c.zips(f, extra=struct.pack('<HH', 0x7778, 0) * r.choice([3, 400, 700]), fcomment=r.choice([b'', b'\1\0\x18\0' + b'\xff' * 24])), 'zip with many empty extra fields'))
    v.append((c.zips(f, comment=b'PK\5\6' + b'x' * 10), 'zip, comment like a signature') if False else (c.zips(f, comment=b'x' * 60000), 'zip with a long comment'))
    big = r.choice([250, 32760, 32764, 40000, 65531])
    v.append((c.zips(f, extra=struct.pack('<HH', 0x7777, big) + bytes(r.randrange(256) for _ in range(big)), fcomment=b'c' * r.choice([0, 300, 32768, 65535])), 'zip with a large extra field'))
    v.append((c.zips([('n' * r.choice([255, 256, 32768, 65000]) + ext, data)]), 'zip with a long inner name'))
    v.append((c.zip64_full(b'inner' + ext.encode(), data), 'zip with 64 bit directory'))
    return v


def contents(ctx, sizes):
    r = ctx.rnd
    out = []
    for s in sizes:
        kind = r.choice(['mixed', 'rep', 'rnd'])
        out.append(('.csv', csv(r, s, kind)))
    return out


def g_c23(ctx):
    r, q, out = ctx.rnd, ctx.quick, []
    sizes = [0, 30, 500, 8180, 20000, 150000] if q else [0, 1, 30, 100, 500, 2000, 8100, 8180, 8191, 8192, 8193, 8200, 16384, 20000, 65530, 65536, 65541, 131072, 131080, 300000, 1100000]
    data = [('.csv', csv(r, s, k)) for s in sizes for k in (('mixed',) if q else ('mixed', 'rep', 'rnd'))]
    data += [('.csv', b'')] + [('.csv', csv(r, 700, 'rep')), ('.csv', csv(r, 9000, 'rnd'))]
    data += [('.dc', f_dc.sample(r, k)) for k in ([0, 3, 60, 4000] if q else [0, 1, 3, 60, 300, 1000, 4000, 20000])]
    for ext, d in data:
        for kind, built, label in variants(r, d, q):
            if d == b'' and kind in ('lzf',):
                continue
            ns = names(kind, ext)
            if 'skippable' in label:
                # their signature does not tell zstd and lz4 apart
                ns = [x for x in ns if SUFFIX[kind] in x[0] + x[1]]
            if q:
                ns = [ns[0]] + r.sample(ns[1:], 2)
            if not d:
                ns = [x for x in ns if ext in x[0] + x[1]]
            reads = plains([], len(d), ext) + [(('whole',), a, b, 0) for a, b in ns]
            out.append(scenario(kind, d, built, reads, ext, label))
        for built, label in zip_variants(r, d, ext, q):
            ns = [('x' + ext + '.zip', ''), ('data', ''), ('x.zip', ''), ('y', ext), ('y', ext + '.zip'), ('y', ext[1:] + '.zip'), ('y.gz', '')]
            if q:
                ns = [ns[0]] + r.sample(ns[1:], 3)
            if not d and 'without' in label:
                ns = [x for x in ns if ext in x[1]]
            reads = plains([], len(d), ext) + [(('whole',), a, b, 0) for a, b in ns]
            out.append(scenario('zip', d, built, reads, ext, label))
        # packaged twice
        if len(d) < 100000:
            inner = c.gz(d)[0]
            for built, label, name in ((c.zips([('inner%s.gz' % ext, inner)], zipfile.ZIP_STORED), 'gz in zip', 'x.zip'), (c.zips([('inner%s.zst' % ext, c.zst(d)[0])]), 'zst in zip', 'data')):
                reads = plains([], len(d), ext) + [(('whole',), name, '', 0)]
                b, _, safe = built
                out.append(scenario('zip', d, (b, [(len(b), len(d))], safe), reads, ext, label))
    # a stored block in front of linked ones
    for csum in (True, False):
        noise = random.Random(5)
        words = [bytes(noise.choice(b'abcdefghijklmnopqrstuvwxyz') for _ in range(30)) for _ in range(20)]
        d = b't,u,v\n' + b''.join(b'%d,%s,0\n' % (i, words[i % 20]) for i in range(60))
        s = scenario('lz4', d, c.lz4(d, independent=False, mixed=True, csum=csum, block=400), [(('plain', len(d)), 'p.csv', '', 0), (('whole',), 'x.csv.lz4', '', 0)], '.csv', 'lz4 linked, stored')
        s['known'] = 'lz4-linked-after-stored'
        out.append(s)
    # archives that do not hold exactly one file
    d = csv(r, 300)
    for files in ([], [('a.csv', d), ('b.csv', d)], [('a.csv', d), ('b/', b'')], [('b/', b''), ('a.csv', d)], [('a.csv', d)] * 3, [('f%d.csv' % i, d) for i in range(300)], [('b/', b'')] * 2):
        for m in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for k in ({}, {'stream': True}, {'comment': b'c' * 100}):
                    b, _, safe = c.zips(files, m, **k)
                    built = (b, [(len(b), len(d))], safe)
                    out.append(scenario('zip', d, built, [(('bad',), n, f, 0) for n, f in (('x.csv.zip', ''), ('x.zip', ''), ('data', ''), ('y', '.csv'))], '.csv', 'zip of %d' % len(files)))
    return out


def damage(ctx, ext, d, kind, built, label, flips, out):
    r = ctx.rnd
    b, parts, safe = built
    n = len(b)
    name = 'x' + ext + SUFFIX[kind]
    s = kind != 'zip' and r.random() < 0.3
    nm, fm = ('y', ext + SUFFIX[kind]) if s else (name, '')
    reads = plains(parts, len(d), ext)
    ks = range(n)
    if n > (500 if ctx.quick else 2500):
        near = {x + e for x, _ in parts for e in range(-40, 12)} | {8192 + e for e in range(-8, 9)} | {65536 + e for e in range(-8, 9)} | set(range(60))
        ks = near | {r.randrange(n) for _ in range(150)}
        if ctx.quick:
            ks = {r.randrange(n) for _ in range(30)} | {x + e for x, _ in parts for e in (-9, -8, -5, -4, -1, 0, 1, 2, 3, 4)} | set(r.sample(sorted(near), min(len(near), 60)))
        ks = sorted(k for k in ks if 0 <= k < n)
    reads += [(('cut', k), nm, fm, 0) for k in ks]
    if flips:
        fs = ks
        if kind == 'lz4b':
            fs = sorted(set(ks) & set(c.lz4b_checked(b)))
        reads += [(('flip', k), nm, fm, r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])) for k in fs]
        # checksums that are nothing but zeros or ones, or belong to something else
        sums = {x - e for x, _ in parts for e in (4, 8, 12)}
        must = {x - e for x, _ in parts for e in {'gz': (4, 8), 'zst': (4,), 'lz4': (4,)}.get(kind, ())} if label[-5:] != 'False' and 'skip' not in label else set()
        if kind == 'zip':
            must = {b.index(b'PK\1\2') + 16} if b.count(b'PK\1\2') == 1 else set()
            sums |= {i + e for sig, e in ((b'PK\1\2', 16), (b'PK\3\4', 14), (b'PK\7\x08', 4)) for i in range(n) if b[i:i + 4] == sig}
        if kind == 'lz4b':
            ok = set(c.lz4b_checked(b))
            sums = {k for k in ok if b[k - 17:k - 9] == b'LZ4Block'}
            four = sorted(k for k in ok if k + 3 in ok)
            sums = set(r.sample(sorted(sums), min(len(sums), 8)) + r.sample(four, min(len(four), 8)))
        for k in sorted(sums):
            if 0 <= k <= n - 4:
                for v in ('00000000', 'ffffffff', '%08x' % r.randrange(1 << 32)):
                    if v != b[k:k + 4].hex() and (v[0] == '0' or r.random() < 0.5):
                        reads.append((('sum' if k in must else 'flip', k), nm, fm, v))
    reads.append((('whole',), nm, fm, 0))
    out.append(scenario(kind, d, built, reads, ext, label))


def g_c24(ctx):
    r, q, out = ctx.rnd, ctx.quick, []
    data = [('.csv', csv(r, s, k)) for s, k in ([(40, 'rep'), (400, 'mixed'), (900, 'rnd'), (20000, 'rep'), (70000, 'rnd')] if q else
                                               [(40, 'rep'), (100, 'mixed'), (400, 'mixed'), (900, 'rnd'), (2000, 'rep'), (9000, 'rnd'), (20000, 'rep'), (70000, 'rnd'), (140000, 'rnd'), (300000, 'mixed')])]
    data += [('.dc', f_dc.sample(r, k)) for k in ([0, 5, 3000] if q else [0, 1, 5, 30, 300, 3000, 9000])]
    for ext, d in data:
        vs = variants(r, d, True)
        if q:
            vs = [x for x in vs if r.random() < (0.6 if len(d) < 1000 else 0.35)]
        for kind, built, label in vs:
            checked = kind in ('gz', 'lz4b') or (kind == 'zst' and 'no-check' not in label and 'without' not in label) or (kind == 'lz4' and checksummed(label))
            damage(ctx, ext, d, kind, built, label, checked, out)
        for built, label in zip_variants(r, d, ext, q):
            if q and r.random() > 0.5:
                continue
            damage(ctx, ext, d, 'zip', built, label, True, out)
    # changed compressed contents of lz4-java
    d = b't,u,v\n' + b''.join(b'%d,the same words,0\n' % i for i in range(9))
    b = c.lz4b(d)
    for at in (21, 45, len(b[0]) - 30):
        s = scenario('lz4b', d, b, [(('plain', len(d)), 'p.csv', '', 0), (('flip', at), 'x.csv.lz4', '', 16)], '.csv', 'lz4 java, contents changed')
        if at == 21:
            s['known'] = 'lz4-java-changed-contents'
        out.append(s)
    return out


def checksummed(label):
    # "lz4 independent blocksum contentsum"; everything else has a sum of the contents
    w = label.split()
    return w[-1] == 'True' if w[1] in ('True', 'False') else True


def check(ctx):
    scs = {'C23': g_c23, 'C24': g_c24}[ctx.prop](ctx)
    if ctx.prop == 'C24':
        ctx.design('FrameDesign', 'FrameDesign.cfg' if ctx.quick else 'FrameDesignT.cfg', what='every cut and every changed token of checksummed frames', min_states=20000)
        ctx.design('FrameDesign', 'FrameDesignU.cfg', what='every cut of frames without checksums', min_states=20000)
    recs = ctx.execute(scs, hang_s=60)
    n = sum(len(s['reads']) for s in scs)
    ctx.validate('ContainerTrace', recs, what='%d recorded reads of packaged inputs' % n, view=view)
    return ctx.finish(assumptions=ASSUME[ctx.prop], extra={'reads': n})


def view(rec):
    """what the specification needs to know"""
    s = rec['sc']
    return {'sc': {'parts': s['parts'], 'safe': s['safe'], 'reads': [x['what'] for x in s['reads']]},
            'ev': [{k: v for k, v in e.items() if k != 'msg'} for e in rec['ev']]}


ASSUME = {
    'C23': ['python zlib, bz2, zipfile and the zstd command write correct files; lz4 and lzf writers of lib/containers.py follow their formats',
            'a skippable frame at the very beginning is only read if name or format say what it is (the signature is that of zstd and of lz4)'],
    'C24': ['one damaged place per input', 'lzf and lz4-java streams may end behind any chunk or block; lz4-java: only contents and their checksums are changed, the headers have none'],
}
