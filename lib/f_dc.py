"""C15, C16: the binary format (spec/DcFormat.tla)."""
import itertools, struct

W = {'B': 1, 'C': 2, 'D': 8, 'F': 4, 'I': 4, 'J': 8, 'S': 2}
TN = {'T': b'Ljava.lang.String;', 'U': b'Ljava.lang.ByteBuffer;'}
SUP = 'BCDFIJST'


def by(s):
    return list(s.encode() if isinstance(s, str) else s)


SPECIAL = [b'\0' * 8, b'\xff' * 8, b'\x7f' + b'\xff' * 7, b'\x80' + b'\0' * 7, b'\x7f\xf0' + b'\0' * 6, b'\x7f\xf8' + b'\0' * 5 + b'\x01',
           b'\x7f\x80\0\0\0\0\0\0', b'\0' * 7 + b'\x01', b'\0\0\0\x01\0\0\0\0', b'\x7f\xf0\0\0\0\0\0\x01', b'\xff\xc0\0\x01\0\0\0\0']


def val(r, t, null=0.2):
    if r.random() < null:
        return ['N', []]
    if t == 'T':
        s = r.choice(['', 'a', 'xyz', '\u00e9\u4e2d\U0001f600', '\n', 'null', '\0', 'a' * r.randrange(0, 40)])
        return ['T', by(s)]
    if t == 'Z':
        return ['Z', [1]]
    if t == 'U':
        return ['U', [1, 2]]
    b = r.choice(SPECIAL)[:W[t]] if r.random() < 0.5 else bytes(r.randrange(256) for _ in range(W[t]))
    return [t, list(b)]


def ts(r):
    return list(r.choice([b'\0' * 8, b'\xff' * 8, struct.pack('>Q', r.randrange(1 << 64)), struct.pack('>Q', r.randrange(1 << 32))]))


def table(r, t, nrows, null=0.2, names=None):
    n = names or [r.choice(['a', 'b', 'col_1', '', 'x y', '\u00e9', 'long name ' * 3, ',']) for _ in t]
    return {'n': [by(x) for x in n], 't': list(t)}, [{'ts': ts(r), 'v': [val(r, x, null) for x in t]} for _ in range(nrows)]


def w(h, rows, name='x.dc', flush=-1):
    return {'op': 'dcw', 'name': name, 'h': h, 'rows': rows, 'flush': flush}


def encode(h, rows, user=b'', hints=None):
    """example files to be damaged; the specification has its own encoder"""
    o = struct.pack('>QHI', 0x44434154, 2, len(user)) + user + struct.pack('>I', len(h['n']))
    for i, (n, t) in enumerate(zip(h['n'], h['t'])):
        tn = TN.get(t, t.encode())
        o += struct.pack('>I', len(n)) + bytes(n) + struct.pack('>I', len(tn)) + tn + struct.pack('>i', hints[i] if hints else -1)
    for r in rows:
        o += bytes(r['ts'])
        bits = bytearray((len(r['v']) + 7) // 8)
        for i, v in enumerate(r['v']):
            if v[0] == 'N':
                bits[i // 8] |= 1 << (i % 8)
        o += bytes(bits)
        for v in r['v']:
            if v[0] == 'T':
                o += (struct.pack('>H', len(v[1])) if len(v[1]) <= 32767 else b'\xff\xff' + struct.pack('>I', len(v[1]))) + bytes(v[1])
            else:
                o += bytes(v[1])
    return o


def sample(r, k):
    h, rows = table(r, 'JTD', k)
    return bytes(encode(h, rows))


def rd(data, via='feed', fail=-1, plan=()):
    return {'op': 'dcr', 'data': list(data), 'via': via, 'fail': fail, 'plan': list(plan)}


def g_c15(ctx):
    r, out = ctx.rnd, []
    q = ctx.quick
    # every type, alone and in pairs, with every pattern of nulls
    for k in (0, 1, 2, 3):
        for t in itertools.product(SUP, repeat=k):
            if k == 3 and r.random() > (0.15 if q else 1):
                continue
            h, _ = table(r, t, 0)
            rows = []
            for pat in itertools.product((0, 1), repeat=k):
                rows.append({'ts': ts(r), 'v': [['N', []] if p else val(r, x, 0) for p, x in zip(pat, t)]})
            r.shuffle(rows)
            out.append(w(h, rows if k else [{'ts': ts(r), 'v': []}] * r.randrange(0, 4), name=r.choice(['x.dc', 'y', 'z.bin'])))
    # column counts across bytes of the null set, nulls at every place
    for n in list(range(4, 35)) + ([64, 65, 130] if q else list(range(35, 140)) + [255, 256, 257, 1000]):
        t = [r.choice(SUP) for _ in range(n)]
        h, rows = table(r, t, 2, names=['c%d' % i for i in range(n)])
        rows.append({'ts': ts(r), 'v': [['N', []]] * n})
        rows.append({'ts': ts(r), 'v': [val(r, x, 0) for x in t]})
        for _ in range(3):
            i = r.randrange(n)
            rows.append({'ts': ts(r), 'v': [['N', []] if j == i else val(r, x, 0) for j, x in enumerate(t)]})
            rows.append({'ts': ts(r), 'v': [['N', []] if j != i else val(r, x, 0) for j, x in enumerate(t)]})
        out.append(w(h, rows))
    # string lengths across the change of encoding
    for n in (1, 127, 128, 255, 256, 32766, 32767, 32768, 65534, 65535, 65536) + (() if q else (40000, 70000, 200000)):
        h, _ = table(r, 'TB', 0)
        s = [r.choice([97, 98])] * n
        out.append(w(h, [{'ts': ts(r), 'v': [['T', s], ['B', [7]]]}, {'ts': ts(r), 'v': [['T', [120]], ['N', []]]}]))
    out.append(w(table(r, 'T', 0)[0], [{'ts': ts(r), 'v': [['T', by('\u00e9' * 16384)]]}, {'ts': ts(r), 'v': [['T', []]]}]))
    # every character at the ends of a text, short or long; names too
    ODD = [chr(i) for i in range(33)] + ['\x7f', '\x80', '\u00a0', '\ufeff', '\ufffd', '\u2028', '\U0010ffff', '"', "'", '\\', ',', '#', '\0\0\0\0', '\r\n', 'null', '\\N', '\ufffe', 'e\u0301']
    for k, c in enumerate(ODD):
        forms = [c, c + 'a', 'a' + c, c * 3, 'a' + c + 'a', c + 'a' + c]
        rows = [{'ts': ts(r), 'v': [['T', by(f)], ['T', by(r.choice(forms))]]} for f in forms]
        out.append(w(table(r, 'TT', 0, names=[r.choice(forms), r.choice(forms)])[0], rows))
        for n in (32767, 32768) if not q or k < 6 or k % 4 == 0 else (32768,):
            m = len(c.encode())
            f = r.choice(['a' * (n - m) + c, c + 'a' * (n - m), c + 'a' * (n - 2 * m) + c])
            out.append(w(table(r, 'TB', 0)[0], [{'ts': ts(r), 'v': [['T', by(f)], ['B', [k]]]}]))
    # long names
    out.append(w(*table(r, 'IJ', 1, names=['n' * 300, '\u4e2d' * 200])))
    for n in (255, 256, 32767, 32768, 65535, 65536, 70000):
        out.append(w(*table(r, 'BI', 2, names=['n' * n, 'm'])))
        out.append(w(*table(r, 'TB', 2, names=['', 'n' * n])))
    # more than the buffers hold
    for n in (700, 2000):
        h, rows = table(r, 'JTDS', n)
        out.append(w(h, rows, flush=r.choice([-1, 0, 5])))
    for _ in range(120 if q else 3000):
        h, rows = table(r, [r.choice(SUP) for _ in range(r.randrange(0, 12))], r.randrange(0, 9), r.choice([0, 0.2, 0.8]))
        out.append(w(h, rows, flush=r.randrange(-1, 9), name=r.choice(['x.dc', 'noext'])))
    # types the format cannot hold
    for _ in range(30):
        t = [r.choice(SUP + 'ZU') for _ in range(r.randrange(1, 4))]
        t[r.randrange(len(t))] = r.choice('ZU')
        out.append(w(*table(r, t, 1)))
    # files of other writers: user data, display hints
    for _ in range(60 if q else 600):
        t = [r.choice(SUP) for _ in range(r.randrange(0, 10))]
        h, rows = table(r, t, r.randrange(0, 5))
        out.append(rd(encode(h, rows, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 300, 9000]))), [r.randrange(-1, 7) for _ in t]),
                      via=r.choice(['feed', 'file']), plan=r.choice([[], [1], [3, 0], [100, 8192], [8192], [8191, 1]])))
    return out


def g_c16(ctx):
    r, out = ctx.rnd, []
    q = ctx.quick
    shapes = [('J', 2), ('T', 2), ('', 2), ('TT', 1), ('DTS', 1), ('BBBBBBBB', 1), ('BBBBBBBBB', 1), ('CFI', 1), ('J', 0), ('', 0)]
    if not q:
        shapes += [('JTDS' * 5, 2), ('T' * 17, 2)]
    for t, n in shapes:
        h, rows = table(r, t, n, null=0.1, names=['k%d' % i for i in range(len(t))])
        d = encode(h, rows, b'xy' if t == 'T' else b'')
        # cut at every byte; the input fails at every byte; the last byte more than once
        for k in range(len(d) + 1):
            out.append(rd(d[:k], via='file'))
            out.append(rd(d, fail=k, plan=r.choice([[], [1], [2, 0], [5]])))
            if r.random() < 0.3:
                out.append(rd(d[:k], plan=r.choice([[1], [0, 1], [3]])))
        # every byte damaged
        for k in range(len(d)):
            for x in (1, 0x80, 0xff) if not q else (r.choice([1, 2, 0x10, 0x40, 0x80, 0xff]),):
                e = bytearray(d)
                e[k] ^= x
                out.append(rd(e, via=r.choice(['feed', 'file'])))
        out.append(rd(d + b'\0'))
        out.append(rd(d + d))
    # column types and hints
    h, rows = table(r, 'JT', 2, null=0)
    for tn in ('', 'Z', 'Ljava.lang.ByteBuffer;', 'X', 'Ljava.lang.String', 'JJ', 'j', '\u00e9', 'V', 'Ljava.lang.String;;'):
        for pos in (0, 1):
            hh = {'n': h['n'], 't': list(h['t'])}
            TN['?'] = tn.encode()
            hh['t'][pos] = '?'
            out.append(rd(encode(hh, rows)))
            rows2 = [{'ts': x['ts'], 'v': [['N', []] if i == pos else v for i, v in enumerate(x['v'])]} for x in rows]
            out.append(rd(encode(hh, rows2), via='file'))
            out.append(rd(encode(hh, rows2 + rows)))
    for hint in (-2, -1, 0, 6, 7, 100, 2**31 - 1, -2**31):
        out.append(rd(encode(h, rows, hints=[hint, -1])))
        out.append(rd(encode(h, rows, hints=[-1, hint])))
    # version and signature
    d = encode(h, rows)
    for v in (0, 1, 3, 0x200, 0xffff, 0x102):
        out.append(rd(d[:8] + struct.pack('>H', v) + d[10:], via='feed'))
    for m in (b'TACD\0\0\0\0', b'\0' * 8, b'\1\0\0\0DCAT', b'\0\0\0\0dcat', b'\0\0\0\0DCAU'):
        out.append(rd(m + d[8:]))
    # sizes far beyond the file
    for pos in (10, 14, 18):
        for b in (b'\xff\xff\xff\xff', b'\x7f\xff\xff\xff', b'\x80\0\0\0', b'\0\x01\0\0', b'\x10\0\0\0'):
            out.append(rd(d[:pos] + b + d[pos + 4:]))
    # string lengths in rows
    ht = {'n': [by('s')], 't': ['T']}
    p = encode(ht, [])
    row = b'\0' * 7 + b'\x05' + b'\0'
    good = row + b'\0\2ok'
    for ln in (b'\0\0', b'\0\1', b'\0\2', b'\0\3', b'\x7f\xff', b'\x80\0', b'\xff\xfe', b'\x90\x10', b'\xff\xff', b'\xff\xff\0\0\0\2', b'\xff\xff\0\0\0\3',
               b'\xff\xff\xff\xff\xff\xff', b'\xff\xff\x80\0\0\0', b'\xff\xff\0\0\x80\0', b'\xff'):
        for body in (b'', b'a', b'ab', b'ab' + good, b'\xc3', b'\xff\xff'):
            out.append(rd(p + good + row + ln + body, via=r.choice(['feed', 'file'])))
    # bits of the null set behind the last column
    for t in ('J', 'BBB', 'BBBBBBBBB', ''):
        h2, rows2 = table(r, t, 1, null=0)
        e = bytearray(encode(h2, rows2))
        k = len(encode(h2, [])) + 8
        if t:
            e[k + (len(t) - 1) // 8] |= 0x100 - (1 << ((len(t) - 1) % 8 + 1)) & 0xff
        out.append(rd(e))
    # deep into longer files: cuts around the buffer sizes
    h3, rows3 = table(r, 'JTB', 420, null=0.1)
    d3 = encode(h3, rows3)
    for k in [8191, 8192, 8193] + r.sample(range(len(d3)), 4 if q else 60):
        if k <= len(d3):
            out.append(rd(d3[:k], via='file'))
            out.append(rd(d3, fail=k, plan=[r.choice([1000, 8192, 4096])]))
    return out


def check(ctx):
    scs = {'C15': g_c15, 'C16': g_c16}[ctx.prop](ctx)
    ctx.design('DcDesign', 'DcDesign.cfg' if ctx.quick else 'DcDesignT.cfg', workers=8, min_states=5000,
               what='writer and reader of small tables, cut or failing at every byte')
    recs = ctx.execute(scs)
    ctx.validate('DcTrace', recs, what='recorded writes and reads of binary files')
    return ctx.finish(assumptions=['rows have exactly the types of their header'])
