"""C13, C14: buffered reading and previews (spec/BufReader.tla)."""
import itertools

ALPHA = [97, 10, 13, 0xC3, 0xA9]


def rnd_ops(r, size, cap, n):
    out = []
    some = [0, 1, 2, 3, cap - 1, cap, cap + 1, 2 * cap, size]
    for _ in range(n):
        k = r.random()
        if k < 0.3:
            out.append(['read', r.choice(some)])
        elif k < 0.37:
            out.append(['vec', r.choice(some), r.choice(some)])
        elif k < 0.52:
            out.append(['fill', 0])
        elif k < 0.72:
            if r.random() < 0.8:
                out.append(['fill', 0])
            out.append(['cons', r.choice([0, 1, 2, cap])])
        elif k < 0.82:
            out.append(['line', 0])
        elif k < 0.92:
            out.append([r.choice(['exact', 'some']), r.choice(some)])
        else:
            out.append([r.choice(['all', 'copy', 'text', 'textline']), 0])
    return [[o] + [max(0, x) for x in ns] for o, *ns in out]


def rnd_plan(r, size, errs, sizes=(1, 2, 3, 5, 100, 1000, 4096, 8191, 8192, 8193)):
    k = r.random()
    if k < 0.2:
        p = [1 << 20]
    elif k < 0.4:
        p = [r.choice(sizes)]
    else:
        p = [r.choice(sizes) for _ in range(r.randrange(1, 8))]
    if errs:
        p = p[:]
        for _ in range(r.choice([1, 1, 2, 3])):
            p.insert(r.randrange(0, len(p) + 1), r.choice([0, -1]))
        p.append(r.choice(sizes))
    return p


def sc(data, plan, ops, prev=False, cap=4):
    return {'op': 'buf', 'data': list(data), 'plan': plan, 'ops': ops, 'prev': prev, 'cap': cap}


def big(r, n):
    x = bytearray(r.choice([b'abcdefgh,\n', b'0123456789', b'x,y\r\n'])[0:1] * 0)
    unit = r.choice([b'abcdefgh,\n', b'0123456789', b'x,y\r\n', b'long line without end '])
    while len(x) < n:
        x += unit
        if r.random() < 0.02:
            x += bytes([r.randrange(32, 127)])
    return bytes(x[:n])


def g_c13(ctx):
    r, out = ctx.rnd, []
    data = [1, 2, 3, 10, 5, 6, 10]
    # all short sequences of operations on a small buffer
    acts = [['read', 1], ['read', 2], ['read', 3], ['read', 5], ['fill', 0], ['cons', 1], ['cons', 2], ['line', 0]]
    for ops in itertools.product(acts, repeat=3):
        for plan in ([1], [2], [9]):
            if ctx.quick and r.random() > 0.55:
                continue
            out.append(sc(data[:r.randrange(0, 8)], plan, list(ops) + [['all', 0]], cap=r.choice([1, 2, 3, 4])))
    for _ in range(1100 if ctx.quick else 25000):
        n = r.randrange(0, 40)
        cap = r.choice([1, 2, 3, 5, 8, 16])
        errs = r.random() < 0.4
        d = [r.choice([10, 13, 65, 66, 255, 0] if r.random() < 0.7 else [10, 13, 65, 66]) for _ in range(n)]
        if r.random() < 0.2:
            d = list('a\u20ac\xe9\n\U0001f600z\r\n'.encode() * 4)[:n]
        out.append(sc(d, rnd_plan(r, n, errs, [1, 2, 3, cap, cap + 1, 50]),
                      rnd_ops(r, n, cap, r.randrange(3, 14)) + r.choice([[], [['all', 0], ['all', 0]]]), cap=cap))
    # each way of reading over every kind of interruption and failure, with the buffer in every state
    for op in (['read', 5], ['vec', 2, 3], ['vec', 0, 9], ['exact', 5], ['exact', 9], ['some', 5], ['some', 99], ['line', 0], ['all', 0],
               ['copy', 0], ['text', 0], ['textline', 0], ['fill', 0]):
        for bad in (0, -1):
            for plan in ([bad, 2], [1, bad, 2], [2, bad, bad, 1], [3, 3, bad, 50], [50, bad, 1]):
                for first in ([], [['read', 1]], [['fill', 0], ['cons', 1]]):
                    if ctx.quick and r.random() > 0.5:
                        continue
                    d = b'abc\xc3\xa9f\nhij\n'[:r.choice([3, 4, 12])]
                    out.append(sc(d, plan, first + [op, op, ['read', 3], ['all', 0]], cap=r.choice([2, 3, 4, 8])))
    # reading on behind a preview
    for _ in range(60 if ctx.quick else 800):
        n = r.choice([0, 1, 10, 100, 8191, 8192, 8193, 8200, 9000, 16384, 16385])
        errs = r.random() < 0.3
        out.append(sc(big(r, n), rnd_plan(r, n, errs), rnd_ops(r, n, 8192, r.randrange(1, 6)) + [['all', 0]], prev=True))
    for n in (8192, 8193, 20000):
        out.append(sc(big(r, n), [5000], [['line', 0]] * 4 + [['read', 8192], ['read', 3], ['read', 100000], ['all', 0]], prev=True))
        out.append(sc(big(r, n), [8192, 1], [['fill', 0], ['cons', 8000], ['fill', 0], ['cons', 192], ['fill', 0], ['all', 0]], prev=True))
    # failures during and right behind the preview
    for k in (1, 2, 3):
        for plan in ([0, 5], [3, 0, 5], [3, 5, 0, 1], [8192, 0, 5], [8191, 0, 1, 1]):
            out.append(sc(big(r, 8192 if plan[0] > 100 else 8), plan, [['read', 5]] * 4, prev=True))
            out.append(sc(big(r, 9000), plan + [9000], [['read', 9000], ['read', 9000], ['read', 9000]], prev=True))
    return out


def g_c14(ctx):
    r, out = ctx.rnd, []
    for n in range(0, 5 if ctx.quick else 7):
        for d in itertools.product(ALPHA, repeat=n):
            if n >= 5 and r.random() > 0.2:
                continue
            out.append(sc(d, [r.choice([1, 2, 9])], [['all', 0]], prev=True))
    # UTF-8 sequences, valid and not
    bits = [b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xff', b'\xe0\x80\x80',
            b'\xf0\x80\x80\x80', b'\xef\xbf\xbf', b'\xee\x80\x80', b'\xed\x9f\xbf', b'\xf4\x8f\xbf\xbf', b'\x80', b'\xc3', b'\xe2\x82', b'\x00', b'\xdf\xbf']
    for x in bits:
        for y in bits + [b'']:
            for pat in (b'%s%s', b'a\n%s%s\nb', b'%s\n%s', b'a%s\r\n%sb\r\n'):
                if ctx.quick and r.random() > 0.35:
                    continue
                out.append(sc(pat % (x, y), [r.choice([1, 3, 50])], [['all', 0]], prev=True))
    # characters that someone might take for something special
    odd = ['\ufeff', '\x00', '\x1a', '\x0b', '\x0c', '\x85', '\u2028', '\u2029', '\xa0', '\u200b', ' ', '\t', '"', '\\', '#', '\x7f', '\x1b', '\ufffd', '\r']
    for x in odd:
        for y in odd + ['']:
            for pat in ('%s%s', '%sa%s\nb%s\n', 'a\n%s%s\nb', '%s\n%s\n%s', 'a%s\r\n%sb\r\n%s'):
                if r.random() < (0.3 if ctx.quick else 1):
                    k = pat.count('%')
                    out.append(sc((pat % (x, y, r.choice(odd))[:k]).encode(), [r.choice([1, 3, 50])], [['all', 0]], prev=True))
    # around the size of the buffer
    tails = [b'', b'\n', b'\r\n', b'x', b'xy\n', b'\xc3\xa9', b'\xc3\xa9\n', b'\xff', b'\xff\n', b'\n\n', b'\r', b'\nabc', b'\na\r']
    for n in (8188, 8190, 8191, 8192, 8193) if ctx.quick else range(8185, 8196):
        for tail in tails:
            if ctx.quick and r.random() > 0.6:
                continue
            head = r.choice([b'', b'h1,h2\n', b'h1,h2\r\n', b'\n'])
            d = head + b'z' * (n - len(head) - len(tail)) + tail
            more = r.choice([b'', b'', b'more\n', b'\xff'])
            out.append(sc(d + more, rnd_plan(r, n, False), [['all', 0]], prev=True))
    for n in (20000,):
        out.append(sc(big(r, n), [4000], [['all', 0]], prev=True))
    return out


def check(ctx):
    scs = {'C13': g_c13, 'C14': g_c14}[ctx.prop](ctx)
    ctx.design('BufImpl', 'BufImpl.cfg', workers=4, min_states=1000,
               what='buffered reader with 3 bytes of buffer over all inputs up to 6 bytes, all piece sizes, 2 failures')
    recs = ctx.execute(scs)
    ctx.validate('BufReaderTrace', recs, what='recorded operations on the real reader')
    return ctx.finish()
