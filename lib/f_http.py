"""C28: remote inputs (spec/Http.tla)."""
import f_dc, f_detect
from f_cli import layer

PORT = 'PPPPP'      # the harness puts its port there
NAMES = ['/x.csv', '/x.csv', '/x.dc', '/x', '/', '', '/a/b/x.csv', '/x.csv?day=1', '/x?f=y.csv', '/x.csv/', '/a.b/x', '/x%20y.csv', '/x.csv;v=1', '/?q', '/d/x.dc?a=b&c=/z.csv']
PACKS = {'gz': 'gz', 'lz4': 'lz4', 'lz4b': 'lz4', 'lzf': 'lzf', 'zst': 'zst'}
REASON = ['OK', 'Fine', '', 'Not Found', 'a b c', None]


class Gen:
    def __init__(self, ctx):
        self.r, self.out = ctx.rnd, []
        self.packer = f_detect.Gen(ctx)

    # -------------------------------------------------------------- contents
    def csv(self, n):
        r = self.r
        text = 't,ccol' + ',more' * r.randrange(2) + '\n'
        k = text.count(',') - 1
        t = r.randrange(10)
        for i in range(n):
            t += r.choice([0, 1, 1000])
            text += '%d,%s%s\n' % (t, r.choice(['a', 'r%d' % i, '', '"x,y"', '\u00e9\u20ac', '0\r', '"1\r\n"'][:5]), ',0' * k)
        return text.encode()

    def dc(self, n):
        r = self.r
        types = r.choice(['J', 'IT', 'T', 'SJ', ''])
        t, rows = 5, []
        for _ in range(n):
            t += r.choice([0, 1, 1000])
            rows.append({'ts': list(t.to_bytes(8, 'big')), 'v': [f_dc.val(r, x) for x in types]})
        return bytes(f_dc.encode({'n': [list(b'c%d' % i) for i in range(len(types))], 't': list(types)}, rows))

    def contents(self, big=False):
        """-> bytes, layers, kind"""
        r = self.r
        kind = r.choice(['csv', 'csv', 'dc'])
        n = r.choice([0, 1, 2, 3, 8])
        if big:
            b = self.csv(0) if False else (b't,ccol\n' + b''.join(b'%d,%s\n' % (i, bytes([97 + i % 26]) * 700) for i in range(r.choice([11, 12, 13, 25]))) if kind == 'csv' else self.dc(r.choice([600, 1300])))
        else:
            b = self.csv(n) if kind == 'csv' else self.dc(n)
        ls = [layer('raw', b)]
        if not big and r.random() < 0.3:
            p = r.choice(list(PACKS) + ['zip'])
            b, k, entry = self.packer.pack(b, p)
            ls = [layer(k, b, entry)] + ls
            kind += '.' + PACKS.get(p, 'zip')
        return b, ls, kind

    # --------------------------------------------------------------- messages
    def head(self, status, fields, v='1.1'):
        r = self.r
        reason = r.choice(REASON)
        first = 'HTTP/%s %d' % (v, status) + ('' if reason is None else ' ' + reason)
        fields = list(fields)
        if r.random() < 0.4:
            fields.append((r.choice(['Server', 'X-Length', 'Date', 'X-Transfer-Encoding', 'Content-Type', 'ETag']), r.choice(['x', '5', 'chunked', 'text/csv; charset=utf-8', '"a:b"'])))
        r.shuffle(fields)
        lines = []
        for k, x in fields:
            lines.append(r.choice([k, k, k.lower(), k.upper()]) + ':' + r.choice([' ', ' ', '', '  ']) + x + r.choice(['', '', ' ']))
        return ('\r\n'.join([first] + lines) + '\r\n\r\n').encode()

    def chunked(self, b, sizes=None):
        """-> bytes, places where data of chunks begin and end"""
        r = self.r
        style = r.choice(['%x', '%X', '%04x', '%x;a=b', '%x ;x="y z"', '%x'])
        out, spans, i = b'', [], 0
        while i < len(b):
            k = r.choice(sizes or [1, 2, 10, 100, len(b)])
            c = b[i:i + k]
            i += len(c)
            out += (style % len(c)).encode() + b'\r\n'
            spans.append((len(out), len(out) + len(c)))
            out += c + b'\r\n'
        return out + (style.split(';')[0].strip() % 0).encode() + b'\r\n', spans

    def answer(self, target, b, ls, status=200, frame=None, sizes=None, fault=None):
        """fault: None, 'head', 'body', 'edge', 'reset', 'known'"""
        r = self.r
        frame = frame or r.choice(['length', 'length', 'chunked', 'chunked', 'none'])
        v = '1.1'
        fields = []
        end = r.choice(['close', 'close', 'keep'])
        if frame == 'chunked':
            fields.append(('Transfer-Encoding', 'chunked'))
            if r.random() < 0.1:
                # does not count
                fields.append(('Content-Length', str(r.choice([0, 1, len(b) * 2 + 1]))))
            body, spans = self.chunked(b, sizes)
            body += (b'X-Sum: 1\r\n' if r.random() < 0.1 else b'') + b'\r\n'
        else:
            v = r.choice(['1.1', '1.1', '1.1', '1.0'])
            if frame == 'length':
                fields.append(('Content-Length', str(len(b)) if r.random() < 0.9 else '%07d' % len(b)))
            body, spans = b, []
        if r.random() < 0.35 or frame == 'none':
            fields.append(('Connection', r.choice(['close', 'Close', 'keep-alive'])))
        if frame == 'none' and end == 'keep':
            end = 'close'
        h = self.head(status, fields, v)
        sent = h + body
        if fault is None:
            if frame == 'length' and r.random() < 0.2:
                # what follows does not belong to it
                sent += r.choice([b'\n', b'HTTP/1.1 500 No\r\n\r\n', b'9,9\n9,9\n', b'\0' * 20])
        elif fault == 'head':
            sent = sent[:r.choice([0, 1, 8, len(h) - 1, len(h) - 2, len(h) - 3, r.randrange(len(h))])]
            end = 'close'
        elif fault in ('body', 'edge', 'reset', 'known'):
            end = 'reset' if fault == 'reset' else 'close'
            if frame != 'none':
                cuts = range(len(h), len(sent))
                if frame == 'chunked':
                    inside = {x + len(h) for s, e in spans for x in range(s, e)}
                    if fault == 'known':
                        cuts = sorted(inside)
                    elif fault != 'reset':
                        cuts = [x for x in cuts if x not in inside]
                if fault == 'edge':
                    at = [len(h), len(sent) - 1, len(sent) - 2] + [len(h) + s for s, e in spans] + [len(h) + e for s, e in spans] + [len(h) + e + 1 for s, e in spans] + [len(h) + e + 2 for s, e in spans]
                    cuts = [x for x in cuts if x in at] or cuts
                if cuts:
                    sent = sent[:r.choice(list(cuts))]
        return self.message(target, sent, end, ls)

    def message(self, target, sent, end, ls=()):
        r = self.r
        segs, i = [], 0
        how = r.choice(['one', 'few', 'few', 'bytes', 'lines'])
        if how == 'one' or len(sent) > 3000:
            k = [len(sent)] if how != 'bytes' else [1000]
        elif how == 'few':
            k = [1, 7, 50, 300]
        elif how == 'bytes':
            k = [1]
        else:
            k = None
        while i < len(sent):
            n = (sent.find(b'\n', i) + 1 or len(sent)) - i if k is None else max(1, r.choice(k))
            segs.append(sent[i:i + n].hex())
            i += n
        pause = r.choice([0, 0, 1, 3]) if len(segs) < 12 else 0
        ls = list(ls) or [layer('raw', b'')]
        return {'target': list(target.encode()), 'sent': list(sent), 'segs': segs, 'pause': pause, 'end': end, 'layers': ls}

    def add(self, url, answers, fmt=None, refuse=False, **more):
        self.out.append({'op': 'http', 'url': list(url.encode()), 'auto': fmt is None, 'fmt': list((fmt or '').encode()), 'refuse': refuse, 'answers': answers, **more})

    def url(self, path):
        return 'http://127.0.0.1:' + PORT + path

    def place(self, kind):
        """a path and a format that fit most of the time"""
        r = self.r
        x = r.random()
        if x < 0.55:
            path = '/' + r.choice(['', 'a/', 'd.csv/']) + 'x.' + kind
        else:
            path = r.choice(NAMES)
        fmt = None
        if r.random() < 0.3 or (x >= 0.55 and '.' in kind and r.random() < 0.4):
            fmt = r.choice([kind, '.' + kind, kind, r.choice(['csv', 'dc', 'gz', 'x', ''])])
        return path, fmt

    def one(self, big=False, **kw):
        b, ls, kind = self.contents(big)
        path, fmt = self.place(kind)
        self.add(self.url(path), [self.answer(path or '/', b, ls, **kw)], fmt)

    def redirects(self):
        r = self.r
        n = r.choice([1, 1, 2, 4, 5, 6, 8])
        b, ls, kind = self.contents()
        path, fmt = self.place(kind)
        path = path or '/'
        hops = [path] + ['/h%d%s' % (i, r.choice(['', '.dc', '?x=1'])) for i in range(n)]
        if r.random() < 0.15:
            hops[-1] = path      # around and around
        out, seen = [], set()
        for i, p in enumerate(hops[:-1]):
            code = r.choice([301, 302, 303, 307, 308])
            loc = hops[i + 1] if r.random() < 0.6 else self.url(hops[i + 1])
            fields = [('Location', loc), ('Content-Length', '4')]
            missing = r.random() < 0.08
            if missing:
                fields = fields[1:]
            sent = self.head(code, fields) + r.choice([b'gone', b'gone', b'go'])
            out.append(self.message(p, sent, 'close'))
        if hops[-1] != path:
            out.append(self.answer(hops[-1], b, ls, status=r.choice([200, 200, 200, 404, 500]), fault=r.choice([None, None, None, 'edge'])))
        self.add(self.url(path), out, fmt)


STATUS = [200, 201, 202, 203, 206, 299, 300, 301, 302, 304, 305, 399, 400, 401, 403, 404, 408, 410, 429, 451, 499, 500, 502, 503, 504, 599]


def universe(ctx):
    g = Gen(ctx)
    r, q = g.r, ctx.quick
    n = 1 if q else 15
    for _ in range(200 * n):
        g.one()
    for frame in ('length', 'chunked', 'none'):
        for s in STATUS:
            for _ in range(1 if q else 4):
                g.one(frame=frame, status=s)
    # no contents
    for f in ([], [('Connection', 'close')], [('Content-Length', '0')]):
        g.add(g.url('/x.csv'), [g.message('/x.csv', g.head(204, f), 'close')])
        g.add(g.url('/x'), [g.message('/x', g.head(204, f), 'close')], 'dc')
    for _ in range(40 * n):
        g.one(fault='head')
    for _ in range(60 * n):
        g.one(fault='body')
        g.one(fault='edge')
    for _ in range(30 * n):
        g.one(fault='reset')
        g.redirects()
    # every cut of one small response of each framing
    for frame, close in (('length', False), ('length', True), ('chunked', False)):
        b = b't,ccol\n1,a\n2,b\n'
        ls = [layer('raw', b)]
        f = [('Connection', 'close')] if close else []
        if frame == 'length':
            h = g.head(200, f + [('Content-Length', str(len(b)))])
            m, inside = h + b, set()
        else:
            h = g.head(200, f + [('Transfer-Encoding', 'chunked')])
            c, spans = g.chunked(b, [5])
            m = h + c + b'\r\n'
            inside = {len(h) + x for s, e in spans for x in range(s, e)}
        for k in range(len(m) + 1):
            if k not in inside and (k >= len(h) - 4 or r.random() < 0.2):
                g.add(g.url('/x.csv'), [g.message('/x.csv', m[:k], 'close', ls)])
    # larger than every buffer
    for _ in range(6 * n):
        for kw in ({}, {'frame': 'length', 'fault': 'body'}, {'frame': 'chunked', 'fault': 'edge', 'sizes': [500, 4096, 8192]}, {'frame': 'chunked', 'sizes': [4096, 8191, 8192, 8193]}):
            g.one(big=True, **kw)
    # nobody there, or nothing to be asked
    b, ls, _ = g.contents()
    for _ in range(3):
        g.add(g.url('/x.csv'), [], refuse=True)
    g.add(g.url('/x.csv'), [g.answer('/y.csv', b, ls)])
    for u in ('HTTP://127.0.0.1:' + PORT + '/x.csv', 'htp://127.0.0.1:' + PORT + '/x.csv', '127.0.0.1:' + PORT + '/x.csv'):
        g.add(u, [g.answer('/x.csv', b, ls)])
    # not an answer at all
    for m in (b'', b'\r\n\r\n', b'hello\r\n\r\n', b'HTTP/1.1\r\n\r\n', b'HTTP/1.1 abc OK\r\n\r\nt\n', b'220 ftp ready\r\n', b'\0' * 50, b'HTTP/1.1 200 OK\r\nA: b\r\n'):
        g.add(g.url('/x.csv'), [g.message('/x.csv', m, 'close')])
    # chunks that are none
    for m in (b'zz\r\nabc\r\n0\r\n\r\n', b'\r\n0\r\n\r\n', b'3\r\nabcd\r\n0\r\n\r\n', b'3\nabc\r\n0\r\n\r\n', b'-1\r\na\r\n0\r\n\r\n', b't,ccol\n1,a\n'):
        g.add(g.url('/x.csv'), [g.message('/x.csv', g.head(200, [('Transfer-Encoding', 'chunked')]) + m, 'close', [layer('raw', b'abc')])])
    # ended inside of a chunk
    b = b't,ccol\n1,a\n2,b\n'
    h = g.head(200, [('Transfer-Encoding', 'chunked')])
    for cut in (11, 7):
        m = h + b'f\r\n' + b[:cut]
        g.add(g.url('/x.csv'), [g.message('/x.csv', m, 'close', [layer('raw', b)])], known='chunk-cut')
    return g.out


def view(rec):
    s = rec['sc']
    return {'sc': {k: ([{x: y for x, y in a.items() if x not in ('segs', 'pause')} for a in v] if k == 'answers' else v) for k, v in s.items()},
            'ev': [{k: v for k, v in e.items() if k != 'msg'} for e in rec['ev']]}


def check(ctx):
    scs = universe(ctx)
    ctx.design('HttpDesign', 'HttpDesign.cfg' if ctx.quick else 'HttpDesignT.cfg', workers=8, min_states=100000,
               what='every cut of every framing of contents up to %d bytes, taken in pieces' % (3 if ctx.quick else 5))
    recs = ctx.execute(scs, hang_s=60)
    ok = sum(any(e['e'] == 'end' and e['r'] == 'ok' for e in r['ev'][:-1]) for r in recs)
    ctx.log('%d of %d inputs were read completely' % (ok, len(recs)))
    ctx.validate('HttpTrace', recs, what='remote inputs', view=view)
    return ctx.finish(assumptions=['http only (no https server here); servers that neither send nor close are not waited for'])
