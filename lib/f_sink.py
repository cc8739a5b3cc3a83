"""C07: the outputs of the repository with destinations that take only so many bytes (spec/Output.tla)."""
import struct
import f_out
from f_csv import cs

PACK = {'B': '>B', 'C': '>H', 'S': '>h', 'I': '>i', 'J': '>q'}


def val(r, t, big):
    if r.random() < 0.15:
        return {'k': 'N', 'b': []}
    if t == 'T':
        s = 'x' * r.choice(big) if big and r.random() < 0.6 else r.choice(f_out.STRS)
        return {'k': 'T', 't': cs(s), 'b': list(s.encode())}
    v = f_out.whole(r, t)
    n = int(''.join(map(str, v['d']))) * (-1 if v['neg'] else 1)
    v['b'] = list(struct.pack(PACK[t], n))
    return v


class Gen:
    def __init__(self, ctx):
        self.r, self.out = ctx.rnd, []

    def table(self, cols, rows, big=()):
        r = self.r
        t = [r.choice('TTJIBCS') for _ in range(cols)]
        rs, ts = [], 0
        for _ in range(rows):
            ts = r.randrange(ts, 2**63)
            rs.append({'ts': f_out.dig(ts), 'tb': list(struct.pack('>Q', ts)), 'v': [val(r, x, big) for x in t]})
        return {'names': [cs(r.choice(['a', 'b', 'time', 'x y', '\u00e9', 'long name', ','])) for _ in t], 'types': t, 'rows': rs}

    def sink(self, fmt=None, to='file'):
        r = self.r
        k = {'fmt': fmt or r.choice(['csv', 'dc']), 'to': to}
        if k['fmt'] == 'csv':
            k['cfg'] = {'delim': cs(r.choice([',', ',', ';', '::', '\u20ac'])), 'print': r.random() < 0.7, 'name': r.choice([[], [cs('t')]]), 'style': 'epoch',
                        'unit': r.choice(['s', 'ms', 'us', 'ns']), 'zone': 'none'}
        return k

    def add(self, table, sinks, cap, drive=None, flush=()):
        drive = self.r.random() < 0.7 if drive is None else drive
        if len(sinks) > 1:
            drive = True
        self.out.append(dict(table, op='dest', sinks=sinks, cap=cap, drive=drive, flush=[] if drive else list(flush)))


def scenarios(ctx):
    g, r, q = Gen(ctx), ctx.rnd, ctx.quick
    # every size of small files
    for fmt in ('csv', 'dc'):
        for cols, rows in ((0, 0), (1, 1), (2, 2)) if q else ((0, 0), (0, 2), (1, 0), (1, 1), (2, 1), (2, 2), (1, 4), (3, 3)):
            t = g.table(cols, rows)
            for cap in range(-1, 110, r.choice([1, 2]) if q else 1):
                g.add(t, [g.sink(fmt)], cap, drive=cap % 4 != 0, flush=[i for i in range(rows) if r.random() < 0.5])
    # full devices, pipes nobody reads
    for fmt in ('csv', 'dc'):
        for to in ('full', 'pipe'):
            for n in range(4):
                g.add(g.table(2, n), [g.sink(fmt, to)], -1)
                g.add(g.table(2, n), [g.sink(fmt, to)], -1, drive=False, flush=[r.randrange(n + 1)])
            # more than what is held back
            for n in (2, 3, 5):
                g.add(g.table(1, n, [4000, 8191, 9000]), [g.sink(fmt, to)], -1, flush=[r.randrange(n)])
    # several outputs in one chain, one of them fails
    for _ in range(40 if q else 600):
        sinks = [g.sink() for _ in range(r.choice([2, 2, 3]))]
        cap = r.choice([-1, -1, r.randrange(200)])
        if r.random() < 0.5:
            r.choice(sinks)['to'] = r.choice(['full', 'pipe'])
        g.add(g.table(r.randrange(4), r.randrange(5)), sinks, cap)
    # files larger than the buffers, texts larger than them
    for _ in range(24 if q else 300):
        big = r.choice([[], [4000, 5000], [8190, 8191, 8192, 8193, 9000], [20000], [32767, 32768]])
        n = r.choice([2, 3, 5]) if big else r.choice([300, 500])
        t = g.table(r.choice([1, 2]), n, big)
        size = sum(30 + sum(len(v['b']) for v in x['v']) for x in t['rows'])
        for fmt in ('csv', 'dc'):
            for cap in [r.choice([-1, size * 2]), r.randrange(size + 1), r.choice([0, 8191, 8192, 8193, 16384, size - r.randrange(60)])]:
                g.add(t, [g.sink(fmt)], cap, flush=[r.randrange(n)])
    return g.out


def check(ctx):
    ctx.design('OutputDesign', 'OutputDesign.cfg' if ctx.quick else 'OutputDesignT.cfg', workers=4, min_states=10000,
               what='buffered writer in front of a file that fills up, in lock step with Output.tla')
    recs = ctx.execute(scenarios(ctx), 'dest')
    ctx.validate('OutputTrace', recs, what='recorded runs of the csv and binary outputs into files that fill up')
