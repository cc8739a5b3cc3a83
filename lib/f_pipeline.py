"""C01-C10: scenarios for the processing pipeline (spec/Pipeline.tla)."""
import itertools

NAMES = ['a', 'A', 'b', 'aB', 'x1', 'value', 'VALUE', 'c d', '\u00e9', '\u00c9', '[', '{']
U64 = [0, 1, 2, 999999999, 10**9, 10**18, 2**31, 2**32, 2**53, 2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1]


def cs(s):
    return [ord(c) for c in s]


def J(x):
    return ['J', x, 0]


def rec(s, werr=-1, ferr=-1):
    return {'k': 'rec', 's': s, 'werr': werr, 'ferr': ferr}


def nd(k, **kw):
    d = {'k': k}
    d.update(kw)
    return d


class Sc:
    """builder for one scenario"""

    def __init__(self, rnd, cols=None):
        self.rnd = rnd
        self.twins = rnd.choice([0, 0, 0.3])
        self.org = 0
        self.cols = cols or [{'n': cs('code'), 't': 'J'}, {'n': cs('org'), 't': 'J'}]
        self.sources = []
        self.maxrank = 0

    def source(self, tss, extra=None, cols=None, fail=-1):
        rows = []
        for k, t in enumerate(tss):
            if k and t == tss[k - 1] and self.rnd.random() < self.twins:
                # a row exactly like the one before
                rows.append(dict(rows[-1]))
                continue
            self.org += 1
            v = [J(self.rnd.randrange(1, 30)), J(self.org)]
            if extra:
                v += extra()
            rows.append({'ts': t, 'v': v})
            self.maxrank = max(self.maxrank, t)
        self.sources.append({'cols': cols or self.cols, 'rows': rows, 'fail': fail})

    def build(self, chains, begin=0, end=0):
        n = max(self.maxrank, begin, end, 1)
        late = [x for c in chains for x in c if x['k'] == 'late']
        n += 3 if late else 0
        for x in late:
            x['top'] = n
        if n <= len(U64) and self.rnd.random() < 0.6:
            tsv = sorted(self.rnd.sample(U64, n))
        else:
            base = self.rnd.choice([0, 1, 1600000000 * 10**9, 2**63 - n // 2, 2**64 - 1 - 2 * n])
            tsv = [base + i * self.rnd.choice([1, 1, 2]) if i == 0 else 0 for i in range(n)]
            step = self.rnd.choice([1, 2])
            tsv = [base + i * step for i in range(n)]
        return {'op': 'pipeline', 'sources': self.sources, 'chains': chains, 'begin': begin, 'end': end,
                'tsv': [str(t) for t in tsv]}


def seqs(ranks, maxlen):
    """all non-decreasing sequences over ranks up to maxlen"""
    out = []
    for n in range(maxlen + 1):
        out += list(itertools.combinations_with_replacement(ranks, n))
    return out


def merge_all(n, tail=None):
    """n inputs merged into one chain"""
    if n == 1:
        return [tail or [rec(1)]]
    return [[nd('merge', to=n + 1)] for _ in range(n)] + [[nd('msink', x=n)] + (tail or [rec(1)])]


def rnd_seq(rnd, maxlen, nranks):
    return sorted(rnd.randrange(1, nranks + 1) for _ in range(rnd.randrange(0, maxlen + 1)))


def late(rnd):
    """copies of a row, at other times"""
    return nd('late', x=rnd.choice([1, 2, 2, 3]), by=rnd.choice([0, 1, 1, 2, 3, -1, -2]))


def rnd_body(rnd, st, kinds, n):
    out = []
    for _ in range(n):
        k = rnd.choice(kinds)
        if k == 'rec':
            st['s'] += 1
            out.append(rec(st['s']))
        elif k in ('dup', 'fan', 'rep'):
            if st['multi'] >= 3:
                continue
            st['multi'] += 1
            out.append(nd(k, x=rnd.choice([2, 3]) if k == 'fan' else rnd.choice([1, 2, 2, 3])))
        elif k == 'late':
            if st['multi'] >= 3:
                continue
            st['multi'] += 1
            out.append(late(rnd))
        elif k == 'drop':
            out.append(nd(k, x=rnd.choice([2, 2, 3, 3, 5])))
        elif k == 'mut':
            out.append(nd(k, x=rnd.randrange(0, 50)))
        elif k == 'add':
            t = rnd.choice(['J', 'T', 'I'])
            out.append(nd('add', col=cs(rnd.choice(NAMES)), t=t, val=[t, rnd.randrange(0, 5), 0]))
        elif k == 'del':
            out.append(nd('del', col=cs(rnd.choice(st.get('names') or NAMES[:4] + ['x']))))
    return out


def rnd_graph(rnd, nsrc, kinds, nextra=None, maxbody=2, names=None):
    """a random acyclic graph; chain i is fed by input i"""
    st = {'s': 0, 'multi': 0, 'names': names}
    nextra = rnd.randrange(0, 4) if nextra is None else nextra
    total = nsrc + nextra
    children = {p: [] for p in range(1, total + 1)}
    indeg = {c: 0 for c in range(1, total + 1)}
    for c in range(nsrc + 1, total + 1):
        for p in set(rnd.choice(range(1, c)) for _ in range(rnd.choice([1, 1, 2, 2, 3]))):
            for _ in range(2 if rnd.random() < 0.12 else 1):
                children[p].append(c)
                indeg[c] += 1
    # an input may also go straight into a chain that others merge into
    if nsrc >= 2 and rnd.random() < 0.25:
        p, c = 1, rnd.randrange(2, nsrc + 1)
        children[p].append(c)
        indeg[c] += 2
    merged = {c: indeg[c] >= 2 or (indeg[c] == 1 and rnd.random() < 0.3) for c in indeg}
    chains = []
    for p in range(1, total + 1):
        body = rnd_body(rnd, st, kinds, rnd.randrange(0, maxbody + 1))
        edges, i = [], 0
        ch = children[p][:]
        rnd.shuffle(ch)
        while i < len(ch):
            n = rnd.choice([1, 2, 3])
            grp = ch[i:i + n]
            if len(grp) == 1 and merged[grp[0]] and rnd.random() < 0.6:
                edges.append(nd('merge', to=grp[0]))
            else:
                edges.append(nd('split', to=grp))
            i += n
        for e in edges:
            body.insert(rnd.randrange(0, len(body) + 1), e)
        if rnd.random() < 0.75 or not edges:
            st['s'] += 1
            body.append(rec(st['s']))
        if merged[p]:
            body.insert(0, nd('msink', x=indeg[p]))
        chains.append(body)
    return chains, st['s']


def cover_sinks(chains):
    return max([n['s'] for c in chains for n in c if n['k'] == 'rec'], default=0)


def set_node(chains, s, **kw):
    for c in chains:
        for n in c:
            if n['k'] == 'rec' and n['s'] == s:
                n.update(kw)


def rnd_sc(rnd, kinds, nsrc=None, maxrows=4, nranks=4, rng=0.3, nextra=None, maxbody=2, wide=0):
    nsrc = nsrc or rnd.choice([1, 1, 2, 2, 3, 4])
    b = Sc(rnd)
    types = [rnd.choice(TYPES) for _ in range(wide)]
    if wide:
        b.cols = b.cols + [{'n': cs('w%d' % i), 't': t} for i, t in enumerate(types)]
    for _ in range(nsrc):
        b.source(rnd_seq(rnd, maxrows, nranks), extra=lambda: [rnd_val(rnd, t) for t in types])
    chains, ns = rnd_graph(rnd, nsrc, kinds, nextra, maxbody)
    begin = end = 0
    if rnd.random() < rng:
        begin, end = rnd.choice([0, 1, 2, 3]), rnd.choice([0, 2, 3, 4])
    return b.build(chains, begin, end)


ROWS = ['mut', 'mut', 'dup', 'fan', 'drop', 'rec', 'rec']


def g_c01(ctx):
    r, out = ctx.rnd, []
    small = seqs([1, 2], 2)
    for n in (1, 2, 3):
        for tss in itertools.product(small, repeat=n):
            b = Sc(r)
            for t in tss:
                b.source(t)
            out.append(b.build(merge_all(n)))
    three = seqs([1, 2, 3], 3 if ctx.quick else 4)
    for x in three:
        for y in three:
            b = Sc(r)
            b.source(x)
            b.source(y)
            out.append(b.build(merge_all(2)))
    for _ in range(150 if ctx.quick else 3000):
        n = r.choice([4, 5, 6, 8, 12, 20, 40])
        b = Sc(r)
        k = r.choice([1, 2, 4, 8])
        for _ in range(n):
            b.source(rnd_seq(r, r.choice([1, 3, 6]), k))
        out.append(b.build(merge_all(n)))
    for _ in range(150 if ctx.quick else 3000):
        out.append(rnd_sc(r, ['rec', 'rec', 'drop'], nsrc=r.choice([2, 3, 4]), maxrows=5, nranks=3))
    # long inputs and long runs of equal time stamps
    for n, m, k in ([(3, 300, 5), (2, 600, 600)] if ctx.quick else [(3, 2000, 5), (2, 3000, 3000), (100, 30, 10)]):
        b = Sc(r)
        for _ in range(n):
            b.source(sorted(r.randrange(1, k + 1) for _ in range(m)))
        out.append(b.build(merge_all(n)))
    return out


def g_c02(ctx):
    r, out = ctx.rnd, []
    for _ in range(900 if ctx.quick else 15000):
        out.append(rnd_sc(r, ROWS + r.choice([[], ['late']])))
    for _ in range(150 if ctx.quick else 1500):
        out.append(rnd_sc(r, ['rec', 'mut'], nsrc=r.choice([2, 3, 5]), nextra=0))
    for n, m in ([(1, 1500), (40, 6), (300, 2)] if ctx.quick else [(1, 6000), (300, 6), (3, 2500), (700, 3)]):
        b = Sc(r)
        for _ in range(n):
            b.source(sorted(r.randrange(1, m + 1) for _ in range(m)))
        out.append(b.build(merge_all(n)))
    # many inputs, each with a step of its own, to its own output or merged
    for n in ([300] if ctx.quick else [130, 300, 700]):
        for merged in (False, True):
            b = Sc(r)
            for _ in range(n):
                b.source(sorted(r.randrange(1, n + 1) for _ in range(r.choice([0, 1, 2]))))
            if merged:
                out.append(b.build([[nd('mut', x=r.randrange(1, 9)), nd('merge', to=n + 1)] for _ in range(n)] + [[nd('msink', x=n), rec(1)]]))
            else:
                out.append(b.build([[rec(k + 1)] for k in range(n)]))
    return out


def g_c03(ctx):
    r, out = ctx.rnd, []
    # every pair of branch kinds behind a split, with a tee behind it, merged again or not
    kinds = [nd('mut', x=3), nd('drop', x=2), nd('dup', x=2), nd('fan', x=3), nd('add', col=cs('z'), t='T', val=['T', 3, 0])]
    for a in kinds:
        for c in kinds:
            for tail in kinds:
                for join in (False, True):
                    if join and (a['k'] == 'add') != (c['k'] == 'add'):
                        continue
                    b = Sc(r)
                    b.source(r.choice([[1], [1, 1, 2], [1, 2, 3]]))
                    ch = [[dict(tail), nd('split', to=[2, 3]), dict(tail), rec(1)]]
                    if join:
                        ch += [[dict(a), nd('merge', to=4), rec(2)], [dict(c), rec(3), nd('merge', to=4)],
                               [nd('msink', x=2), rec(4), nd('mut', x=1), rec(5)]]
                    else:
                        ch += [[dict(a), rec(2)], [rec(3), dict(c), rec(4)]]
                    out.append(b.build(ch))
    # tees: merge nodes in the middle of chains
    for a in kinds[:4]:
        for c in kinds[:4]:
            b = Sc(r)
            b.source([1, 2])
            b.source([1, 1])
            out.append(b.build([[dict(a), nd('merge', to=3), dict(c), rec(1)], [nd('merge', to=3), dict(a), rec(2)],
                                [nd('msink', x=2), dict(c), rec(3)]]))
    # the same chain entered more than once by one split
    for n in (2, 3, 5):
        b = Sc(r)
        b.source([1, 1, 2, 3])
        out.append(b.build([[nd('split', to=[2] * n), rec(1)], [nd('msink', x=n), nd('mut', x=5), rec(2)]]))
    for _ in range(700 if ctx.quick else 12000):
        out.append(rnd_sc(r, ROWS + r.choice([[], ['late', 'add', 'add']]), nextra=r.choice([2, 3, 4]), wide=r.choice([0, 0, 0, 1, 6, 16, 33])))
    # wide splits
    for n in (8, 20):
        b = Sc(r)
        b.source([1, 2, 2])
        out.append(b.build([[nd('split', to=list(range(2, n + 2))), rec(1)]] +
                           [[nd('mut', x=i), nd('merge', to=n + 2), rec(i + 2)] for i in range(n)] +
                           [[nd('msink', x=n), rec(n + 2)]]))
    return out


def g_c04(ctx):
    r, out = ctx.rnd, []
    opts = [[nd('dup', x=2)], [nd('dup', x=3)], [nd('fan', x=2)], [nd('fan', x=3)], [nd('drop', x=2)], [nd('drop', x=3)],
            [nd('mut', x=4)], []]
    for a in opts:
        for c in opts:
            for e in opts:
                b = Sc(r)
                b.source([1, 1, 2])
                out.append(b.build([a + [rec(1)] + c + [rec(2)] + e + [rec(3)]]))
                b = Sc(r)
                b.source([1, 1, 2, 3])
                out.append(b.build([a + c + e + [rec(1)]]))
    # multiplied rows into a split, a merge, and into steps behind them
    for a in opts[:6]:
        for c in opts[:6]:
            b = Sc(r)
            b.source([1, 1])
            b.source([1, 2])
            out.append(b.build([a + [nd('split', to=[3, 4])] + c + [rec(1)], a + [nd('merge', to=5), rec(2)],
                                c + [rec(3)], c + [nd('merge', to=5)], [nd('msink', x=2)] + a + c + [rec(4)]]))
    # multiplied rows that lie at other times, also outside of the range
    for n in (1, 2, 3):
        for by in (-2, -1, 0, 1, 2):
            for begin in (0, 1, 2, 3):
                for end in (0, 2, 3, 4, 5):
                    if ctx.quick and r.random() > 0.5:
                        continue
                    for body in ([rec(1)], [nd('dup', x=2), rec(1)], [rec(1), nd('drop', x=2), nd('mut', x=1), rec(2)], [nd('split', to=[2]), rec(1)]):
                        b = Sc(r)
                        b.source(r.choice([[1, 2, 3], [1, 2, 2, 4], [2, 3]]))
                        out.append(b.build([r.choice([[], [rec(9)], [nd('dup', x=2)]]) + [nd('late', x=n, by=by)] + body] +
                                           ([[nd('mut', x=2), rec(2)]] if body[0]['k'] == 'split' else []), begin, end))
    for n in (10, 50, 200):
        b = Sc(r)
        b.source([1, 2, 2])
        out.append(b.build([[nd('dup', x=n), rec(1), nd('drop', x=2), nd('mut', x=3), rec(2), nd('dup', x=2), rec(3)]]))
    for _ in range(600 if ctx.quick else 10000):
        out.append(rnd_sc(r, ['dup', 'fan', 'dup', 'fan', 'drop', 'mut', 'rec', 'late'], nextra=r.choice([0, 0, 1, 2]), maxbody=4))
    return out


def g_c05(ctx):
    r, out = ctx.rnd, []
    three = seqs([1, 2, 3], 2)
    for x in seqs([1, 2, 3, 4], 4 if not ctx.quick else 3):
        for begin in range(0, 6):
            for end in range(0, 6):
                if ctx.quick and begin == 5 and end == 5:
                    continue
                b = Sc(r)
                b.source(x)
                out.append(b.build([[rec(1)]], begin, end))
    for x in three:
        for y in three:
            for begin in range(0, 5):
                for end in range(0, 5):
                    if ctx.quick and r.random() > 0.25:
                        continue
                    b = Sc(r)
                    b.source(x)
                    b.source(y)
                    g = merge_all(2) if r.random() < 0.7 else [[nd('mut', x=1), rec(1)], [rec(2)]]
                    out.append(b.build(g, begin, end))
    for _ in range(200 if ctx.quick else 5000):
        n = r.choice([1, 2, 3, 5, 9])
        b = Sc(r)
        for _ in range(n):
            b.source(rnd_seq(r, 6, 8))
        out.append(b.build(merge_all(n), r.randrange(0, 10), r.randrange(0, 10)))
    for _ in range(150 if ctx.quick else 3000):
        out.append(rnd_sc(r, ROWS + r.choice([[], ['late']]), rng=1.0))
    # many skipped rows before the range, many rows behind it
    b = Sc(r)
    b.source([1] * 500 + [2] * 3 + [3] * 500)
    b.source([1] * 500)
    b.source([3] * 5)
    out.append(b.build(merge_all(3), 2, 3))
    b = Sc(r)
    b.source([1] * 70000 + [2])
    out.append(b.build([[rec(1)]], 2, 0))
    # the largest and smallest times
    for tss, be, en in (([1, 2], 0, 2), ([1, 2], 2, 0), ([1, 2], 1, 2), ([1, 2], 1, 0), ([1, 2], 0, 1), ([1, 2], 2, 2)):
        b = Sc(r)
        b.source(tss)
        s = b.build([[rec(1)]], be, en)
        s['tsv'] = ['0', str(2**64 - 1)]
        out.append(s)
    return out


TYPES = ['Z', 'B', 'U', 'C', 'D', 'F', 'I', 'J', 'S', 'T']


def rnd_val(r, t):
    if r.random() < 0.15:
        return ['N', 0, 0]
    if t in 'DF':
        return [t] + r.choice([[0, 0], [0, 1], [1, 0], [3, 0], [-3, 0], [600, 0], [601, 0], [-2001, 0], [1000, 0], [999999999, 0], [1999999999, 0], [1000000000, 0], [-1000000000, 0]])
    if t in 'IJ':
        return [t, r.choice([0, 1, 2, -1, 2000000000, -2000000000]), 0]
    if t == 'T':
        return [t, r.randrange(0, 18), 0]
    if t == 'S':
        return [t, r.choice([-32768, 32767, 0, 1, -1]), 0]
    if t == 'C':
        return [t, r.choice([0, 1, 65535, 65]), 0]
    return [t, r.randrange(0, 2) if t == 'Z' else r.choice([0, 1, 127, 128, 255]), 0]


def g_c06(ctx):
    r, out = ctx.rnd, []

    def cols(names, types):
        return [{'n': cs('code'), 't': 'J'}, {'n': cs('org'), 't': 'J'}] + [{'n': cs(n), 't': t} for n, t in zip(names, types)]
    variants = [((), ()), (('a',), ('J',)), (('A',), ('J',)), (('a',), ('T',)), (('b',), ('J',)), (('a', 'b'), 'JT'), (('b', 'a'), 'TJ'),
                (('a', 'b'), 'JJ'), (('a', 'a'), 'JT'), (('a ',), ('J',))]
    # two inputs with all combinations of small headers, merged
    for x in variants:
        for y in variants:
            for rows in ((1,), ()):
                b = Sc(r)
                for v in (x, y):
                    b.source(rows, cols=cols(*v), extra=lambda v=v: [rnd_val(r, t) for t in v[1]])
                out.append(b.build(merge_all(2)))
    # the odd one out at every position
    for n in (3, 4, 10):
        for k in list(range(n)) + [None]:
            b = Sc(r)
            for i in range(n):
                v = variants[3] if i == k else variants[1]
                b.source([1, 2], cols=cols(*v), extra=lambda v=v: [rnd_val(r, t) for t in v[1]])
            out.append(b.build(merge_all(n)))
    # header changing steps before a merge, in branches and in the rest of a chain
    for _ in range(900 if ctx.quick else 12000):
        n = r.choice([1, 1, 2, 2, 3])
        b = Sc(r)
        same = r.choice(variants)
        for _ in range(n):
            v = same if r.random() < 0.9 else r.choice(variants)
            b.source(rnd_seq(r, 2, 2), cols=cols(*v), extra=lambda v=v: [rnd_val(r, t) for t in v[1]])
        kinds = ['rec', 'rec', 'mut'] + r.choice([[], ['add'], ['add', 'del'], ['del']])
        chains, _ = rnd_graph(r, n, kinds)
        out.append(b.build(chains))
    # many columns of all types
    for n in (1, 20, 300):
        b = Sc(r)
        names, types = ['c%d' % i for i in range(n)], [r.choice(TYPES) for _ in range(n)]
        for _ in range(2):
            b.source([1, 2], cols=cols(names, types), extra=lambda: [rnd_val(r, t) for t in types])
        out.append(b.build(merge_all(2, [nd('del', col=cs('C%d' % (n - 1))), rec(1), nd('add', col=cs('z'), t='T', val=['T', 1, 0]), rec(2)])))
    return out


def g_c07(ctx):
    r, out = ctx.rnd, []
    for _ in range(350 if ctx.quick else 5000):
        s = rnd_sc(r, ROWS, rng=0.4)
        out.append(s)
        ns = cover_sinks(s['chains'])
        for k in range(1, ns + 1):
            import copy
            f = copy.deepcopy(s)
            if r.random() < 0.7:
                set_node(f['chains'], k, ferr=r.choice([0, 0, 0, 1, 2]))
            else:
                set_node(f['chains'], k, werr=r.choice([0, 0, 1, 2, 3]))
            out.append(f)
    # every write and every flush of a small graph fails once
    for n in (1, 2, 3):
        for rows in ((), (1,), (1, 2)):
            for where in ('werr', 'ferr'):
                for k in range(0, 6):
                    b = Sc(r)
                    for _ in range(n):
                        b.source(rows)
                    tail = [rec(1), rec(2)]
                    tail[r.randrange(2)][where] = k
                    out.append(b.build(merge_all(n, tail)))
    return out


def g_c08(ctx):
    import copy
    r, out = ctx.rnd, []
    # every read of every input fails once
    for n in (1, 2, 3):
        for rows in itertools.product(seqs([1, 2], 2), repeat=n):
            if n == 3 and r.random() > (0.15 if ctx.quick else 1):
                continue
            for i in range(n):
                for k in range(len(rows[i]) + 1):
                    b = Sc(r)
                    for j in range(n):
                        b.source(rows[j], fail=k if i == j else -1)
                    begin, end = r.choice([(0, 0), (0, 0), (2, 0), (0, 2)])
                    out.append(b.build(merge_all(n) if r.random() < 0.6 else [[rec(j + 1)] for j in range(n)], begin, end))
    # every kind of failure in random graphs
    for _ in range(500 if ctx.quick else 8000):
        s = rnd_sc(r, ROWS + r.choice([[], ['late']]), rng=0.3)
        ns = cover_sinks(s['chains'])
        for what in ('r', 'w', 'f'):
            f = copy.deepcopy(s)
            if what == 'r':
                src = r.choice(f['sources'])
                src['fail'] = r.randrange(0, len(src['rows']) + 1)
            elif what == 'w':
                set_node(f['chains'], r.randrange(1, ns + 1), werr=r.choice([0, 1, 2, 3]))
            else:
                set_node(f['chains'], r.randrange(1, ns + 1), ferr=r.choice([0, 0, 1]))
            if r.random() < 0.2:
                src = r.choice(f['sources'])
                src['fail'] = r.randrange(0, len(src['rows']) + 1)
            out.append(f)
    return out


def g_c09(ctx):
    r, out = ctx.rnd, []
    for n, m in ([(1, 60), (2, 60), (5, 40), (1, 400), (3, 150)] if ctx.quick else [(1, 3000), (2, 1000), (5, 300), (20, 60), (3, 700)]):
        for k in (1, 3, m):
            b = Sc(r)
            for _ in range(n):
                b.source(sorted(r.randrange(1, k + 1) for _ in range(m)))
            # sometimes only some of it
            out.append(b.build(merge_all(n), r.choice([0, 0, 1, k]), r.choice([0, 0, k, k // 2 + 1])))
    for _ in range(300 if ctx.quick else 5000):
        out.append(rnd_sc(r, ROWS, maxrows=r.choice([3, 6, 12]), nranks=r.choice([2, 6, 12])))
    for n in (40, 100):
        b = Sc(r)
        for _ in range(n):
            b.source(rnd_seq(r, 4, 6))
        out.append(b.build(merge_all(n)))
    return out


def g_c10(ctx):
    r, out = ctx.rnd, []

    def table(t, vals):
        b = Sc(r)
        it = iter(vals)
        b.source([1] * len(vals), cols=[{'n': cs('code'), 't': 'J'}, {'n': cs('org'), 't': 'J'}, {'n': cs('Val'), 't': t},
                                        {'n': cs('w'), 't': 'T'}], extra=lambda: [next(it), ['T', r.randrange(0, 18), 0]])
        return b
    dom = {'B': [0, 1, 127, 128, 255], 'C': [0, 1, 255, 256, 32768, 65535],
           'I': [-2000000000, -16777217, -1, 0, 1, 256, 65536, 16777216, 16777217, 2000000000],
           'J': [-2000000000, -1999999999, -1900000001, -1900000000, -1, 0, 1, 256, 65536, 1900000000, 1900000001, 1999999999, 2000000000],
           'S': [-32768, -1, 0, 1, 255, 256, 32767], 'T': list(range(18))}
    dom['D'] = dom['F'] = [s * x for s in (-1, 1) for x in (1, 2, 3, 4, 600, 601, 1999, 2000, 2001, 4096, 500000000, 500000001, 999999999, 1000000000)] + [0, 1999999999]
    for t, d in dom.items():
        vals = [[t, x, 0] for x in d]
        if t in 'DF':
            vals.append([t, 0, 1])
        for w in vals:
            for name in ('val', 'VAL'):
                if t in 'DF' and w[1] == 1999999999 and name == 'VAL':
                    continue
                out.append(table(t, vals + ([['N', 0, 0]] if name == 'VAL' else [])).build([[nd('gt', col=cs(name), val=w), rec(1)]]))
                out.append(table(t, vals + [['N', 0, 0]]).build([[nd('eq', col=cs(name), val=w), rec(1)]]))
        out.append(table(t, vals + [['N', 0, 0]]).build([[nd('eq', col=cs('val'), val=['N', 0, 0]), rec(1)]]))
        out.append(table(t, [['N', 0, 0]] + vals + [['N', 0, 0]]).build([[nd('gt', col=cs('val'), val=['N', 0, 0]), rec(1)]]))
        # equal needs the same type, not just the same number
        for t2 in 'BCIJSDF':
            if t2 != t:
                out.append(table(t, vals).build([[nd('eq', col=cs('val'), val=[t2, 0 if t2 in 'DF' else 1, 0]), rec(1)]]))
    # names: case, first match, missing ones
    for cols in itertools.product(['a', 'A', 'b', 'B', '\u00e9', 'ab'], repeat=3):
        if ctx.quick and r.random() > 0.4:
            continue
        for k in ('eq', 'gt', 'del'):
            want = r.choice(['a', 'A', 'b', 'B', '\u00e9', '\u00c9', 'ab', 'aB', 'zz', '', 'code ', 'ORG'])
            if k == 'del' and want.lower() in ('code', 'org'):
                continue
            b = Sc(r)
            b.source([1, 1, 2, 3], cols=b.cols + [{'n': cs(n), 't': 'J'} for n in cols],
                     extra=lambda: [['J', r.randrange(0, 3), 0] for _ in range(3)])
            n = nd(k, col=cs(want)) if k == 'del' else nd(k, col=cs(want), val=['J', 1, 0])
            out.append(b.build([[rec(1), n, rec(2)]]))
    # names alike beyond ascii are different names
    alike = [('\u00e9', '\u00c9'), ('s', '\u017f'), ('k', '\u212a'), ('\u00df', 'ss'), ('\u00df', '\u1e9e'), ('i', '\u0130'), ('i', '\u0131'), ('\u01c6', '\u01c5'), ('\u03c3', '\u03c2'),
             ('a', '\uff41'), ('x', 'x '), ('x', 'x\0'), ('[', '{'), ('@', '`'), ('a-b', 'a_b'), ('\u00e9', 'e\u0301'), ('', ' '), ('ab', 'a'), ('Ab\u00c9', 'aB\u00e9'), ('\u0410', '\u0430')]
    for k in ('eq', 'gt', 'del'):
        for x, y in alike + [(y, x) for x, y in alike]:
            for cols in ([x], ['v', x], [x, y], ['v', x, y, 'v']):
                b = Sc(r)
                b.source([1, 1, 2, 3], cols=b.cols + [{'n': cs(n), 't': 'J'} for n in cols], extra=lambda: [['J', r.randrange(0, 3), 0] for _ in cols])
                n = nd(k, col=cs(y)) if k == 'del' else nd(k, col=cs(y), val=['J', 1, 0])
                out.append(b.build([[rec(1), n, rec(2)]]))
    # chains of them
    for _ in range(300 if ctx.quick else 5000):
        names = [r.choice(['a', 'b', 'c', 'A', 'd', 'e']) for _ in range(r.choice([1, 2, 3, 5]))]
        types = [r.choice('JIST') for _ in names]
        b = Sc(r)
        small = {'J': 3, 'I': 3, 'S': 3, 'T': 3}
        b.source(rnd_seq(r, 6, 3), cols=b.cols + [{'n': cs(n), 't': t} for n, t in zip(names, types)],
                 extra=lambda: [['N', 0, 0] if r.random() < 0.15 else [t, r.randrange(0, small[t]), 0] for t in types])
        # follow the header so that comparisons are between values of one type
        hn, ht, chain, s = list(names), list(types), [rec(1)], 1
        for _ in range(r.choice([1, 2, 3])):
            if not hn:
                break
            i = r.randrange(len(hn))
            i = next(j for j in range(len(hn)) if hn[j].lower() == hn[i].lower())
            name = r.choice([hn[i], hn[i].upper(), hn[i].lower()])
            k = r.choice(['eq', 'gt', 'del', 'del'])
            if k == 'del':
                chain.append(nd('del', col=cs(name)))
                del hn[i], ht[i]
            else:
                chain.append(nd(k, col=cs(name), val=[ht[i], r.randrange(0, 3), 0]))
            s += 1
            chain.append(rec(s))
        out.append(b.build([chain]))
    # wide rows
    for n in (17, 200):
        for k in (0, n // 2, n - 1):
            b = Sc(r)
            b.source([1, 2], cols=b.cols + [{'n': cs('c%d' % i), 't': 'J'} for i in range(n)],
                     extra=lambda: [['J', i, 0] for i in range(n)])
            out.append(b.build([[nd('del', col=cs('C%d' % k)), rec(1)]]))
    return out


GEN = {'C01': g_c01, 'C02': g_c02, 'C03': g_c03, 'C04': g_c04, 'C05': g_c05, 'C06': g_c06, 'C07': g_c07, 'C08': g_c08,
       'C09': g_c09, 'C10': g_c10}


def small(sc):
    return (sum(len(s['rows']) for s in sc['sources']) <= 5 and len(sc['chains']) <= 5
            and sum(len(c) for c in sc['chains']) <= 14 and len(sc['sources']) <= 3
            and all(n['x'] <= 3 for c in sc['chains'] for n in c if n['k'] in ('dup', 'fan', 'rep', 'late')))


def design(ctx, scs):
    # the injected failures are replaced by every possible failure
    import os, core
    pick = [s for s in scs if small(s)]
    ctx.rnd.shuffle(pick)
    pick = pick[:150 if ctx.quick else 2500]
    f = os.path.join(ctx.work, 'design.ndjson')
    with open(f, 'w') as o:
        for s in pick:
            o.write(core.dump(s) + '\n')
    ctx.design('Driver', 'Driver.cfg', {'SCEN': f}, workers=4, min_states=len(pick),
               what='driver design against the abstract pipeline on %d scenarios, every failure point' % len(pick))


def g_plain(ctx):
    """rows of any kind: of any number of columns, with nothing but missing values, all the same, without any column"""
    r, out = ctx.rnd, []
    for _ in range(200 if ctx.quick else 3000):
        n = r.choice([1, 1, 2, 2, 3, 4])
        names = [r.choice(['a', 'b', 'A', 'c']) for _ in range(r.choice([0, 1, 1, 2, 3, 9, 17, 40]))]
        types = [r.choice(TYPES) for _ in names]
        cols = [{'n': cs(a), 't': t} for a, t in zip(names, types)]
        tsv = r.choice([1, 1, 2, 3, 5])
        gone = r.choice([0, 0.3, 0.3, 0.9])
        few = [[rnd_val(r, t) for t in types] for _ in range(r.choice([1, 2, 8]))]
        b = Sc(r)
        for _ in range(n):
            rows = [{'ts': t, 'v': [['N', 0, 0] for _ in types] if r.random() < gone else r.choice(few)} for t in rnd_seq(r, r.choice([2, 5]), tsv)]
            b.sources.append({'cols': cols, 'rows': rows, 'fail': -1})
            b.maxrank = max([b.maxrank] + [x['ts'] for x in rows])
        kinds = ['rec', 'rec', 'rep'] + r.choice([[], [], ['del'], ['add']])
        if ctx.prop in ('C01', 'C05', 'C09') and r.random() < 0.5:
            chains = merge_all(n)
        else:
            chains, _ = rnd_graph(r, n, kinds, r.choice([0, 1, 2]), names=names or ['a'])
        begin = end = 0
        if r.random() < (0.8 if ctx.prop == 'C05' else 0.3):
            begin, end = r.choice([0, 1, 2, 3]), r.choice([0, 2, 3, 4])
        s = b.build(chains, begin, end)
        s['plain'] = True
        for c in chains:
            for x in c:
                if x['k'] == 'rec':
                    x['plain'] = True
        ns = cover_sinks(chains)
        if ctx.prop in ('C07', 'C08') and r.random() < 0.7:
            what = r.choice('wf' if ctx.prop == 'C07' else 'rwf')
            if what == 'r':
                src = r.choice(s['sources'])
                src['fail'] = r.randrange(0, len(src['rows']) + 1)
            elif what == 'w':
                set_node(chains, r.randrange(1, ns + 1), werr=r.choice([0, 0, 1, 2, 3]))
            else:
                set_node(chains, r.randrange(1, ns + 1), ferr=r.choice([0, 0, 1]))
        out.append(s)
    return out


def check(ctx):
    scs = GEN[ctx.prop](ctx) + g_plain(ctx)
    design(ctx, scs)
    recs = ctx.execute(scs)
    ctx.validate('PipelineTrace', recs, what='recorded runs of the real driver')
    if ctx.prop == 'C07':
        import f_sink
        f_sink.check(ctx)
    return ctx.finish(assumptions=['inputs are non-decreasing in time', 'a merge is configured with the number of chains that lead into it'])
