"""C17 to C21: csv input (spec/CsvIn.tla)."""
import datetime, itertools

UNITS = {'s': 9, 'ms': 6, 'us': 3, 'ns': 0}
UN = {'s': 'seconds', 'ms': 'millis', 'us': 'micros', 'ns': 'nanos'}
ZONES = ['none', 'UTC', 'Tokyo', 'Kolkata', 'GMTp5', 'NewYork', 'London', 'Sydney', 'LordHowe', 'Berlin', 'Azores', 'Beirut']
STD = {'UTC': 0, 'Tokyo': 32400, 'Kolkata': 19800, 'GMTp5': -18000, 'NewYork': -18000, 'London': 0, 'Sydney': 36000, 'LordHowe': 37800, 'Berlin': 3600, 'Azores': -3600, 'Beirut': 7200}
BAD = 2000000


def cs(s):
    """text as codes; \udc80.. stands for a single byte"""
    return [BAD + ord(c) - 0xdc00 if 0xdc80 <= ord(c) <= 0xdcff else ord(c) for c in s]


def sc(text, header='yes', delim=-1, col=('auto',), fmt=('epoch', 'ns'), zone='none', via='file', plan=()):
    conv = lambda x: [x[0]] + [cs(y) if isinstance(y, str) and x[0] not in ('epoch',) else y for y in x[1:]]
    return {'op': 'csv', 'text': cs(text) if isinstance(text, str) else text, 'header': header,
            'delim': ord(delim) if isinstance(delim, str) else delim, 'col': conv(col), 'fmt': conv(fmt),
            'zone': zone, 'via': via, 'plan': list(plan)}


# ------------------------------------------------------------------------- C17
# texts that mean something elsewhere, here they are just texts
ODD = ['#', '#a', '\\', '\\N', '\\n', 'a\\', '\\,', 'NULL', 'NA', 'N/A', 'None', 'nil', '?', '-', '--', '-- a', '//', ';', '%', '=1+1', '@a', 'true', 'NaN', 'inf', '1e5', '0x1', "''", "'a'", '`', '\\"', '\x1a', '\x1c', '\x7f', '\u2028',
       '\u0085', 'null ', 'sep=,', '<a>', '&amp;', '%41', '$a', '{}', '[1,', '(1)', '~', '^', '_', '|', '!', '\x04', '\x1b[0m', '\u0130', '\ufb01', '\u202e', 'e\u0301']


def fld(r, d):
    k = r.random()
    if k < 0.35:
        return r.choice(['', 'a', 'b c', '0', 'x' * r.randrange(1, 5), '\u00e9', '\u4e2d\U0001f600', '-1.5', 'null', "'", ODD[r.randrange(len(ODD))]])
    if k < 0.5:
        return r.choice([' ', '  ', '\t' if d != '\t' else ' ', '\u00a0', '\u3000', '\u2003']) + r.choice(['', 'a', 'a b']) + r.choice(['', ' ', '\u00a0', ' \u2009'])
    if k < 0.9:
        inner = ''.join(r.choice(['a', d, '""', '\n', '\r\n', ' ', '\u00e9', ';', '\\', '#', '\x00']) for _ in range(r.randrange(0, 4)))
        return '"' + inner + '"' + (r.choice(['x', ' ', 'y"z', '""']) if r.random() < 0.15 else '')
    return r.choice(['a"b', ' "q"', '"', 'a""', '\u200b', '\x00', '\x1f', '\ufeff'])


def g_c17(ctx):
    r, out = ctx.rnd, []
    q = ctx.quick
    # all short texts over a small alphabet, behind a complete record and a time
    alpha = ['a', ',', '"', '\n', '\r', ' ']
    for n in range(0, 5 if q else 7):
        for t in itertools.product(alpha, repeat=n):
            if n >= 4 and r.random() > (0.25 if n == 4 else 0.1):
                continue
            s = ''.join(t)
            k = r.randrange(4)
            if k == 0:
                out.append(sc('t,u,v\n5,' + s))
            elif k == 1:
                out.append(sc('t,u,v\n1,x,y\n' + s + '2,z'))
            elif k == 2:
                out.append(sc('1,x,y\n2' + s + '3', header='no'))
            else:
                out.append(sc(s + 't,u\n4,5\n'))
    for s in ['', '\n', '\r\n', ' ', ',', '""', 't', 't\n', 't,u\r\n', '\ufeff', '\ufefft,u\n1,2\n', '5', '5\n', '5,6,7', '"5"', '\n\n\n5,6', 't\r5\r6', 't\n5\n\n\n6\n', 't\n5\n \n6\n']:
        for h in ('yes', 'no', 'auto'):
            out.append(sc(s, header=h, delim=r.choice([-1, ','])))
    for _ in range(900 if q else 20000):
        d = r.choice([',', ',', ',', '\t', ' ', ';', '|'])
        h = r.choice(['yes', 'yes', 'no'])
        ncol = r.randrange(1, 5)
        tc = r.randrange(ncol)
        eol = r.choice(['\n', '\n', '\r\n', '\r'])
        lines = []
        if h == 'yes':
            lines.append(d.join(r.choice(['c%d' % i, ' c%d ' % i, '"c%d"' % i, fld(r, d)]) for i in range(ncol)))
        ts = r.randrange(5)
        for k in range(r.randrange(0, 6)):
            n = ncol
            x = r.random()
            if x < 0.22:
                n = r.randrange(min(tc + 1, ncol), ncol + 1)
            elif x < 0.26:
                n = r.randrange(0, ncol + 3)
            c = [fld(r, d) for _ in range(n)]
            if n > tc:
                ts += r.randrange(3)
                c[tc] = r.choice(['%d', '%d', ' %d ', '"%d"', '" %d"', '+%d', '00%d']) % ts
                if d == ' ':
                    c[tc] = str(ts)
                if r.random() < 0.02:
                    c[tc] = r.choice(['', 'x', '-1', '1.0', '1 2', '\u0661'])
            lines.append(d.join(c))
            if r.random() < 0.1:
                lines.append('')
        text = eol.join(lines) + r.choice([eol, '', eol + eol])
        if r.random() < 0.06:
            i = r.randrange(len(text) + 1)
            text = text[:i] + r.choice(['\udcff', '\udcc3', '\udc80']) + text[i:]
        via = r.choice(['file', 'feed'])
        out.append(sc(text, header=h, delim=d, col=('index', tc), via=via, plan=[r.choice([1, 2, 3, 7, 100])]))
    # every character, everywhere in a value
    for c in [chr(i) for i in range(128) if i not in (10, 13)] + ODD + ['\u00a0', '\u1680', '\u2000', '\u200a', '\u200b', '\u2028', '\u2029', '\u202f', '\u205f', '\u3000', '\u180e', '\u2060', '\ufeff', '\x85']:
        forms = [c, c + c, c + 'b', 'a' + c, 'a' + c + 'b', '"' + c.replace('"', '""') + '"', '"a' + c.replace('"', '""') + '"', '"' + c.replace('"', '""') + 'b"', 'a ' + c, c + ' b', '"' + c.replace('"', '""') + ',' + c.replace('"', '""') + '"']
        d = r.choice([',', ',', ',', '\t', ';', '|'])
        for h in ('yes', 'no'):
            k = r.randrange(3)
            lines = []
            for i, f in enumerate(forms):
                row = [f, r.choice(forms)]
                row.insert(k, str(i))
                lines.append(d.join(row))
            r.shuffle(lines)
            if r.random() < 0.5:
                lines = sorted(lines, key=lambda x: d not in x)
            if h == 'yes':
                names = [r.choice(forms), r.choice(forms)]
                names.insert(k, 't')
                lines.insert(0, d.join(names))
            out.append(sc('\n'.join(lines) + '\n', header=h, delim=d, col=('index', k)))
            out.append(sc('\n'.join(lines[:2]) + r.choice(['', '\n']), header=h, delim=d, col=('index', k)))
    # rows across buffers
    for n in (400, 1500) if q else (400, 1500, 6000):
        text = 't,u,v\n' + ''.join('%d,%s,"%s"\n' % (i, 'a' * r.randrange(0, 9), 'b,' * r.randrange(0, 4)) for i in range(n))
        out.append(sc(text))
        out.append(sc(text, via='feed', plan=[1000, 1, 8192]))
    out.append(sc('t,u\n1,' + 'x' * 70000 + '\n2,z'))
    out.append(sc('t,u\n1,' + 'x' * 9000 + '\n2,"' + 'y\n' * 4200 + '"\n3,z'))
    for n in (30, 100):
        out.append(sc(','.join('c%d' % i for i in range(n)) + '\n' + '\n'.join(','.join(str(i) for i in range(k)) for k in (n, n - 1, 1, n))))
    return out


# ------------------------------------------------------------------------- C18
VALS = ['1', '-1', '+1', '1.5', '.5', '5.', '.', '1e5', '1e', 'e5', '1E-5', '1e+', 'inf', '-Infinity', 'NaN', 'nan', 'infinit', 'a', '', '0x1', '1_0', '1 ', ' 1', '"1"', '"a"',
        '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '+', '-', '--1', '+-1', '1,', '12a', '\u0661', '\u00a01', 'true', '1.5.2', '1e5.5', '00', '-0']


def g_c18(ctx):
    r, out = ctx.rnd, []
    q = ctx.quick
    # types of every pair of values
    for a in VALS:
        for b in VALS:
            if q and r.random() > 0.35:
                continue
            t = '5,%s\n6,%s\n7,x\n' % (a, b)
            if r.random() < 0.3:
                t = '5,%s,1\r\n6,%s,1\r\n7,x,1' % (a, b)
            out.append(sc(t, header='auto', delim=',' if r.random() < 0.7 else -1, col=('index', 0)))
    # the first line in every role, under every setting
    firsts = ['1,2', 't,u', '1\t2', 't\tu', '1 2', 't u', '1,2\t3', '1,2 3', '1\t2 3', '1,2\t3 4', '1,2,3\t4 5 6', '1\t2\t3,4', '1 2 3,4', '1 2,3', '1', 't', '1;2', '', ' ', '1,"2,3"', '1,"a\tb\tc"',
              '\u6c2c\u6c2c,2', '\u0109\u0109\u0109,1', '1\u00a02,3', '5, 6, 7', '"t","u"']
    seconds = ['1,2', '3,x', '3\t4', '3 4', '3', '3.5,4', '4,5.5', '3,', '', 'x,y', '3,4,5', '3 ,4', '3, 4', None]
    for a in firsts:
        for b in seconds:
            for h in ('yes', 'no', 'auto'):
                for d in (-1, ',', '\t', ' ', ';'):
                    if r.random() > (0.16 if q else 1) and not (h == 'auto' and d == -1):
                        continue
                    t = a if b is None else a + '\n' + b + r.choice(['', '\n', '\n9,9\n', '\r\n'])
                    out.append(sc(t, header=h, delim=d, col=('index', 0)))
    # what is no part of any record before and between the first two lines
    pre = ['\ufeff', '\ufeff\n', '\ufeff\r\n\n', '\n', '\r\n', '\r', '\r\r\n', '\n\ufeff', '\ufeff\ufeff', ' \n', '\ufeff ']
    for a in ['1,2', 't,u', '1\t2', '1 2', 't\tu', '1,2\t3 4\t5', '"1",2', '1', 't']:
        for b in ['1,2', '3\t4', '3 4', '3', 'x,y', None]:
            for p in pre:
                if q and r.random() > 0.5:
                    continue
                t = p + a + ('' if b is None else '\n' + r.choice(['', '', '\n', '\r\n', '\r', '\ufeff']) + b + r.choice(['', '\n9,9\n']))
                out.append(sc(t, header=r.choice(['auto', 'auto', 'auto', 'yes', 'no']), delim=r.choice([-1, -1, ',', '\t']), col=('index', 0),
                              via=r.choice(['file', 'feed']), plan=[r.choice([1, 3, 100])]))
    # counts of the delimiters
    for _ in range(300 if q else 4000):
        line = ''.join(r.choice([',', '\t', ' ', ',', '\t', ' ', 'a', '\u6c2c', ';']) for _ in range(r.randrange(1, 9)))
        out.append(sc('1' + line + '\n2' + r.choice([line, ',', '\t', ' ']), header=r.choice(['no', 'auto', 'yes']), col=('index', 0),
                      via=r.choice(['file', 'feed']), plan=[r.choice([1, 3, 100])]))
    # ... in long lines, the last part of which settles it
    for n in (20, 60, 130, 260, 520, 1030):
        for a, b in itertools.permutations(',\t ', 2):
            for w in ('', 'x', 'xyz'):
                if q and r.random() > 0.4 or q and n > 600 and w:
                    continue
                k = n // (len(w) + 1)
                line = '1' + (a + w) * k + '1' + (b + w) * (k + r.choice([-1, 0, 1, 1]))
                out.append(sc(line + '\n2,3' if r.random() < 0.5 else line, header=r.choice(['no', 'auto', 'yes']), col=('index', 0)))
    # lists of types
    tok = ['7', '7.5', 'x']
    for n in (1, 2, 3):
        for a in itertools.product(tok, repeat=n):
            for b in itertools.product(tok, repeat=n):
                if n == 3 and r.random() > (0.25 if q else 1):
                    continue
                out.append(sc('5,' + ','.join(a) + '\n6,' + ','.join(b), header='auto', col=('index', 0)))
    for _ in range(100):
        a = [r.choice(tok) for _ in range(r.randrange(1, 4))]
        b = [r.choice(tok) for _ in range(r.randrange(1, 5))]
        out.append(sc('5,' + ','.join(a) + '\n6,' + ','.join(b), header='auto', col=('index', 0)))
    # only one line, lines that are not complete within the preview
    for t in ['5', '5\n', '5,6', 't,u', 't,u\n', '\n', '\n5,6\n7,8', '\n\n5,6', '5,6\n\n7,x', '\r\n5,6\r\n7,x']:
        for h in ('yes', 'no', 'auto'):
            out.append(sc(t, header=h, col=('index', 0)))
    for n in (8180, 8189, 8190, 8191, 8192, 9000) if q else range(8180, 8200):
        out.append(sc('5,' + 'x' * (n - 2) + '\n6,7', header='auto', col=('index', 0)))
        out.append(sc('t\tu\n6\t' + 'x' * (n - 6) + '\n7\t8', header='auto', col=('index', 0)))
        out.append(sc('t\tu\n6\t7\n' + 'x' * (n - 8) + '\udcff\n', header='auto', delim='\t', col=('index', 0)))
    out.append(sc('t\tu\n6\t7\n8\t\udcff\n', header='auto', col=('index', 0)))
    out.append(sc('t\tu\n6\t7\n8\t\udcff\n', header='auto', delim='\t', col=('index', 0)))
    return out


# ------------------------------------------------------------------------- C19
NAMES = ['time', 'date', 'timeSeconds', 'timemillis', 'TimeMicros', 'timeNanos', 'x_timeSeconds', 'evtTimeMillis', 'y_timemicros', 'xtimeNanos', 'x_date', 'x_time', 'y_date', 'y_time', 'evtDate', 'evtTime',
         'a', 'b', 'Date', 'TIME', 'DATE', 'seconds', 'nanos', 'x_seconds', 'timestamp', 'timestampNanos', 'times', 'dated', 'timer_a', 'atimer', 'xtimesecond', 'xtimeseconds_', '', 'datetime', 'update',
         'a_time_timeNanos', '\u4e2ddate', '\u4e2dtime', 'mytimeless', 'time_', 'x_timestampSeconds']


def cell(r, i, name):
    k = r.random()
    low = name.lower()
    if 'date' in low and k < 0.8:
        return '2019%02d%02d' % (i % 12 + 1, r.randrange(1, 28))
    if low.endswith('time') and k < 0.5:
        return r.choice(['%02d%02d%02d' % (i % 24, 11, i), '%02d:%02d:%02d' % (i % 24, 5, i), '%d:%02d' % (i % 24, i), '%02d%02d%02d%03d' % (i % 24, 7, i, 99)])
    if k < 0.9:
        return str(10**9 + 7 * i) + r.choice(['', '', '000', '000000', '000000000'])
    return r.choice(['201901%02d 10:11:%02d' % (i % 28 + 1, i % 60), str(i), 'x'])


def c19(r, names, col=('auto',), fmt=None, nrows=2, header='yes'):
    rows = [[cell(r, i, n) for i, n in enumerate(names)] for _ in range(nrows)]
    if fmt is None:
        fmt = r.choice([('auto',), ('auto',), ('epoch', 'ns'), ('epoch', 'us')])
    text = (','.join(names) + '\n' if header == 'yes' else '') + ''.join(','.join(x) + '\n' for x in rows)
    return sc(text, header=header, delim=',', col=col, fmt=fmt, zone=r.choice(['UTC', 'UTC', 'Tokyo']))


def g_c19(ctx):
    r, out = ctx.rnd, []
    q = ctx.quick
    # every pair and many triples of names
    for k in (1, 2):
        for names in itertools.product(NAMES, repeat=k):
            if k == 2 and q and r.random() > 0.55:
                continue
            out.append(c19(r, names, fmt=r.choice([('auto',), ('epoch', 'ns')])))
    core = [n for n in NAMES if 'time' in n.lower() or 'date' in n.lower()]
    for _ in range(900 if q else 15000):
        names = [r.choice(core if r.random() < 0.8 else NAMES) for _ in range(r.randrange(2, 7))]
        if r.random() < 0.3:
            names = [r.choice([n.upper(), n.title(), n]) for n in names]
        elif r.random() < 0.3:
            # close to the known ones
            i = r.randrange(len(names))
            n = names[i]
            k = r.randrange(len(n) + 1)
            names[i] = r.choice([n[:k] + r.choice('_ .sxtedTD') + n[k:], n[:k] + n[k + 1:], n[:k] + n[k - 1:k] + n[k:], n[:k] + n[k:].title(), n + n[:1], '_' + n, n + '_'])
        out.append(c19(r, names))
    # date and time in columns that belong together or not
    for a, b in itertools.product(['', 'x_', 'y_', 'X_', '_', '__', 'x', 'x__', '_x_', 'xx_', 'x.'], repeat=2):
        for order in (0, 1):
            for extra in ([], ['a'], ['z_date'], ['z_time']):
                n = [a + 'date', b + 'time']
                if order:
                    n.reverse()
                for names in (n + extra, extra + n):
                    if q and len(a + b) > 2 and r.random() < 0.6:
                        continue
                    rows = [['20190203' if x.lower().endswith('date') else '101112' if x.lower().endswith('time') else '5' for x in names] for _ in range(2)]
                    out.append(sc(','.join(names) + '\n' + ''.join(','.join(x) + '\n' for x in rows), col=('auto',), fmt=('auto',), zone='UTC'))
    # explicit choices
    for _ in range(500 if q else 6000):
        names = [r.choice(NAMES) for _ in range(r.randrange(1, 6))]
        h = 'yes' if r.random() < 0.85 else 'no'
        n = len(names)
        k = r.randrange(4)
        pick = lambda: r.choice(names if h == 'yes' else ['col_%d' % i for i in range(n)]) if r.random() < 0.9 else r.choice(['missing', 'Time', 'DATE', ''])
        idx = lambda: r.randrange(n) if r.random() < 0.88 else r.choice([n, n + 1, 1000])
        col = [('index', idx()), ('name', pick()), ('dtindex', idx(), idx()), ('dtname', pick(), pick())][k]
        fmt = None
        if k >= 2 and r.random() < 0.3:
            fmt = ('dt', '%Y%m%d', r.choice(['%H%M%S', '%H:%M:%S']))
        out.append(c19(r, names, col=col, fmt=fmt, header=h, nrows=r.choice([0, 1, 2, 2])))
    # names that differ in case only
    for base in ('time', 'when', 'x_date', 'TimeMillis', '\u00e9', 'k', 'a b'):
        forms = sorted({base, base.upper(), base.title(), base.swapcase(), base.replace('k', '\u212a')})
        for names in list(itertools.permutations(forms, min(2, len(forms)))) + [tuple(forms), tuple(reversed(forms)), (forms[0],) * 2]:
            for want in forms:
                for extra in ((), ('other',)):
                    out.append(c19(r, extra + tuple(names), col=('name', want)))
                out.append(c19(r, names, col=('dtname', want, names[0])))
                out.append(c19(r, names, col=('dtname', names[-1], want)))
    # values in every column of the right kind for explicit date and time columns
    for n in range(2, 6):
        for d, t in itertools.permutations(range(n), 2):
            row = [str(i + 3) for i in range(n)]
            row[d], row[t] = '2019%02d05' % (d + 1), '%02d:30:00' % (t + 1)
            names = ['n%d' % i for i in range(n)]
            out.append(sc(','.join(names) + '\n' + ','.join(row) + '\n', col=('dtindex', d, t), fmt=('auto',), zone='UTC'))
            out.append(sc(','.join(names) + '\n' + ','.join(row) + '\n', col=('dtname', names[d], names[t]), fmt=('dt', '%Y%m%d', '%H:%M:%S'), zone='Berlin'))
    return out


# ------------------------------------------------------------------------- C20
def g_c20(ctx):
    r, out = ctx.rnd, []
    q = ctx.quick
    lo, hi, top = 630_000_000, 2_000_000_000, 2**64
    edge = set()
    for u, z in UNITS.items():
        m = 10**z
        for b in (0, 1, lo * 10**(9 - z), hi * 10**(9 - z), top // m, (top - 1) // m, top, 2**63, 2**63 // m, 10**9 * 10**(9 - z), 2**32, 2**31):
            for d in (-2, -1, 0, 1, 2):
                if b + d >= 0:
                    edge.add(b + d)
    edge = sorted(edge)
    for n in edge:
        for f in [('epoch', u) for u in UNITS] + [('auto',)]:
            out.append(sc('t,u\n%d,x\n' % n, fmt=f, col=('index', 0)))
        # as a later row
        u = r.choice(list(UNITS))
        out.append(sc('t\n%d\n%d\n' % (1, n), fmt=('epoch', u), col=('index', 0)))
        v = r.choice(list(UNITS))
        first = r.randrange(lo, hi) * 10**(9 - UNITS[v])
        out.append(sc('t\n%d\n%d\n%d\n' % (first, n, first + 1), fmt=('auto',), col=('index', 0)))
    for _ in range(500 if q else 10000):
        f = r.choice([('epoch', u) for u in UNITS] + [('auto',)] * 4)
        vals = []
        for k in range(r.randrange(1, 4)):
            x = r.random()
            if x < 0.5:
                v = str(r.randrange(lo, hi) * 10**r.choice([0, 3, 6, 9]) + r.randrange(0, 1000))
            elif x < 0.8:
                v = str(r.randrange(10**r.randrange(1, 22)))
            else:
                v = r.choice(['', '-5', '+5', '1.5', '1e9', '0x10', 'abc', '12 3', '1,', '\u0661\u0662', '0' * 30 + '7', '00000000001500000000', '+', '-', '١٢٣', '1_000', ' 1500000000 ', '"1600000000"'])
            vals.append(v)
        name = r.choice(['t', 't', 'timeSeconds', 'timeMillis', 'timeNanos', 'x_timeMicros'])
        out.append(sc(name + ',u\n' + ''.join(v + ',x\n' for v in vals), fmt=f, col=('auto',) if r.random() < 0.5 else ('index', 0), delim=','))
    # a unit in the name fixes the unit, whatever the value
    for u in UNITS:
        for n in (1, 5, lo, hi * 1000, 10**18, 2**64 // 10**UNITS[u]):
            out.append(sc('time%s\n%d\n' % (UN[u].title(), n), fmt=('auto',)))
            out.append(sc('a_time%s\n%d\n' % (UN[u], n), fmt=('auto',), col=('index', 0)))
            out.append(sc('a_%s\n%d\n' % (UN[u], n), fmt=('auto',), col=('name', 'a_' + UN[u])))
            w = r.choice(list(UNITS))
            out.append(sc('time%s\n%d\n' % (UN[u], n), fmt=('epoch', w)))
    # ... only at the end of the name, in small letters where the name was given, and only that of the chosen column
    for u in UNITS:
        x = UN[u]
        names = [x + '_at', x, x.title(), x.upper(), 'a ' + x, x + ' ', x[:-1], x + 's', x + '2', '2' + x, 'time' + x.title() + 'Utc', x + 'time', 'x' + x[1:], '_' + x + '_', x + UN[r.choice(list(UNITS))], UN[r.choice(list(UNITS))] + '.' + x,
                 'time_' + x + '_date', x[0].upper() + x[1:-1] + 'S']
        for name in names:
            for n in (7, r.randrange(lo, hi) * 10**(9 - r.choice(list(UNITS.values())))) if q else (7, lo, hi * 1000, 1_500_000_000, 1_500_000_000_000, 1_500_000_000_000_000, 1_500_000_000_000_000_000, 10**18):
                for col in (('name', name), ('index', 0), ('index', 1), ('auto',)):
                    other = r.choice(['t', 'time', 'o' + UN[r.choice(list(UNITS))], x])
                    text = '%s,%s\n%d,%d\n' % (name, other, n, r.randrange(lo, hi) * 10**(9 - r.choice(list(UNITS.values()))))
                    out.append(sc(text, fmt=('auto',), col=col, delim=','))
    return out


# ------------------------------------------------------------------------- C21
def transitions(y):
    """local times around the changes of the zones"""
    def nth(m, k):
        d = datetime.date(y, m, 1)
        return d + datetime.timedelta((6 - d.weekday()) % 7 + 7 * (k - 1))

    def last(m):
        d = datetime.date(y, m, 31 if m in (3, 10) else 30)
        return d - datetime.timedelta((d.weekday() + 1) % 7)
    return [('NewYork', nth(3, 2), 2), ('NewYork', nth(11, 1), 1), ('NewYork', nth(11, 1), 2), ('London', last(3), 1), ('London', last(10), 1), ('London', last(10), 2),
            ('Berlin', last(3), 2), ('Berlin', last(10), 2), ('Berlin', last(10), 3), ('Sydney', nth(10, 1), 2), ('Sydney', nth(4, 1), 2), ('Sydney', nth(4, 1), 3),
            ('LordHowe', nth(10, 1), 2), ('LordHowe', nth(4, 1), 1.5), ('LordHowe', nth(4, 1), 2),
            ('Azores', last(3), 0), ('Azores', last(10), 0), ('Azores', last(10), 1), ('Beirut', last(3), 0), ('Beirut', last(10), -1), ('Beirut', last(10), 0)]


AUTO1 = ['%Y%m%d.%H%M%S', '%Y%m%d %H%M%S', '%Y%m%d %H:%M:%S', '%Y/%m/%d-%H:%M:%S', '%Y%m%d']
AUTO2 = [('%Y%m%d', '%H%M%S%3f'), ('%Y%m%d', '%H%M%S'), ('%Y%m%d', '%H:%M:%S'), ('%Y%m%d', '%-H:%M')]
OWN = ['%Y-%m-%d %H:%M:%S', '%d/%m/%Y %H:%M', '%Y%m%d%H%M%S', '%Y-%m-%dT%H:%M:%S%.f', '%m/%d/%Y', '%d.%m.%Y', '%Y-%m-%d %H:%M:%S %z', '%F %T', '%FT%T%:z', '%d %b %Y %H:%M:%S', '%Y-%m-%d %H:%M:%S%.f%:z', '%H:%M:%S %Y%m%d',
       '%Y%m%d%H%M%S%6f', '%Y%m%d-%H%M%S%9f', '%T%z %F', '%+', '100%% %F %T']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def off(z, colon):
    return '%s%02d%s%02d' % ('-' if z < 0 else '+', abs(z) // 60, ':' if colon else '', abs(z) % 60)


def fmt_text(f, d, ns, z, r):
    """d: list year..second"""
    Y, m, D, H, M, S = d
    frac = r.choice(['', '.%09d' % ns, '.%03d' % (ns // 10**6), '.%06d' % (ns // 1000), '.5'])
    f = f.replace('%%', '\0').replace('%+', '%FT%T%.f%:z')
    f = f.replace('%F', '%Y-%m-%d').replace('%T', '%H:%M:%S')
    for a, b in (('%Y', '%04d' % Y), ('%m', '%02d' % m), ('%d', '%02d' % D), ('%H', '%02d' % H), ('%-H', '%d' % H), ('%M', '%02d' % M), ('%S', '%02d' % S), ('%3f', '%03d' % (ns // 10**6)),
                 ('%6f', '%06d' % (ns // 1000)), ('%9f', '%09d' % ns), ('%.f', frac), ('%z', off(z, False)), ('%:z', off(z, True)), ('%b', MON[(m - 1) % 12])):
        f = f.replace(a, b)
    return f.replace('\0', '%')


def when(r, zone='UTC'):
    k = r.random()
    if zone in ('UTC', 'Tokyo', 'Kolkata', 'GMTp5', 'none'):
        if k < 0.2:
            y, m, d = r.choice([(1970, 1, 1), (1969, 12, 31), (1970, 1, 2), (2554, 7, 21), (2554, 7, 22), (2000, 2, 29), (1999, 12, 31), (2000, 1, 1), (2100, 2, 28), (2100, 3, 1), (2400, 2, 29), (1972, 2, 29), (2038, 1, 19)])
        else:
            y, m, d = r.randrange(1971, 2200), r.randrange(1, 13), r.randrange(1, 29)
    else:
        # the rules of the specification hold for these years
        y, m, d = r.randrange(2008, 2037), r.randrange(1, 13), r.randrange(1, 29)
    if r.random() < 0.15:
        d = r.choice([29, 30, 31])
    if r.random() < 0.03:
        m, d = r.choice([(2, 29), (2, 30), (13, 1), (0, 1), (1, 0), (4, 31), (6, 31), (12, 32)])
    h, mi, s = r.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0)] + [(r.randrange(24), r.randrange(60), r.randrange(60))] * 4)
    if r.random() < 0.04:
        h, mi, s = r.choice([(24, 0, 0), (h, 60, 0), (h, mi, 60), (h, mi, 61), (23, 59, 60)])
    return [y, m, d, h, mi, s], r.choice([0, 1, 999999999, 123456789, 500000000])


def g_c21(ctx):
    r, out = ctx.rnd, []
    q = ctx.quick

    def one(fs, fmt, zone, rows, single=True, chosen=None):
        """rows: list of ([..], ns, offset); fs: format(s) to write with"""
        lines = []
        for d, ns, z in rows:
            if single:
                lines.append(fmt_text(fs, d, ns, z, r) + ',x')
            else:
                lines.append(fmt_text(fs[0], d, ns, z, r) + ',' + fmt_text(fs[1], d, ns, z, r))
        col = ('index', 0) if single else ('dtindex', 0, 1)
        out.append(sc('h,i\n' + '\n'.join(lines) + '\n', fmt=fmt, zone=zone, col=col, delim=','))

    offs = [0, 60, -300, 330, 1439, -1439, 845, -720, 1]
    for zone in ZONES:
        for f in AUTO1 + ['%+']:
            for _ in range(5 if q else 60):
                one(f, ('auto',), zone, [when(r, zone) + (r.choice(offs),) for _ in range(r.choice([1, 1, 2]))])
            one(f, ('explicit', f), zone, [when(r, zone) + (r.choice(offs),)])
        for f in AUTO2:
            for _ in range(5 if q else 60):
                one(f, ('auto',), zone, [when(r, zone) + (0,) for _ in range(r.choice([1, 1, 2]))], single=False)
            one(f, ('dt', f[0], f[1]), zone, [when(r, zone) + (0,)], single=False)
        for f in OWN:
            for _ in range(4 if q else 40):
                one(f, ('explicit', f), zone, [when(r, zone) + (r.choice(offs),) for _ in range(r.choice([1, 2, 3]))])
        for f in [('%d.%m.%Y', '%H:%M:%S%.f'), ('%b %d %Y', '%H%M'), ('%m-%d-%Y', '%T%z')]:
            for _ in range(3 if q else 40):
                one(f, ('dt', f[0], f[1]), zone, [when(r, zone) + (r.choice(offs),) for _ in range(r.choice([1, 2]))], single=False)
    # every second around the changes of the clock, exactly at the edges
    years = [2008, 2015, 2019, 2024, 2036] if q else range(2008, 2037)
    for y in years:
        for zone, day, hour in transitions(y):
            base = datetime.datetime.combine(day, datetime.time()) + datetime.timedelta(hours=hour)
            # days that do not begin at midnight, or begin twice
            for k in (-1, 0, 1):
                if q and k and r.random() > 0.3:
                    continue
                x = day + datetime.timedelta(days=k)
                d = [x.year, x.month, x.day, 0, 0, 0]
                first = [([y, 6, 20, 0, 0, 0], 0, 0)] if r.random() < 0.7 else []
                f = r.choice(['%Y%m%d', '%m/%d/%Y', '%F'])
                one(f, ('auto',) if f == '%Y%m%d' and r.random() < 0.7 else ('explicit', f), zone, first + [(d, 0, 0)])
            for dt in (-3600, -1801, -1800, -1799, -1, 0, 1, 1799, 1800, 1801, 3599, 3600, 3601, 7200):
                if q and r.random() > 0.7 and dt not in (-1, 0):
                    continue
                x = base + datetime.timedelta(seconds=dt)
                d = [x.year, x.month, x.day, x.hour, x.minute, x.second]
                f = r.choice(AUTO1[:4])
                if r.random() < 0.5:
                    one(f, ('auto',), zone, [(d, 0, 0)])
                else:
                    g = r.choice(OWN[:1] + OWN[2:4])
                    one(g, ('explicit', g), zone, [([y, 6 if r.random() < 0.5 else 12, 20, 3, 4, 5], 0, 0), (d, 0, 0)])
    # the same clock time at every hour of a year
    for zone in ZONES[1:]:
        for m in range(1, 13):
            d = [r.randrange(2008, 2037), m, r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)]
            one(AUTO1[1], ('auto',), zone, [(d, 0, 0)])
    # texts that match no format, or not the one of the first row
    good = ['20190102 101112', '20190102.101112', '20190102 10:11:12', '2019/01/02-10:11:12', '20190102', '2019-01-02T10:11:12Z', '2019-01-02T10:11:12+01:00', '2019-01-02T10:11:12.123456789-05:30', '1500000000']
    wrong = ['', 'x', '2019-01-02', '2019-01-02 10:11:12', '20190102 10:11', '20190102T101112', '2019/01/02 10:11:12', '20190102 101112x', 'x20190102', '10:11:12', '20190102 256060', '20191301', '2019-01-02T10:11:12',
             '2019-01-02T10:11:12+24:00', '20190102 101112.5', '20190102 10:11:12 PM', '2019013', '-20190102', '20190102.', '.101112', '20190102 -1:11:12', '2019-01-02T25:11:12Z']
    for a in good + wrong:
        out.append(sc('h\n%s\n' % a, fmt=('auto',), zone='UTC', col=('index', 0), delim=','))
        out.append(sc('h\n%s\n' % a, fmt=('auto',), zone='none', col=('index', 0), delim=','))
    for a in good:
        for b in good + wrong:
            if q and r.random() > 0.6:
                continue
            if a == good[4] and b in good[:3]:
                pass
            out.append(sc('h\n%s\n%s\n' % (a, b), fmt=('auto',), zone=r.choice(['UTC', 'Tokyo']), col=('index', 0), delim=','))
    # one character more, less or other
    def near(a):
        i = r.randrange(1, len(a) - 1)
        c = r.choice(['', ' ', ' ', '\t', '\u2003', '+', '-', ':', '.', '0', 'x', '\u2212', '/'])
        return a[:i] + c + a[i + r.choice([0, 1]) if c else i + 1:]
    more = ['2019-01-02 10:11:12 +01:00', '2019-01-02T10:11:12.5 UTC', '02 Jan 2019 10:11:12', '02/01/2019 10:11']
    own = {a: f for a, f in zip(more[2:], ['%d %b %Y %H:%M:%S', '%d/%m/%Y %H:%M'])}
    own['2019-01-02 10:11:12 +0100'] = '%F %T %z'
    own['2019-01-02T10:11:12+01:00'] = '%FT%T%:z'
    own['20190102101112123'] = '%Y%m%d%H%M%S%3f'
    for _ in range(700 if q else 8000):
        if r.random() < 0.4:
            a = r.choice(list(own))
            f = ('explicit', own[a])
        else:
            a, f = r.choice(good[:-1] + more), ('auto',)
        b = near(a)
        if r.random() < 0.2:
            b = near(b)
        if r.random() < 0.1:
            b = b.swapcase()
        rows = r.choice([[b], [a, b], [b, a]])
        out.append(sc('h,i\n' + ''.join(x + ',y\n' for x in rows), fmt=f, zone=r.choice(['UTC', 'UTC', 'Tokyo', 'none']), col=('index', 0), delim=','))
    # formats that do not say what they should
    for f, t in [('%Y%m%d %H', '20190102 05'), ('%Y', '2019'), ('%Y-%m', '2019-02'), ('%H:%M:%S', '10:11:12'), ('', ''), ('abc', 'abc'), ('%Y%m%d %M:%S', '20190102 05:06'), ('%m%d %H:%M', '0102 10:11'), ('%Y%m%d %S', '20190102 06'),
                 ('%Y%m%d %z', '20190102 +0000'), ('%F%:z', '2019-01-02-05:30'), ('%F %T%z', '2019-01-02 03:04:05+2400'), ('%F %T%z', '2019-01-02 03:04:05-9959'), ('%Y%m%d%.f', '20190102.5'), ('%F %b', '2019-01-02 Jan')]:
        out.append(sc('h,i\n%s,x\n' % t, fmt=('explicit', f), zone='UTC', col=('index', 0), delim=','))
    return out


def check(ctx):
    g = {'C17': g_c17, 'C18': g_c18, 'C19': g_c19, 'C20': g_c20, 'C21': g_c21}[ctx.prop]
    if ctx.prop == 'C17':
        ctx.design('CsvDesign', 'CsvDesign.cfg', workers=8, min_states=100000, what='all tables of 2 records, 2 fields: written in any style, read back')
        if not ctx.quick:
            ctx.design('CsvDesign', 'CsvDesignT.cfg', workers=8, min_states=100000, what='all records of 2 fields of up to 3 characters')
    if ctx.prop in ('C21', 'C22'):
        ctx.design('TimeDesign', 'TimeDesign.cfg' if ctx.quick else 'TimeDesignT.cfg', workers=8, min_states=100000, what='every half hour of whole years in zones with summer time')
    recs = ctx.execute(g(ctx))
    ctx.validate('CsvTrace', recs, what='recorded reads of csv inputs')
    return ctx.finish(assumptions=['zones are those of spec/Time.tla; strftime directives other than those it lists are not generated'])
