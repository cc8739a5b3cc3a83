"""C11, C12: a directory as input (spec/MultiFile.tla)."""
import itertools

NAMES = ['a', 'b', 'c', 'A', 'd', 'aa', '\u00e9']
TYPES = ['J', 'T', 'I', 'D', 'Z']


def cs(s):
    return [ord(c) for c in s]


def val(r, t):
    if t == 'Z':
        return [t, r.randrange(2), 0]
    if t == 'T':
        return [t, r.randrange(12), 0]
    if t == 'D':
        return [t, r.randrange(0, 9), 0]
    return [t, r.randrange(0, 100000), 0]


def file(r, id, name, n, t, nrows, fail=-1, bad=False, kind='file'):
    rows = []
    for _ in range(nrows):
        v = [val(r, x) for x in t]
        if v and t[0] == 'J':
            v[0] = ['J', r.randrange(10**6), 0]
        rows.append({'ts': r.randrange(1, 100), 'v': v})
    return {'id': id, 'name': list(name.encode()) if isinstance(name, str) else list(name), 'kind': kind,
            'n': [cs(x) for x in n], 't': list(t), 'rows': rows, 'fail': fail, 'bad': bad}


FNAMES = ['1.csv', '2.csv', '10.csv', '02.csv', 'a', 'B', 'b', 'A', 'aa', 'a.b', 'a-b', 'a b', '~', '.hidden', '_', 'Z',
          '\u00e9', '\u4e2d', '\U0001f600', 'z.csv', '0', '9', '\u007f', '\uff21', '\ue000', '\U0001f600a']


KINDS = ['file', 'file', 'file', 'dir', 'dir', 'dirlink', 'link', 'hard']


def sc(r, files):
    files = list(files)
    r.shuffle(files)
    return {'op': 'multi', 'files': files, 'dir': r.choice(['d', 'd', 'd', 'x.csv', 'y.zip', 'z.gz', 'a b', '.d']), 'via': r.choice(['', '', '', 'slash', 'dots', 'link'])}


def g_c11(ctx):
    r, out = ctx.rnd, []
    cols, t = ['a', 'b'], 'JT'
    out.append(sc(r, []))
    # every order of few names, with rows or without
    for k in (1, 2, 3):
        for names in itertools.combinations(FNAMES[:14], k):
            if k == 3 and r.random() > (0.35 if ctx.quick else 1):
                continue
            out.append(sc(r, [file(r, i + 1, n, cols, t, r.choice([0, 0, 1, 1, 2, 3])) for i, n in enumerate(names)]))
    # sub-directories
    for _ in range(150 if ctx.quick else 2000):
        names = r.sample(FNAMES, r.randrange(1, 7))
        out.append(sc(r, [file(r, i + 1, n, cols, t, r.choice([0, 1, 2]), kind=r.choice(KINDS))
                          for i, n in enumerate(names)]))
    for _ in range(250 if ctx.quick else 3000):
        k = r.randrange(0, 12)
        names = r.sample(FNAMES, k)
        out.append(sc(r, [file(r, i + 1, n, cols, t, r.choice([0, 0, 1, 2, 4])) for i, n in enumerate(names)]))
    # failures while reading or opening
    for _ in range(250 if ctx.quick else 3000):
        k = r.randrange(1, 6)
        names = r.sample(FNAMES, k)
        fs = [file(r, i + 1, n, cols, t, r.choice([0, 1, 2, 3])) for i, n in enumerate(names)]
        f = r.choice(fs)
        if r.random() < 0.7:
            f['fail'] = r.randrange(0, len(f['rows']) + 1)
        else:
            f['bad'] = True
        out.append(sc(r, fs))
    # many files
    for k in ((150, 1100) if ctx.quick else (150, 1200, 2500)):
        out.append(sc(r, [file(r, i + 1, 'f%d' % i, cols, t, r.choice([0, 1, 2])) for i in range(k)]))
    for k in (300,) if ctx.quick else (300, 3000):
        out.append(sc(r, [file(r, i + 1, n, cols, t, k) for i, n in enumerate(['2', '10', '1'])]))
    return out


def g_c12(ctx):
    r, out = ctx.rnd, []
    # all second headers over three names (and two types) against all first headers up to two columns
    for ref in [()] + [x for k in (1, 2, 3) for x in itertools.permutations('abc', k)]:
        for k in range(0, 4):
            for new in itertools.permutations('abcd', k):
                if ctx.quick and k == 3 and r.random() > 0.4:
                    continue
                ty = {c: 'J' for c in 'abcd'}
                ty['b'] = 'T'
                t2 = dict(ty)
                if r.random() < 0.2:
                    t2[r.choice('abcd')] = 'I'
                out.append(sc(r, [file(r, 1, '1', ref, [ty[c] for c in ref], 1),
                                  file(r, 2, '2', new, [t2[c] for c in new], r.choice([0, 1, 2]))]))
    # reordered, with extra columns, several files
    for _ in range(500 if ctx.quick else 8000):
        n = r.choice([1, 2, 3, 4, 5])
        names = r.sample(NAMES, n)
        ty = {c: r.choice(TYPES) for c in NAMES}
        fs = [file(r, 1, '1', names, [ty[c] for c in names], r.choice([0, 1, 2]))]
        for k in range(r.choice([1, 1, 2, 3])):
            extra = [c for c in NAMES if c not in names and r.random() < 0.4]
            new = names + extra
            r.shuffle(new)
            if r.random() < 0.3:      # extra columns only behind the known ones
                new = names + extra
            t = [ty[c] for c in new]
            x = r.random()
            if x < 0.08 and new:
                del t[new.index(names[0])], new[new.index(names[0])]
            elif x < 0.16:
                t[r.randrange(len(t))] = r.choice(TYPES)
            fs.append(file(r, k + 2, str(k + 2), new, t, r.choice([0, 1, 2, 3])))
        out.append(sc(r, fs))
    # repeated names
    for _ in range(150 if ctx.quick else 2000):
        ref = [r.choice('ab') for _ in range(r.choice([2, 3]))]
        new = [r.choice('abc') for _ in range(r.choice([2, 3, 4]))]
        out.append(sc(r, [file(r, 1, '1', ref, 'J' * len(ref), 1), file(r, 2, '2', new, 'J' * len(new), 2)]))
    # many columns
    for n in (17, 40) if ctx.quick else (17, 40, 300):
        for _ in range(6):
            names = ['c%d' % i for i in range(n)]
            types = {c: r.choice(TYPES) for c in names}
            fs = []
            for k in range(3):
                x = list(names)
                for j in range(r.choice([0, 1, 5]) if k else 0):
                    x.append('x%d' % j)
                    types['x%d' % j] = 'J'
                if k:
                    r.shuffle(x)
                fs.append(file(r, k + 1, str(k + 1), x, [types[c] for c in x], 2))
            if r.random() < 0.3:
                i = fs[2]['n'].index(cs(names[-1]))
                fs[2]['t'][i] = 'F'
                for row in fs[2]['rows']:
                    row['v'][i] = ['F', 1, 0]
            out.append(sc(r, fs))
    # columns that differ in little: a few of them change places, or one becomes another
    for _ in range(200 if ctx.quick else 3000):
        n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 33, 64])
        like = r.choice(['c%02d', 'c%02d', 'col%d', 'c%02d_long_name_of_a_column', 'xyz%02dxyz'])
        names = [like % i for i in range(n)]
        if r.random() < 0.3:
            names = [like % i if i % 2 else (like % i).upper() for i in range(n)]
        one = r.choice(TYPES)
        types = {c: one if r.random() < 0.9 else r.choice(TYPES) for c in names} if r.random() < 0.5 else {c: one for c in names}
        fs = [file(r, 1, '1', names, [types[c] for c in names], r.choice([0, 1, 2]))]
        for k in range(r.choice([1, 1, 2])):
            x = list(names)
            how = r.random()
            if how < 0.35:
                i, j = sorted(r.sample(range(n), 2))
                x[i], x[j] = x[j], x[i]
            elif how < 0.5:
                i = r.randrange(n)
                x.insert(r.randrange(n), x.pop(i))
            elif how < 0.6:
                i = r.randrange(n)
                x[i:] = x[i:][::-1]
            elif how < 0.7 and n > 2:
                mid = x[1:-1]
                r.shuffle(mid)
                x = x[:1] + mid + x[-1:]
            t = [types[c] for c in x]
            if r.random() < 0.3:
                i = r.randrange(n)
                what = r.random()
                if what < 0.5:
                    x[i] = r.choice([x[i].swapcase(), x[i] + '_', x[i][:-1] + 'q', x[(i + 1) % n], like % n])
                else:
                    t[i] = r.choice(TYPES)
            if r.random() < 0.3:
                i = r.randrange(len(x) + 1)
                x.insert(i, 'new')
                t.insert(i, r.choice(TYPES))
            fs.append(file(r, k + 2, str(k + 2), x, t, r.choice([1, 2, 3])))
        out.append(sc(r, fs))
    return out


def check(ctx):
    scs = {'C11': g_c11, 'C12': g_c12}[ctx.prop](ctx)
    if ctx.prop == 'C12':
        ctx.design('Align', 'Align.cfg', workers=4, what='in-place swap map against alignment by name, all headers up to 3 columns')
    recs = ctx.execute(scs)
    ctx.validate('MultiFileTrace', recs, what='recorded reads of real directories')
    return ctx.finish(assumptions=['file names are valid UTF-8 (others are refused with a panic on purpose, see get_file_name)'])
