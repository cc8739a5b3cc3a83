"""C25: csv output (spec/CsvOut.tla)."""
import datetime, struct
from fractions import Fraction
from f_csv import ZONES, UNITS, cs, transitions

STRS = ['', 'a', ' ', 'a b', 'x,y', '"', 'say "hi"', 'two\nlines', 'cr\rhere', 'end\r\n', '""', ',', ';', '\t', "'", '-1', '1.50', '\u00e9t\u00e9', '\u20ac', '\U0001f600', 'a;b', 'a|b', 'a::b', '\\n', ' lead', 'trail ', '=1+1', 'null', '\ufeff', '\u00a0', 'x' * 40, '"a","b"', 'a\tb', '\x00', '\x7f']
DELIMS = [',', ',', ',', ';', '\t', '|', ' ', '::', '\u20ac', ', ', '"' if False else '~', '']


STD = {'NewYork': -18000, 'London': 0, 'Sydney': 36000, 'LordHowe': 37800, 'Berlin': 3600, 'Azores': -3600, 'Beirut': 7200}


def changes(zone):
    """seconds around the clock changes of a zone"""
    return [int((datetime.datetime(d.year, d.month, d.day) - datetime.datetime(1970, 1, 1)).total_seconds() + h * 3600 - STD[z])
            for y in range(2008, 2037) for z, d, h in transitions(y) if z == zone]


def dig(n):
    return [int(c) for c in str(abs(n))]


def dec(f):
    """exact decimal digits and exponent of a positive fraction with a power of two below it"""
    e = 0
    n, d = f.numerator, f.denominator
    k = d.bit_length() - 1
    n *= 5**k
    return {'d': [int(c) for c in str(n)], 'e': -k}


def num(k, bits):
    w, eb = (52, 2047) if k == 'D' else (23, 255)
    x = {'k': k, 'bits': '%x' % bits, 'what': 'num', 'neg': bool(bits >> (63 if k == 'D' else 31)), 'even': bits % 2 == 0, 'lo': {'d': [], 'e': 0}, 'hi': {'d': [], 'e': 0}}
    m, e = bits & ((1 << w) - 1), (bits >> w) & eb
    if e == eb:
        x['what'] = 'nan' if m else 'inf'
        if m:
            x['neg'] = False
        return x
    if e == 0 and m == 0:
        x['what'] = 'zero'
        return x
    bias = eb // 2 + w
    mm, ee = (m, 1 - bias) if e == 0 else (m | 1 << w, e - bias)
    half = Fraction(1, 2)
    low = half / 2 if m == 0 and e > 1 else half
    p = Fraction(2)**ee
    x['lo'], x['hi'] = dec((mm - low) * p), dec((mm + half) * p)
    return x


def dbl(f):
    return num('D', struct.unpack('>Q', struct.pack('>d', f))[0])


def flt(f):
    return num('F', struct.unpack('>I', struct.pack('>f', f))[0])


RANGES = {'B': (0, 255), 'C': (0, 65535), 'S': (-2**15, 2**15 - 1), 'I': (-2**31, 2**31 - 1), 'J': (-2**63, 2**63 - 1)}


def whole(r, k):
    lo, hi = RANGES[k]
    n = r.choice([lo, hi, 0, 1, max(lo, -1), lo + 1, hi - 1, r.randint(lo, hi), max(lo, min(hi, r.choice([-1, 1]) * r.randrange(10**r.randrange(1, 19))))])
    return {'k': k, 'neg': n < 0, 'd': dig(n)}


def floating(r, k):
    c = r.random()
    if c < 0.5:
        f = r.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e22, 123456789.0, 1e-7, 1e-5, 1.5, -2.25, 100.0, 1e15, 1e16, 1e17, 0.001, 3.0e10, float('inf'), float('-inf'), float('nan'), round(r.uniform(-1e6, 1e6), r.randrange(7)), r.uniform(-1, 1), float(r.randrange(-10**9, 10**9))])
        return dbl(f) if k == 'D' else flt(f)
    if k == 'F':
        return num('F', r.choice([r.randrange(2**32), r.randrange(1, 20), 0x7f7fffff, 0x00800000, 0x807fffff]))
    if c < 0.96:
        # moderate exponents, to keep the exact decimals short
        return num('D', r.randrange(2) << 63 | (1023 + r.randrange(-70, 70)) << 52 | r.choice([0, 1, 2**52 - 1, r.randrange(2**52), r.randrange(2**52)]))
    return num('D', r.choice([1, 2, 2**52, 2**52 - 1, 0x7fefffffffffffff, 0x3ff << 52, r.randrange(0x7ff << 52)]))


def value(r, k, strs):
    if r.random() < 0.15 or k == 'N':
        return {'k': 'N'}
    if k in RANGES:
        return whole(r, k)
    if k in 'DF':
        return floating(r, k)
    if k == 'T':
        return {'k': 'T', 't': cs(r.choice(strs))}
    return {'k': k}


def fraction(r):
    if r.random() < 0.3:
        m = r.choice([10**3, 10**6])
        return max(0, r.randrange(10**9) // m * m - r.choice([0, 1]))
    return r.choice([0, 1, 10**8, 999, 999999, 999999999, 999000000, 123456789, 5 * 10**6, r.randrange(10**9)])


def time(r, zone):
    c = r.random()
    if zone not in ('none', 'UTC', 'Tokyo', 'Kolkata', 'GMTp5'):
        # the rules of these zones hold for 2008 to 2036
        if c < 0.5:
            d = r.choice(changes(zone)) + r.choice([0, 3600, -3600, 1800, -1800])
            return d * 10**9 + r.choice([-1, 0, 1, -10**9, 10**9, 3599999999999, -3600 * 10**9])
        return r.randrange(1199145600, 2114380800) * 10**9 + fraction(r)
    if c < 0.3:
        return r.choice([0, 1, 999, 1000, 999999, 10**6, 10**9 - 1, 10**9, 86399999999999, 86400 * 10**9, 2**63 - 1, 2**63, 2**64 - 1, 951782400 * 10**9, 1582934400 * 10**9])
    if c < 0.6:
        # where a unit begins or ends
        m = r.choice([1, 10**3, 10**6, 10**9])
        return max(0, r.randrange(2**64) // m * m - r.choice([0, 1]))
    return r.randrange(2 * 10**9) * 10**9 + fraction(r)


def scenario(r, cfg, types, n, strs, via='sink', file='out.csv', bad=False):
    ts = [t for t in types]
    rows = []
    for _ in range(n):
        rows.append({'ts': dig(time(r, cfg['zone'] if cfg['print'] and cfg['style'] == 'human' else 'UTC')), 'v': [value(r, k, strs) for k in types]})
    names = [cs(r.choice(strs + ['a', 'b', 'v', 'price'])) for _ in types]
    return {'op': 'csvout', 'cfg': cfg, 'names': names, 'types': ['T' if t == 'N' else t for t in ts], 'rows': rows, 'via': via, 'file': file}


def generate(ctx):
    r, q, out = ctx.rnd, ctx.quick, []
    C = lambda delim=',', pr=True, name=None, style='epoch', unit='ns', zone='none': {'delim': cs(delim), 'print': pr, 'name': [] if name is None else [cs(name)], 'style': style, 'unit': unit, 'zone': zone}
    kinds = 'BCSIJDFT'
    # all layouts
    for style in ('epoch', 'human'):
        for unit in UNITS:
            for pr in (True, False):
                for zone in ZONES:
                    for name in (None, 'when', '', 'a,b', 'q"'):
                        if q and name is not None and r.random() > 0.25:
                            continue
                        for _ in range(1 if q else 6):
                            types = [r.choice(kinds) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
                            d = r.choice([x for x in DELIMS if x])
                            out.append(scenario(r, C(d, pr, name, style, unit, zone), types, r.choice([0, 1, 2, 4]), STRS, r.choice(['sink', 'factory'])))
    # times
    for style in ('epoch', 'human'):
        for unit in UNITS:
            for zone in ZONES[1:] if style == 'human' else ['none']:
                for _ in range((2 if style == 'human' else 6) if q else 20):
                    out.append(scenario(r, C(style=style, unit=unit, zone=zone), ['B'] if r.random() < 0.2 else [], 12, STRS))
    # texts against delimiters, also those that cannot be told apart otherwise
    for d in DELIMS:
        for k in range(1 if q else 6):
            for pr in (True, False):
                s = STRS + [d + 'x', 'x' + d, 'x' + d + 'y', d] if d else STRS
                out.append(scenario(r, C(d, pr), ['T'] * (1 + k % 3), 25, s))
                out.append(scenario(r, C(d, pr, style='human', unit=r.choice(list(UNITS)), zone='Kolkata'), ['T', 'I', 'T'], 8, s))
    for d in (':', '-', 'T', '+'):
        out.append(scenario(r, C(d, True, None, 'human', 'ns', 'UTC'), ['T', 'T'], 4, STRS + ['a:b', 'a-b', 'aTb', 'a+b']))
    # numbers
    for k in kinds[:-1]:
        for _ in range(6 if q else 120):
            out.append(scenario(r, C(pr=r.random() < 0.5), [k] * 2, 12 if k in RANGES else 8, STRS))
    # large files: more than the buffer of the writer
    for n, w in [(400, 6), (3000, 1), (20, 300)]:
        types = [r.choice('BSIJT') for _ in range(w)]
        out.append(scenario(r, C(style='human', zone='Tokyo', unit='ms'), types, n, STRS))
    # kinds that csv does not have
    for k in 'ZU':
        for i in range(8):
            s = scenario(r, C(pr=r.random() < 0.5), ['T', k, 'I'], 5, STRS)
            out.append(s)
    # nothing configured
    for _ in range(4):
        out.append(scenario(r, C(), ['T', 'I', 'D'], 5, STRS, 'default', r.choice(['o.csv', 'a.b.csv', 'csv'])))
    return out


def check(ctx):
    ctx.design('CsvOutDesign', 'CsvOutDesign.cfg' if ctx.quick else 'CsvOutDesignT.cfg', what='what is written reads back, tables of two columns of texts up to length %d' % (2 if ctx.quick else 3), min_states=9000)
    if not ctx.quick:
        ctx.design('CsvOutDesign', 'CsvOutDesignO.cfg', what='one column of texts up to length 4', min_states=8000)
    scs = generate(ctx)
    recs = ctx.execute(scs, hang_s=60)
    ctx.validate('CsvOutTrace', recs, what='%d recorded csv outputs' % len(scs))
    return ctx.finish(assumptions=['delimiters that are part of numbers (digits, point, sign, e) are not used with numbers',
                                   'zones with summer time: 2008 to 2036, with the rules of Time.tla'])
