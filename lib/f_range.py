"""C22: begin and end times (spec/RangeTime.tla)."""
import datetime, itertools
from f_csv import ZONES, UNITS, OWN, AUTO1, MON, cs, fmt_text, transitions, when, off

DATES = ['%Y%m%d', '%Y/%m/%d', '%Y-%m-%d']
BETWEEN = [' ', '-', 'T']
TIMES = ['%H:%M:%S', '%H%M%S']
FRACS = ['', '%.f']


def sc(text, zone='UTC'):
    return {'op': 'range', 'text': cs(text), 'zone': zone}


def generate(ctx):
    r, out, q = ctx.rnd, [], ctx.quick
    lo, hi = 630_000_000, 2_000_000_000
    # numbers: every boundary of every unit, number of digits and length that is completed
    nums = set()
    for z in UNITS.values():
        for b in (lo * 10**(9 - z), hi * 10**(9 - z), 10**9 * 10**(9 - z)):
            nums |= {b + d for d in (-2, -1, 0, 1, 2)}
    nums |= {2**64 - 1, 2**64, 2**63, 2**63 - 1, 10**19, 10**20, 10**25, 0, 1, 9, 10**6}
    for n in sorted(nums):
        for z in ('none', 'UTC', r.choice(ZONES)):
            out.append(sc(str(n), z))
        out.append(sc('0' * r.randrange(1, 8) + str(n)))
    for k in range(1, 22):
        for _ in range(4 if q else 60):
            out.append(sc(str(r.randrange(1, 10)) + ''.join(r.choice('0123456789') for _ in range(k - 1)), r.choice(ZONES)))
    # digits of a date and a time without anything in between
    for f in ['%Y%j', '%Y%m%d%H', '%Y%m%d%H%M', '%Y%m%d%H%M%S', '%Y%m%d%H%M%S%3f', '%Y%m%d%H%M%S%6f', '%y%m%d', '%m%d%Y', '%d%m%Y', '%y%m', '%H%M%S', '%H%M', '%j', '%Y%U', '%Y%m%d%H%M%S%6f000']:
        for _ in range(8 if q else 150):
            y = r.choice([1970, 1999, 2000, 2001, 2009, 2012, 2019, 2033, 2050, 2100, 2554, 9999])
            d = datetime.datetime(y, r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10**6))
            t = d.strftime(f.replace('%3f', '%03d' % (d.microsecond // 1000)).replace('%6f', '%06d' % d.microsecond))
            out.append(sc(t, r.choice(ZONES if 2008 <= y <= 2036 else ['none', 'UTC', 'Tokyo', 'Kolkata', 'GMTp5'])))
            # ... and with some of it left out
            t = t[:r.randrange(len(t) + 1)]
            if not (t[:4].isdigit() and len(t) in (4, 6, 8)):
                out.append(sc(t, r.choice(['none', 'UTC'])))
    for _ in range(100 if q else 3000):
        u = r.choice(list(UNITS))
        out.append(sc(str(r.randrange(lo, hi) * 10**(9 - UNITS[u]) + r.randrange(10**(9 - UNITS[u]))), r.choice(ZONES)))
    # years, months and days
    for y in [1969, 1970, 1971, 2000, 2019, 2554, 2555, 9999, 1, 999] + [r.randrange(2008, 2037) for _ in range(6)]:
        for m in [None] + list(range(0, 14)):
            if q and m is not None and r.random() > 0.5:
                continue
            for d in [None] + [0, 1, 15, 28, 29, 30, 31, 32]:
                if m is None and d is not None or d is not None and q and r.random() > 0.3:
                    continue
                t = '%04d' % y + ('' if m is None else '%02d' % m) + ('' if d is None else '%02d' % d)
                zs = ZONES if 2008 <= y <= 2036 else ['none', 'UTC', 'Tokyo', 'Kolkata', 'GMTp5']
                out.append(sc(t, r.choice(zs)))
    for z in ZONES:
        for t in ('2019', '201907', '20190704', '2036', '200811'):
            out.append(sc(t, z))
    # every notation
    offs = [0, 60, -300, 330, 1439, -1439, 845, -720, 1]
    forms = [''.join(x) for x in itertools.product(DATES, BETWEEN, TIMES, FRACS)]
    for f in forms:
        for z in ZONES:
            for _ in range(2 if q else 30):
                d, ns = when(r, z)
                out.append(sc(fmt_text(f, d, ns, 0, r), z))
    for z in ZONES:
        for _ in range(20 if q else 300):
            d, ns = when(r)
            out.append(sc(fmt_text('%+', d, ns, r.choice(offs), r), z))
            t = fmt_text('%FT%T%.f', d, ns, 0, r)
            out.append(sc(t + r.choice(['Z', '+00:00', '-00:00', '+0530', '-0100', '+24:00', '-24:00', '+23:59', '+5:30', '+05', 'X', ' UTCx', '+05:60']), z))
    # notations that are not those
    for f in ['%m/%d/%Y', '%d/%m/%Y', '%d.%m.%Y', '%m-%d-%Y', '%d-%m-%Y', '%Y.%m.%d', '%y-%m-%d', '%y/%m/%d', '%b %d %Y', '%d %B %Y', '%d-%b-%Y', '%a %b %d %Y', '%Y-%j', '%G-W%V-%u', '%Y%j', '%Y-%m', '%B', '%Y_%m_%d', '%Y %m %d', '%A']:
        for g in ['', '%H:%M:%S', '%H:%M:%S', '%H:%M:%S', '%H%M%S', '%H%M%S', '%H:%M', '%I:%M:%S %p', '%H', '%H.%M.%S', '%H-%M-%S']:
            if q and r.random() > 0.6:
                continue
            d = datetime.datetime(r.randrange(2008, 2037), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))
            t = d.strftime(f + (r.choice(BETWEEN) if g else '') + g)
            out.append(sc(t + r.choice(['', '', '', '', '', '.5', 'Z', ' UTC', '+01:00']), r.choice(['none', 'UTC', 'UTC', 'UTC'])))
    for f in DATES:
        for g in ['%H:%M', '%I:%M:%S %p', '%H', '%H.%M.%S', '%H-%M-%S', '%H%M', '%I%M%S%p', '%H:%M:%S%z', '%H:%M:%S,5']:
            for b in BETWEEN + ['', '_', '.', '/', ',', ', ']:
                d = datetime.datetime(r.randrange(2008, 2037), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))
                out.append(sc(d.strftime(f + b + g), r.choice(['none', 'UTC'])))
    # fractions of every length
    for k in range(0, 12):
        f = ''.join(r.choice('0123456789') for _ in range(k))
        for base in ('20190704-030405.', '2019-07-04 03:04:05.', '2019/07/04T030405.'):
            out.append(sc(base + f))
        out.append(sc('2019-07-04T03:04:05.' + f + '+01:00', 'none'))
    # edges of what can be represented, and of the day
    for t in ['1970-01-01T00:00:00Z', '1969-12-31T23:59:59.999999999Z', '1970-01-01T00:00:00+00:01', '1969-12-31T23:59:59-00:01', '2554-07-21T23:34:33.709551615Z', '2554-07-21T23:34:33.709551616Z',
              '2554-07-21T23:34:34Z', '2554-07-22T00:34:33.709551615+01:00', '9999-12-31T23:59:59Z', '19700101-000000', '19691231-235959', '25540721-233433.709551615', '25540721-233433.709551616',
              '2019-01-01T24:00:00Z', '2019-01-01T23:59:60Z', '2019-01-01T23:59:61Z', '2016-12-31 23:59:60', '1969-12-31 23:59:60', '19691231-235960.999999999', '1969-12-31T23:59:60Z', '1969-12-31T22:59:60.5-01:00', '1970-01-01 00:00:60', '2554-07-21 23:34:60', '2016-12-31 23:59:60.5', '2019-02-29T00:00:00Z', '2020-02-29T00:00:00Z', '2100-02-29 00:00:00', '2000-02-29 00:00:00']:
        for z in ('none', 'UTC', 'Tokyo', 'GMTp5'):
            out.append(sc(t, z))
    # clock changes
    for y in [2008, 2016, 2019, 2024, 2036] if q else range(2008, 2037):
        for zone, day, hour in transitions(y):
            base = datetime.datetime.combine(day, datetime.time()) + datetime.timedelta(hours=hour)
            for dt in (-3601, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200):
                if q and r.random() > 0.5 and dt not in (-1, 0):
                    continue
                x = base + datetime.timedelta(seconds=dt)
                out.append(sc(fmt_text(r.choice(forms), [x.year, x.month, x.day, x.hour, x.minute, x.second], r.choice([0, 1, 999999999]), 0, r), zone))
    # anything else
    good = ['2019', '201901', '20190102', '20190102-101112', '2019-01-02 10:11:12', '2019/01/02T101112.5', '2019-01-02T10:11:12Z', '1500000000', '1500000000000']
    for a in good:
        for i in range(len(a) + 1):
            for c in ['', 'x', '-', '/', '+', '.', ':', '5', 'é', '\u0661', ' ', '\u2003', '\t']:
                if q and r.random() > 0.18:
                    continue
                t = a[:i] + c + a[i + 1 if c == '' else i:]
                out.append(sc(t, r.choice(['UTC', 'UTC', 'none'])))
    for t in ['', 'x', '2019-01', '2019-01-02', '2019/01/02', '10:11:12', 'now', '20190102-10', '20190102-1011', '2019-01-02T10:11', '1.5e9', '-1500000000', '0x5', '20190102_101112', '2019.01.02 10:11:12', '20190102101112', '١٢٣٤', '2019-01/02 10:11:12', '20190102  101112x', '20190102  101112', '20190102 \t 10:11:12', '2019-01-02t10:11:12z', '2019-01-02 10:11:12 +01:00', '20190102101112.5', '2019-01-0210:11:12',
              '20190102-101112 UTC', '2019-01-02 10:11:12 PM', '2019-1-2 3:4:5', '2019/1/2-3:4:5', '19-01-02 03:04:05', '20190102-10:1112', '2019-01-02-101112', '2019-01-02T10:11:12.+01:00', '2019-01-02T10:11:12+01:00:00', '2019-01-02T10:11:12.5.5Z']:
        for z in ('UTC', 'none'):
            out.append(sc(t, z))
    return out


def check(ctx):
    ctx.design('TimeDesign', 'TimeDesign.cfg' if ctx.quick else 'TimeDesignT.cfg', workers=8, min_states=100000, what='every half hour of whole years in zones with summer time')
    recs = ctx.execute(generate(ctx))
    ctx.validate('RangeTrace', recs, what='begin and end times parsed by the real code')
    return ctx.finish(assumptions=['zones are those of spec/Time.tla'])
