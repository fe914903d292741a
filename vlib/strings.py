"""Strings for the format checks."""
import itertools


def enumerate_format(f, thorough):
    years = ['0000', '0001', '0004', '0100', '0400', '1899', '1900', '1999', '2000', '2019', '2020', '2024', '2100',
             '2400', '9999']
    if f == 'date':
        return ['%s-%02d-%02d' % (y, m, d) for y in years for m in range(14) for d in range(33)]
    offs = ['Z', 'z', '', '+00:00', '-00:00', '+01:00', '-01:00', '+23:59', '-23:59', '+24:00', '+05:30', '-05:30',
            '+00:60', '-24:00', '+1:00', '+0100', ' Z', '+01:0', '+12:00', '-12:00']
    ts = []
    for h, m, s in itertools.product((0, 1, 9, 10, 19, 20, 22, 23, 24, 25), (0, 1, 30, 58, 59, 60), (0, 1, 58, 59, 60, 61)):
        for o in ('Z', '', '+01:00'):
            ts.append('%02d:%02d:%02d%s' % (h, m, s, o))
    # leap seconds against offsets
    for o in offs:
        for h in range(24):
            for m in (0, 1, 29, 30, 58, 59):
                ts.append('%02d:%02d:60%s' % (h, m, o))
        for fr in ('.0', '.123456789', '.', ',5', '.a', '.1.2'):
            ts.append('12:30:15' + fr + o)
            ts.append('23:59:60' + fr + o)
    if thorough:
        for oh, om, sg in itertools.product(range(24), (0, 1, 15, 30, 59), '+-'):
            for h, m in itertools.product(range(24), (0, 1, 15, 29, 30, 44, 59)):
                ts.append('%02d:%02d:60%s%02d:%02d' % (h, m, sg, oh, om))
    if f == 'time':
        return ts
    if f == 'date-time':
        out = []
        ds = ['2020-02-29', '2019-02-29', '1900-02-29', '2000-02-29', '2020-04-31', '2020-12-31', '0000-01-01', '2020-13-01',
              '2020-00-10', '2016-12-31', '99999-01-01', '999-01-01']
        for i, t in enumerate(ts):
            out.append(ds[i % 2 * 9] + 'T' + t)
            if i % 7 == 0:
                out.append(ds[i // 7 % len(ds)] + 'Tt'[i // 7 % 2] + t)
        for d in ds:
            for sep in ('T', 't', ' ', '', 'TT', '_'):
                for t in ('10:00:00Z', '10:00:00', '23:59:60Z', '24:00:00Z'):
                    out.append(d + sep + t)
        for y in years:
            for m in range(14):
                for d in (0, 1, 28, 29, 30, 31, 32):
                    out.append('%s-%02d-%02dT00:00:00Z' % (y, m, d))
        return out
    octs = [str(n) for n in range(0, 262)] + ['00', '000', '01', '001', '010', '099', '0255', '256', '300', '999', '1000', '',
                                            '-1', '+1', '1a', 'a', ' 1', '1 ', '0x1', '1e1']
    out = []
    for i, o in enumerate(octs):
        for p in range(4):
            q = ['1', '22', '133', '0']
            q[p] = o
            out.append('.'.join(q))
    out += ['1.2.3', '1.2.3.4.5', '1..2.3', '.1.2.3', '1.2.3.', '1.2.3.4.', '1,2,3,4', '1.2.3.4/8', '::1', '', '.', '...', '0.0.0.0',
            '255.255.255.255', '256.255.255.255']
    return out


GOOD = {'date': ['2020-02-29', '1999-12-31', '2000-01-01'],
        'time': ['10:20:30Z', '23:59:60Z', '10:20:30.5+05:30', '10:20:30', '22:59:60-01:00', '00:29:60+00:30'],
        'date-time': ['2020-02-29T10:20:30Z', '2016-12-31t23:59:60z', '1999-12-31T23:59:59.999-23:59', '2020-01-01T00:00:00'],
        'ipv4': ['127.0.0.1', '255.255.255.255', '0.10.200.30', '1.2.3.4']}
ALPHA = list('0123456789-:.+TtZz ') + ['\n', '\0', '\u0660', '\uff10', 'a', '\u00e9', '/', ',']


def format_strings(rng, f, n):
    out = []
    for _ in range(n):
        s = list(rng.choice(GOOD[f]))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            k = rng.random()
            i = rng.randrange(len(s) + 1)
            if k < .55 and i < len(s):
                s[i] = str(rng.randrange(10)) if s[i].isdigit() and rng.random() < .75 else rng.choice(ALPHA)
            elif k < .7:
                s.insert(i, rng.choice(ALPHA))
            elif k < .85 and i < len(s):
                del s[i]
            elif k < .92 and i < len(s):
                s.insert(i, s[i])
            elif len(s) > 1:
                j = rng.randrange(len(s))
                i = min(i, len(s) - 1)
                s[i], s[j] = s[j], s[i]
        out.append(''.join(s))
    return out
