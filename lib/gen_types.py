"""Seeded values for the type helpers."""
import struct

from core import Scenario

SIZE = dict(Bool=1, Byte=1, Short=2, Char=2, Int=4, Long=8, Float=4, Double=8)
LANE = [0x00, 0x01, 0x7f, 0x80, 0xff]


def h(bs):
    return ''.join('%02x' % b for b in bs)


def num(n, size):
    return '%0*x' % (2 * size, n & ((1 << 8 * size) - 1))


F_CORNERS = [0.0, -0.0, 1.0, -1.0, 0.1, 2.0, -2.0, 0.5, float('inf'), float('-inf'), float('nan'), 1e10, -1e10, 255.0, 256.5,
             -128.5, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 9.223372036854775807e18, -9.3e18, 65535.9,
             -0.9, 1e-30, 3.4e38, -3.4e38, 16777217.0, 32767.99, -32769.0]


def fl(v, size):
    return struct.pack('>d' if size == 8 else '>f', v).hex()


def fspecial(size):
    if size == 4:
        return ['00000001', '80000001', '007fffff', '00800000', '7f7fffff', 'ff7fffff', '7f800001', 'ffc00000', '7fffffff',
                '3f7fffff', '3f800001', '4effffff', '4f000000', 'cf000000', 'cf000001', '5effffff', '5f000000']
    return ['0000000000000001', '8000000000000001', '000fffffffffffff', '0010000000000000', '7fefffffffffffff',
            'ffefffffffffffff', '7ff0000000000001', 'fff8000000000000', '7fffffffffffffff', '3fefffffffffffff',
            '3ff0000000000001', '41dfffffffc00000', '41e0000000000000', 'c1e0000000000000', 'c1e0000000200000',
            '43dfffffffffffff', '43e0000000000000', 'c3e0000000000000', '36a0000000000000', '3690000000000000',
            '3690000000000001', '380fffffc0000000', '380fffffe0000000', '47efffffe0000000', '47effffff0000000',
            '47efffffefffffff', '3ff0000010000000', '3ff0000030000000', '3ff0000010000001']


def corners(t):
    n = SIZE[t]
    if t == 'Bool':
        return ['00', '01']
    if t in ('Float', 'Double'):
        out = fspecial(n)
        for v in F_CORNERS:
            try:
                out.append(fl(v, n))
            except OverflowError:
                pass
        return out
    top = 1 << (8 * n - 1)
    vals = [0, 1, -1, 2, -2, 10, -10, 100, -100, top - 1, top - 2, -top, -top + 1, -top + 2, top // 2, -top // 2,
            top // 2 - 1, top // 2 + 1]
    for k in (7, 8, 15, 16, 24, 31, 32, 48, 52, 53, 63):
        if k < 8 * n:
            vals += [(1 << k) - 1, 1 << k, (1 << k) + 1, -(1 << k)]
    return sorted({num(v, n) for v in vals})


def rand(rng, t):
    n = SIZE[t]
    if t == 'Bool':
        return rng.choice(['00', '01'])
    k = rng.randrange(4)
    if k == 0:
        return h([rng.choice(LANE) for _ in range(n)])
    if k == 1:
        b = [0] * n
        b[rng.randrange(n)] = rng.choice(LANE + [rng.randrange(256)])
        if rng.random() < 0.4:
            b = [255 - x for x in b]
        return h(b)
    if k == 2 and t in ('Float', 'Double'):
        return fl(rng.choice([1, -1]) * rng.random() * 10 ** rng.randint(-10, 20), n)
    return h([rng.randrange(256) for _ in range(n)])


def near(rng, t, x):
    """A value related to x: its negation, a neighbour, the same with one byte changed."""
    n = SIZE[t]
    v = int(x, 16)
    k = rng.randrange(5)
    if k == 0:
        return num(-v, n) if t not in ('Float', 'Double') else num(v ^ (1 << (8 * n - 1)), n)
    if k == 1:
        return num(v + 1, n)
    if k == 2:
        return num(v - 1, n)
    if k == 3:
        return num(v ^ (1 << rng.randrange(8 * n)), n)
    return num(~v, n)


TEXTS = ['N', 'E', '61', '41', '62', '42', '61.62', '61.42', '41.42', '41.62', '61.62.63', '61.30', '30', '7a', '5a', '7b',
         '0', 'e9', 'c9', '3b1', '391', '3c3', '3c2', '3a3', '434', '414', 'd83d.de00', '61.0', '20', '61.20']


def palette(rng, t, size):
    if t in ('String', 'GenericString'):
        v = list(dict.fromkeys(rng.choice(TEXTS) for _ in range(3 * size)))[:size]
        while len(v) < size:
            base = rng.choice(v)
            base = [] if base in ('N', 'E') else base.split('.')
            v.append('.'.join(base + [rng.choice(['61', '41', '62', '39', '2d'])]))
        rng.shuffle(v)
        return v
    p = 'Int' if t == 'GenericInt' else t
    cs = corners(p)
    v = []
    while len(v) < size:
        r = rng.random()
        if v and r < 0.3:
            x = near(rng, p, rng.choice(v)) if p != 'Bool' else rand(rng, p)
        elif r < 0.75:
            x = rng.choice(cs)
        else:
            x = rand(rng, p)
        v.append(x)
        if p == 'Bool' and len(v) >= 3:
            break
    if t == 'GenericInt':
        v[0] = 'N'
    return v


ORDERED = ['Bool', 'Byte', 'Short', 'Char', 'Int', 'Long', 'Float', 'Double', 'String', 'GenericInt', 'GenericString']


def matrices(rng, n, what, prefix, size=24, thorough=False):
    out = []
    for t in ORDERED:
        if t not in ('Bool', 'String', 'GenericString', 'GenericInt'):  # all corners against each other
            cs = corners(t)
            for i in range(0, len(cs), 14):
                for j in range(i, len(cs), 14):
                    v = list(dict.fromkeys(cs[i:i + 14] + cs[j:j + 14]))
                    out.append(Scenario('%sc_%s_%d_%d' % (prefix, t, i, j), {}, ['pal %s %s' % (t, ' '.join(v))] + what))
        for i in range(n):
            out.append(Scenario('%s%s_%d' % (prefix, t, i), {},
                                ['pal %s %s' % (t, ' '.join(palette(rng, t, size)))] + what))
    if thorough:  # every pair of bytes
        for i in range(0, 256, 32):
            for j in range(i, 256, 32):
                v = ['%02x' % x for x in sorted(set(range(i, i + 32)) | set(range(j, j + 32)))]
                out.append(Scenario('%sall_%d_%d' % (prefix, i, j), {}, ['pal Byte ' + ' '.join(v)] + what))
    return out


def encodings(rng, n, prefix, thorough=False):
    out = []
    for t, size in SIZE.items():
        vals = list(corners(t))
        if size > 1:
            for lane in range(size):
                for b in LANE + [0x55, 0xa9]:
                    vals.append(h([b if i == lane else 0 for i in range(size)]))
                    vals.append(h([b if i == lane else 0xff for i in range(size)]))
        vals = list(dict.fromkeys(vals)) if t != 'Byte' else ['%02x' % i for i in range(256)]
        vals += [rand(rng, t) for _ in range(n)]
        ops = []
        for i, v in enumerate(vals):
            arr = [rng.randrange(256) for _ in range(size + rng.randrange(6))]
            if rng.random() < 0.3:
                arr = [rng.choice([0, 255])] * len(arr)
            pos = rng.randrange(len(arr) - size + 1)
            ops.append(('wr %s %s %d %s' % (t, v, pos, h(arr))).strip())
        for bad in (-1, 1, 2, size, 100, 2147483647, -2147483648):
            ops.append('wr %s %s %d %s' % (t, vals[-1], bad, h([7] * size)))
        for short in range(size):
            ops.append(('wr %s %s 0 %s' % (t, vals[0], h([9] * short))).strip())
        for i in range(0, len(ops), 60):
            out.append(Scenario('%s%s_%d' % (prefix, t, i), {}, ops[i:i + 60]))
    his = range(256) if thorough else sorted({0, 1, 0x7f, 0x80, 0xff, 0x55, 0xd8, 0xdf} | {rng.randrange(256) for _ in range(12)})
    for t in ('Short', 'Char'):
        for hi in his:
            out.append(Scenario('%srow_%s_%d' % (prefix, t, hi), {}, ['wrrow %s %d' % (t, hi)]))
    return out


def packs(rng, n, prefix):
    out = []
    for kind, t in (('long', 'Int'), ('int', 'Short'), ('int4', 'Short'), ('short', 'Byte')):
        cs = corners(t)
        pairs = [(a, b) for a in cs for b in cs]
        if len(pairs) > 900:
            pairs = rng.sample(pairs, 900)
        pairs += [(rand(rng, t), rand(rng, t)) for _ in range(n)]
        ops = ['pack %s %s %s' % (kind, a, b) for a, b in pairs]
        if kind != 'int4':
            big = {'long': 'Long', 'int': 'Int', 'short': 'Short'}[kind]
            ops += ['unpack ' + v for v in corners(big)] + ['unpack ' + rand(rng, big) for _ in range(n)]
        for i in range(0, len(ops), 200):
            out.append(Scenario('%s%s_%d' % (prefix, kind, i), {}, ops[i:i + 200]))
    for hi in range(256):
        out.append(Scenario('%srow_%d' % (prefix, hi), {}, ['packrow %d' % hi]))
    return out


INT_TEXTS = ['0', '-0', '+0', '1', '-1', '+1', '007', '-007', '127', '128', '-128', '-129', '255', '256', '32767', '32768',
             '-32768', '-32769', '65535', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967296',
             '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809',
             '18446744073709551616', '99999999999999999999', '000000000000000000000000000012', '-', '+', '--1', '+-1', 'x',
             '1x', 'x1', '1-', 'true', 'false', 'TRUE', 'False', 'tRuE', 'NaN', 'Infinity', '-Infinity', 't', 'abc', 'null',
             '9007199254740993', '9007199254740992', '16777217', '16777219', '33554435', '123456789012345678', '-16777217']


def code(s):
    return '.'.join('%x' % ord(c) for c in s) or 'E'


def conversions(rng, n, prefix, thorough=False):
    ops = ['cv null'] + ['cv Other ' + k for k in ('object', 'list', 'array', 'builder')]
    nums = ['Byte', 'Short', 'Int', 'Long', 'Float', 'Double']
    for t in nums + ['Bool', 'Char']:
        for v in corners(t) + [rand(rng, t) for _ in range(n)]:
            ops.append('cv %s %s' % (t, v))
            ops.append('cast %s %s' % (t, v))
            ops.append('box %s %s' % (t, v))
    for _ in range(n):
        ops.append('cv Big ' + h([rng.randrange(256) for _ in range(rng.choice([1, 3, 5, 8, 9, 12]))]))
        ops.append('cv Big ' + rng.choice(corners('Long')))
    for s in INT_TEXTS:
        ops.append('cv String ' + code(s))
        for t in ('Bool', 'Byte', 'Short', 'Char', 'Int', 'Long', 'Float', 'Double', 'String'):
            ops.append('parse %s %s' % (t, code(s)))
    ops += ['cv String E', 'parse Char E', 'parse Char ffff', 'parse Char d83d.de00', 'parse String E', 'parse Int E',
            'parse Double E', 'parse Long E']
    for v in corners('Int') + [rand(rng, 'Int') for _ in range(n)]:
        ops.append('text ' + v)
    for _ in range(4 * n):
        t = rng.choice(['Float', 'Double'])
        d = str(rng.randrange(10 ** rng.choice([1, 3, 8, 10, 17, 20])))
        k = rng.randint(-12, 8)
        ops.append('fp %s %s %s %d %d' % (t, rng.choice('+-'), d, k, rng.randrange(3)))
    for t in ('Float', 'Double'):
        for d, k in (('1', 38), ('4', 38), ('34028235677973366', 22), ('34028235', 31), ('17976931348623157', 292), ('1', -1),
                     ('5', -1), ('16777217', 0), ('9007199254740993', 0), ('90071992547409925', -1), ('1', 22), ('1', 23),
                     ('14', -46), ('7', -46), ('123456789', -4), ('0', 5), ('0', -5), ('1', -40), ('117549435', -46)):
            if abs(k) < 60 or thorough or t == 'Double' and k > 0:
                for sign in '+-':
                    ops.append('fp %s %s %s %d %d' % (t, sign, d, k, rng.randrange(3)))
    for t in ('Byte', 'Short', 'Int', 'Long'):
        for _ in range(6 * n):
            ops.append('bits %s %s %s' % (t, rng.choice([rand(rng, t), rng.choice(corners(t))]), rand(rng, t)))
    for d in ('10000', '100', '20240229', '19991231', '99991231', '101', '20000101', '16000229'):
        y, m, dd = int(d) // 10000, int(d) // 100 % 100, int(d) % 100
        if m and dd:
            ops.append('cv Date ' + d)
    for d in ('0', '235959', '1', '100', '10000', '120000', '95959'):
        ops.append('cv Time ' + d)
    out = [Scenario('%s%d' % (prefix, i), {}, ops[i:i + 60]) for i in range(0, len(ops), 60)]
    years = (range(0, 10000) if thorough else
             sorted({0, 1, 4, 99, 100, 400, 999, 1582, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2100, 9999}
                    | {rng.randrange(10000) for _ in range(30)}))
    for y in years:
        out.append(Scenario('%sy%d' % (prefix, y), {}, ['dates %d' % y]))
    for hh in range(24):
        out.append(Scenario('%sh%d' % (prefix, hh), {}, ['times %d' % hh]))
    return out
