"""Arrays, ranges and comparators for companion sort."""
from core import Scenario

CMPS = ['asc', 'asc', 'asc', 'desc', 'desc', 'same', 'mod3', 'half', 'far', 'even']


def text(l):
    return ','.join(map(str, l)) or '-'


def shapes(rng, n):
    """The key patterns of Bentley and McIlroy's certification of quicksort."""
    m = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, n // 2 + 1, n, 2 * n + 1])
    m = max(1, m)
    kind = rng.choice(['saw', 'rand', 'stag', 'plat', 'shuf', 'organ'])
    x = []
    j, k = 0, 1
    for i in range(n):
        if kind == 'saw':
            v = i % m
        elif kind == 'rand':
            v = rng.randrange(m)
        elif kind == 'stag':
            v = (i * m + i) % max(1, n)
        elif kind == 'plat':
            v = min(i, m)
        elif kind == 'organ':
            v = min(i, n - i)
        elif rng.randrange(m):
            j += 2
            v = j
        else:
            k += 2
            v = k
        x.append(v)
    how = rng.choice(['id', 'id', 'rev', 'front', 'back', 'sort', 'dither', 'ends'])
    if how == 'rev':
        x.reverse()
    elif how == 'front':
        x[:n // 2] = x[:n // 2][::-1]
    elif how == 'back':
        x[n // 2:] = x[n // 2:][::-1]
    elif how == 'sort':
        x.sort(reverse=rng.random() < 0.4)
    elif how == 'dither':
        x = [v + i % 5 for i, v in enumerate(x)]
    elif how == 'ends' and n > 1:
        x.sort()
        for _ in range(rng.choice([1, 2, 3])):
            i = rng.randrange(n)
            x[i], x[-1 - i] = x[-1 - i], x[i]
    return x


SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 9, 10, 13, 16, 20, 25, 32, 38, 39, 40, 40, 41, 41, 42, 43, 47, 48, 50, 56, 63, 64, 65, 80,
         88, 100, 127, 150]


def op(rng, n, c=None):
    """One call: a range within or beyond the arrays."""
    pre, post = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (3, 2), (9, 9)])
    k = [rng.randrange(30) for _ in range(pre)] + shapes(rng, n) + [rng.randrange(30) for _ in range(post)]
    k = [v % 400 for v in k]
    off, ln, ns = pre, n, len(k)
    x = rng.random()
    if x < 0.08:
        ns += rng.choice([1, 2, 10])
    elif x < 0.12:
        ns -= min(ns, post)
    elif x < 0.24:
        b = rng.randrange(10)
        big = 2 ** 31 - 1
        if b == 0:
            off, ln = -1, rng.choice([0, 1, len(k)])
        elif b == 1:
            ln = -rng.choice([1, 2, big, big + 1])
        elif b == 2:
            ln = len(k) - off + rng.choice([1, 2, 7])
        elif b == 3:
            off, ln = rng.choice([(big, 1), (big, big), (1, big), (2, big - 1), (big, 0), (-big - 1, big), (-1, big), (-7, 9)])
        elif b == 4:
            ns = max(0, off + ln - rng.choice([1, 2, 3]))
        elif b == 5:
            off = len(k) + rng.choice([0, 1, 2])
            ln = rng.choice([0, 1])
        elif b == 6:
            off, ln = -big - 1, rng.choice([-big - 1, 0, -1])
        elif b == 7:
            off, ln = len(k), -rng.choice([1, len(k) + 1])
        elif b == 8:
            off, ln = -rng.choice([1, 3]), len(k)
        else:
            ns, off, ln = ns + 5, off + 1, len(k)
    c = c or rng.choice(CMPS)
    s = str(ns)
    if rng.random() < 0.4:
        s = '=' + text([rng.randrange(rng.choice([1, 2, 5, 100])) for _ in range(ns)])
    return 'sort %d %d %s %s %s' % (off, ln, c, text(k), s)


def scenarios(rng, n, prefix, sizes=SIZES, per=6, width=3):
    out = []
    for i in range(n):
        own = rng.random() < 0.3
        conf = dict(width=width, rot=rng.randrange(1000))
        if own:
            conf['own'] = 1
        else:
            conf['pal'] = rng.choice(['seq', 'seq', 'ext', 'col'])
        conf['spal'] = rng.choice(['seq', 'ext', 'val'])
        ops = [op(rng, rng.choice(sizes), rng.choice(['asc', 'desc']) if own else None) for _ in range(per)]
        out.append(Scenario('%s%d' % (prefix, i), conf, ops))
    return out


def from_tokens(walks, rng, prefix, per=40):
    """The calls of the model, and the same calls on arrays in which every key stands for several."""
    ops = []
    for w in walks:
        for t in w:
            if t.startswith('sort'):
                _, ns, off, ln, c, keys = t.split()
                keys = [int(x) for x in keys[1:]]
                ops.append('sort %s %s %s %s %s' % (off, ln, c, text(keys), ns))
                m = rng.choice([2, 3, 4, 8, 9, 12])
                if int(off) >= 0 and int(ln) >= 0:
                    d = rng.choice([0, 0, 1, 5])
                    if rng.random() < 0.5:  # in a row, or one after another
                        big = [k * (d + 1) + (j % (d + 1)) for k in keys for j in range(m)]
                        at, n = int(off) * m, int(ln) * m
                        total = int(ns) * m
                    else:
                        big = [k * (d + 1) + (j % (d + 1)) for j in range(m) for k in keys]
                        at, n = int(off), max(0, len(big) - int(off))
                        total = max(int(ns) * m, int(off) + n)
                    ops.append('sort %d %d %s %s %d' % (at, n, c, text(big), total))
    rng.shuffle(ops)
    out = []
    for i in range(0, len(ops), per):
        out.append(Scenario('%s%d' % (prefix, i // per), dict(width=2, rot=rng.randrange(1000), pal=rng.choice(['seq', 'ext'])), ops[i:i + per]))
    return out


def long(rng, n, deep):
    """Arrays of more elements than a narrow number counts."""
    out = []
    for i in range(n):
        size = rng.choice([70000, 100000, 140000, 200000] + ([400000, 1000000] if deep else []))
        size -= rng.randrange(3000)
        ops = []
        for _ in range(1):
            f = rng.choice(['saw', 'rev', 'plat', 'organ', 'mul', 'mul', 'mul'])
            off = rng.choice([0, 0, 1, rng.randrange(size // 3)])
            ln = size - off - rng.choice([0, 0, 1, rng.randrange(size // 3)])
            a = rng.randrange(1, (2 ** 31 - 1) // size)
            m = rng.choice([size, 65521, 2 * size + 1, 1 << 20, rng.randrange(1, size)])
            ops.append('long %d %d %d %s %s %d %d' % (size, off, ln, rng.choice(['asc', 'desc']), f, m, a if f == 'mul' else 1))
        out.append(Scenario('%s%d' % ('long', i), dict(exact=1, long=1, width=1, rot=rng.randrange(1000)), ops))
    return out
