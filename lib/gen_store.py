"""Seeded random histories for chunk stores and chunk matrix stores."""
from core import Scenario


def scenarios(rng, kind, n, prefix, length=(15, 50), every=6, ref=False, reach=False, width=4):
    out = []
    for i in range(n):
        chunk = rng.choice([1, 2, 2, 3, 4, 5, 8, 16, 64] if kind == 'chunk' else [2, 2, 3, 4, 5, 8, 16, 64, 100])
        init = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 130] if kind == 'chunk' else [1, 1, 2, 3, 5, 8, 20, 70])
        F = 1 if kind == 'chunk' else rng.choice([1, 1, 2, 3, 3, 4, 5, 7, 8, 11])
        tops = rng.choice([[4], [10, 40], [3, 9, 27, 81], [300], [20, 3000], [7, 70, 20000]])
        ops, since = [], 0
        for _ in range(rng.randint(*length)):
            r = rng.randrange(rng.choice(tops) + 1)
            if rng.random() < 0.15:
                r = max(0, rng.choice([1, 2, 3]) * chunk * rng.choice([1, 1, 2, 4]) // rng.choice([1, F]) + rng.choice([-1, 0, 1]))
            f = rng.randrange(F)
            x = rng.random()
            if x < 0.02:
                r = -rng.choice([1, 2, 3, 100, 2 ** 31])
            elif x < 0.04:   # rows that cannot be addressed
                m = (2 ** 31 - 1) // F
                r = rng.choice([2 ** 31 - 1, m, m + rng.randrange(1000) if F > 1 else m, (2 ** 32 // F + 1) & 0x7fffffff if F > 2 else m])
                r = min(max(r, m), 2 ** 31 - 1)
                ops.append('set %d %d 5' % (r, f) if kind == 'matrix' else 'get %d 0' % r)
                continue
            if x > 0.96 and kind == 'matrix':
                f = rng.choice([-1, F, F + 1, -2 ** 31, 2 ** 31 - 1])
            if x < 0.75 if r >= 0 else x < 0.01:
                ops.append('set %d %d %d' % (r, f, rng.choice([0] + list(range(1, 20)))))
            else:
                ops.append('get %d %d' % (r, f))
            since += 1
            if since >= every and rng.random() < 0.5:
                ops.append('obs')
                since = 0
                if reach:
                    ops.append('reach')
        ops.append('obs')
        if reach:
            ops.append('reach')
        conf = dict(kind=kind, init=init, chunk=chunk, fields=F, width=width, rot=rng.randrange(10))
        if ref:
            conf['ref'] = 1
        out.append(Scenario('%s%d' % (prefix, i), conf, ops))
    return out


def configs(kind):
    """Configurations at and beyond the limits of what is accepted."""
    out = []
    n = 0
    for init in ([-5, -1, 0, 1, 2, 7] if kind == 'matrix' else [0, 1, 2, 7, 64]):
        for chunk in ([-1, 0, 1, 2, 3] if kind == 'matrix' else [1, 2, 3, 5]):
            for F in ([-1, 0, 1, 2, 5] if kind == 'matrix' else [1]):
                n += 1
                out.append(Scenario('c%d' % n, dict(kind=kind, init=init, chunk=chunk, fields=F, width=10),
                                    ['set 0 0 3', 'obs', 'set %d 0 4' % (init + 1), 'set %d %d 5' % (init + 3, F - 1), 'obs']))
    return out


def big(rng, kind, deep):
    """Stores that reach the last addressable cell: two gigabytes each."""
    out = []
    for n, F in enumerate([1] if kind == 'chunk' else rng.sample([1, 2, 3, 7], 4) if deep else [rng.choice([2, 3])]):
        chunk = rng.choice([1 << 20, 1 << 24, 1 << 26])
        last = (2 ** 31 - 1) // F - 1
        near = last - rng.randrange(chunk // F)
        ops = ['set 5 0 2', 'set %d %d 3' % (last - 2 * chunk, F - 1), 'obs', 'set %d 0 4' % near, 'obs', 'set %d %d 5' % (last, F - 1),
               'get %d %d' % (last, F - 1), 'set %d 0 6' % (last + 1), 'get %d 0' % (last + 1), 'set 6 0 7', 'obs']
        out.append(Scenario('big%d' % n, dict(kind=kind, init=rng.choice([1, chunk]), chunk=chunk, fields=F, big=1), ops))
    for n in range(16 if deep else 5):   # growth to the first or last cell of a chunk, at every magnitude
        F = 1 if kind == 'chunk' else rng.choice([1, 1, 2, 3, 4, 7, 8])
        chunk = 1 << rng.choice([6, 10, 10, 13, 16, 20])
        ops = ['set 5 0 2']
        for e in range(max(chunk.bit_length(), 20), 29 if deep else 28):
            if rng.random() < 0.7:
                cell = chunk * rng.randrange((1 << e) // chunk, (2 << e) // chunk)
                row = cell // F + rng.choice([0, 0, 0, 1, -1])
                ops += ['get %d %d' % (row, F - 1), 'set %d %d %d' % (row, rng.randrange(F), rng.randrange(1, 20))]
        ops += ['obs', 'set 6 0 7', 'obs']
        out.append(Scenario('edge%d' % n, dict(kind=kind, init=rng.choice([1, 2, 1000]), chunk=chunk, fields=F, big=1), ops))
    return out
