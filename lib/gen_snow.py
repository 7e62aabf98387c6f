"""Clock histories for the id generators."""
from core import Scenario

NAMES = ['61', '62', 'E', '61.62.63', '68.6f.73.74.2d.31', 'ffff', '7a.7a.7a.7a.7a.7a', '30', 'd83d.de00', '41.41', '42.42',
         '70.6f.6c.79.67.65.6e.65.6c.75.62.72.69.63.61.6e.74.73']  # the last hashes to the smallest integer


def call(rs):
    return 'next ' + ' '.join(str(x) for x in rs)


def from_walk(walk, base, scale=1):
    """A history of the model, in which two ids exhaust a millisecond, on a generator with 4096."""
    last, seq, ops = -1, 0, []
    for t in walk:
        a = t.split()
        if a[0] != 'next':
            continue
        rs = [int(x) for x in a[1:]]
        real = [(base + r * scale) if r >= 0 else -1 for r in rs]
        if rs and rs[0] == last and last >= 0 and seq == 0:
            ops.append('fill 4095 %d' % real[0])
            seq = 1
            continue
        ops.append(('next ' + ' '.join(map(str, real))).strip())
        if not rs or rs[0] < last or rs[0] < 0:
            continue
        if rs[0] > last:
            last, seq = rs[0], 0
        else:
            later = [r for r in rs if r > last]
            if later:
                last, seq = later[0], 0
    return ops


def history(rng, length):
    t = rng.choice([0, 0, 1, 5, 1000, (1 << 22) - 2, (1 << 32) - 2, 1 << 40, (1 << 41) - 100])
    top = (1 << 41) - 2
    ops = []
    for _ in range(length):
        r = rng.random()
        if r < 0.3:
            t = min(top, t + rng.choice([1, 1, 1, 2, 3, 1000]))
            ops.append(call([t]))
        elif r < 0.5:
            ops.append(call([t]))
        elif r < 0.68:
            ops.append('fill %d %d' % (rng.choice([2, 5, 300, 4094, 4095, 4096, 4097]), t))
        elif r < 0.76:
            ops.append(call([max(-5, t - rng.choice([1, 1, 2, 50]))]))
        elif r < 0.80:
            ops.append(call([rng.choice([-1, -2, -1000, -1676731200000, -(1 << 40)])]))
        else:  # waiting: the clock stands still, runs backwards, and passes or not
            rs = [t]
            for _ in range(rng.randint(1, 5)):
                rs.append(max(-3, t + rng.choice([0, 0, 0, -1, -1, -7])))
            if rng.random() < 0.8:
                t2 = min(top, t + rng.choice([1, 1, 2, 9]))
                rs.append(t2)
                if rng.random() < 0.3:
                    rs.append(t2 - 1)
                ops.append('fill 4096 %d' % t)
                t = t2
            ops.append(call(rs))
        if rng.random() < 0.5:
            ops.append(call([t, t + 1]))  # t + 1 is only needed when t is exhausted
            if rng.random() < 0.5:
                t = min(top, t + 1)
    return ops


def scenarios(rng, n, length, prefix):
    out = []
    for i in range(n):
        out.append(Scenario('%s%d' % (prefix, i), dict(name=rng.choice(NAMES)), history(rng, rng.randint(*length))))
    return out


def names(rng, n, prefix):
    ops = []
    for i in range(n):
        ops.append('new ' + '.'.join('%x' % rng.choice([rng.randrange(1, 0xd800), rng.randrange(33, 127)])
                                     for _ in range(rng.randint(1, 12))))
    ops += ['new ' + x for x in NAMES] + ['new DEFAULT', 'null']
    rng.shuffle(ops)
    again = list(ops)
    rng.shuffle(again)
    both = []
    for a, b in zip(ops, again):
        both += [a, 'next 3', b]
    # within one scenario each generator forgets, but the names stay
    return [Scenario(prefix, {}, both)]


def races(rng, n, calls, prefix):
    out = []
    modes = [('step', 1), ('step', 3), ('step', 700), ('step', 6000), ('back', 40), ('back', 5000)]
    for i in range(n):
        mode, step = modes[i % len(modes)]
        out.append(Scenario('%s%d' % (prefix, i), {}, ['race %d %d %s %d %d' % (rng.choice([2, 4, 8]), calls, mode,
                                                                               rng.choice([0, 5, 1 << 33]), step)]))
    for mode in ('park', 'parkhalf', 'parkend'):
        for k in (2, 3):
            out.append(Scenario('%s%s%d' % (prefix, mode, k), {}, ['race %d %d %s 9 0' % (k, 2, mode)]))
    return out
