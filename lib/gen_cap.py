"""Capacities, load factors and sizes."""
import struct

from core import Scenario


def bits(v):
    return struct.pack('>d', v).hex()


LOADS = ['-', bits(0.75), bits(1.0), bits(0.5), bits(0.1), bits(0.999999)]
BAD_LOADS = [bits(v) for v in (0.0, -0.0, -0.1, -1.0, 1.1, 2.0, float('inf'), float('-inf'), float('nan'), -5e-324)] + [
    '3ff0000000000001', 'fff8000000000000', '7ff0000000000001']
BAD_CAPS = [0, -1, -2, -16, -2147483648, -1073741824]
TOO_BIG = [(1 << 29) + 1, 1 << 30, (1 << 30) + 1, 2147483647, (1 << 29) + (1 << 28)]


def scenarios(rng, m, sweep_bits, big):
    out = [Scenario('sweep', dict(what='pure'), ['sweep %d' % sweep_bits])]
    ops = []
    for k in range(31):
        for d in (-2, -1, 0, 1, 2):
            if 1 <= (1 << k) + d <= 1 << 30:
                ops.append('np %d' % ((1 << k) + d))
    ops += ['np %d' % rng.randint(1, 1 << rng.randint(1, 30)) for _ in range(500 * m)]
    out.append(Scenario('np', dict(what='pure'), ops))
    ops = []
    for k in range(30):
        ops += ['climb %d %s' % (1 << k, lf) for lf in ('1', '0.75', '0.5', '0.01')]
        for th in (0, 1, (1 << k) // 2, 1 << k, 1 << 29):
            ops.append('grow %d %d' % (1 << k, th))
    for c in [0, 1 << 30, (1 << 30) + 5, 2147483647, 3, 5, 100, 1000000, (1 << 28) + 1, (1 << 29) - 1, 1 << 29]:
        for th in (0, 1, 1 << 28, 1 << 29, (1 << 29) - 1, 2147483647):
            ops.append('grow %d %d' % (c, th))
    ops += ['climb %d 0.75' % rng.randint(1, 1 << 28) for _ in range(20 * m)]
    ops += ['grow %d %d' % (rng.randint(1, 1 << 29), rng.randint(0, 1 << 29)) for _ in range(300 * m)]
    out.append(Scenario('grow', dict(what='pure'), ops))
    bad = ['ctor %d %s 0' % (c, rng.choice(LOADS)) for c in BAD_CAPS + TOO_BIG]
    bad += ['ctor %d %s 0' % (rng.choice([1, 5, 16]), lf) for lf in BAD_LOADS]
    bad += ['ctor %d %s 0' % (rng.choice(BAD_CAPS + TOO_BIG), lf) for lf in BAD_LOADS]
    out.append(Scenario('bad', dict(what='hash'), bad))
    good = ['ctor %d %s 0' % (c, rng.choice(LOADS + [bits(rng.random())])) for c in
            [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 100, 1000, 1024, 1025]]
    good += ['ctor %d %s %d' % (rng.choice([1, 2, 3, 8, 10, 50]), rng.choice(LOADS), rng.choice([5, 40, 130, 700]))
             for _ in range(6 * m)]
    out.append(Scenario('good', dict(what='hash'), good))
    if big:
        out.append(Scenario('big', dict(what='hash'), ['ctor %d %s 20000' % (rng.choice([1, 3, 1000]), rng.choice(LOADS))]))
    out.append(Scenario('heap', dict(what='heap'), ['ctor %d - %d' % (rng.choice([1, 2, 3, 7, 20]), n)
                                                    for n in (5, 40, 130, 500)]))
    for what in ('queue', 'store'):
        ok = ['ctor %d - 0' % c for c in (1, 2, 3, 5, 16, 100, 1000)]
        for which in ((0, 1, 2) if what == 'store' else (0,)):
            out.append(Scenario('%s%d' % (what, which), dict(what=what, which=which),
                                ['ctor %d - 0' % c for c in BAD_CAPS] + ok))
    return out


TOP = 1 << 29


def edge(deep, heap=True, hashed=True):
    """Collections filled to the brim."""
    out = []
    if heap:
        caps = [(TOP + 1, TOP + 1)] + ([(TOP, TOP), (TOP // 2 - 1, TOP - 2), (TOP + (1 << 24), TOP + (1 << 24)),
                                        (3, TOP), (100, (1 << 28) + 5)] if deep else [])
        out += [Scenario('heap%d_%d' % c, dict(what='edge'), ['edge heap %d %d 4' % c]) for c in caps]
    if hashed:
        caps = [(TOP, TOP)] + ([(5, TOP)] if deep else [])
        out += [Scenario('set%d_%d' % c, dict(what='edge'), ['edge hash %d %d 4' % c]) for c in caps]
    return out
