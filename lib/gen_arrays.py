"""Histories of array helpers."""
from core import Scenario

TOP = 2 ** 31 - 1


def scenarios(rng, n, prefix, length=(8, 30)):
    out = []
    for i in range(n):
        top = rng.choice([3, 9, 17, 40, 130])
        cur = 0
        ops = []

        def near():
            return max(0, rng.choice([cur, cur, 2 * cur, 4 * cur, cur // 2, rng.randrange(top + 1), rng.randrange(3)]) + rng.choice([-1, 0, 0, 1]))
        for _ in range(rng.randint(*length)):
            x = rng.random()
            v = rng.randrange(8)
            if x < 0.25:
                ops.append('ens %d %d' % (rng.choice([near(), near(), 0, -1, -TOP - 1]) if x < 0.08 else near(), v))
            elif x < 0.45:
                ops.append('ent %d %d' % (near() - (1 if x < 0.3 else 0), v))
            elif x < 0.55:
                ops.append('copy %d %d' % (near(), v))
            elif x < 0.65:
                ops.append('resize %d' % near())
            elif x < 0.72:
                cur = near()
                ops.append('create %d %d' % (cur, v))
            elif x < 0.74:
                ops.append('ens %d %d' % (TOP - rng.choice([0, 0, 0]), v))
            else:
                off = rng.randrange(cur + 1)
                ops.append('fill %d %d %d' % (off, rng.choice([cur - off, rng.randrange(cur - off + 1), 0]), v))
            t = ops[-1].split()
            if t[0] in ('copy', 'resize'):
                cur = int(t[1])
            elif t[0] in ('ens', 'ent'):
                need = int(t[1]) + (t[0] == 'ent')
                if cur < need < 5000:
                    cur = max(cur, 1)
                    while cur < need:
                        cur *= 2
        conf = dict(typed=1) if rng.random() < 0.25 else {}
        out.append(Scenario('%s%d' % (prefix, i), conf, ops))
    return out


def big(rng, deep):
    G = 1 << 30
    cases = [(3, 'ens', G + 1), (5, 'ent', G)]
    if deep:
        cases += [(0, 'ens', G), (1, 'ent', G), (7, 'ens', 7 * (1 << 27) + 1), (1000, 'ens', G + G // 2)]
        cases += [(l, op, n) for l in (0, 3, 255) for op in ('ens', 'ent') for n in (G - 1, G + 12345, TOP - 8)]
    out = []
    for i, (l, op, n) in enumerate(cases):
        out.append(Scenario('big%d' % i, dict(big=1), ['create %d 2' % l, '%s %d %d' % (op, n, rng.choice([0, 3]))]))
    return out


def limits():
    """Sizes so large that no array can have them."""
    out = []
    for l in (0, 1, 2, 3, 4, 5, 100):
        out.append(Scenario('lim%d' % l, {}, ['create %d 1' % l, 'ens %d 0' % TOP, 'ens %d 1' % TOP, 'ent %d 0' % (TOP - 1),
                                              'ens %d 1' % (-TOP - 1), 'ent %d 1' % -1, 'ens %d 1' % (l + 1)]))
    return out


def from_tokens(walks, prefix):
    out = []
    for i, w in enumerate(walks):
        out.append(Scenario('%s%d' % (prefix, i), dict(typed=1) if i % 4 == 3 else {}, [t for t in w if not t.startswith('none')]))
    return out
