"""Seeded random histories of collections joined through their entries."""
from core import Scenario

BASE = dict(reg=6, enr=12, drp=3, cls=2, lve=2, wt=4, adm=3, set=3, sch=5, can=1, exp=1.5)
EMPH = {
    'mix': {},
    'grow': dict(reg=12, enr=30, cls=0.5, lve=0.5, wt=8, sch=8),
    'churn': dict(reg=9, cls=5, lve=5),
    'wait': dict(wt=14, adm=8, cls=3, lve=3),
    'time': dict(sch=16, exp=4, can=3, lve=3),
}


def ops(rng, emph, n, l, r, every):
    w = dict(BASE)
    w.update(EMPH[emph])
    names, weights = list(w), list(w.values())
    out, since = ['reg %d %d' % (k, rng.randrange(12)) for k in range(l) if rng.random() < 0.6], 0
    for _ in range(n):
        op = rng.choices(names, weights)[0]
        a, b = rng.randrange(l), rng.randrange(r)
        if op in ('enr', 'drp', 'wt'):
            out.append('%s %d %d' % (op, a, b))
        elif op in ('cls', 'adm'):
            out.append('%s %d' % (op, a))
        elif op == 'reg':
            out.append('reg %d %d' % (a, rng.randrange(12)))
        elif op in ('set', 'sch'):
            out.append('%s %d %d' % (op, b, rng.randrange(12)))
        elif op == 'exp':
            out.append('exp %d' % rng.randrange(12))
        else:
            out.append('%s %d' % (op, b))
        since += 1
        if since >= every and rng.random() < 0.5:
            out.append('obs')
            since = 0
    return out + ['exp 11', 'obs']


def scenarios(rng, n, prefix, length=(20, 60), every=5, sizes=((1, 4), (2, 3), (3, 3), (4, 6), (8, 4)), width=3):
    out = []
    for i in range(n):
        l, r = rng.choice(sizes)
        conf = dict(L=l, R=r, cap=rng.choice([1, 1, 2, 3, 8]), pal=rng.choice(['seq', 'col', 'ext']), rot=rng.randrange(90),
                    width=width)
        out.append(Scenario('%s%d' % (prefix, i), conf, ops(rng, rng.choice(list(EMPH)), rng.randint(*length), l, r, every)))
    return out
