"""Seeded random histories for the compact relations."""
from core import Scenario
from gen_hash import throws

BASE = dict(put=16, rem=6, lk=2, ck=2, rat=4, rsv=2, frs=2, at=2, nav=3, neg=0.6, bad=1, nsw=1, fsw=0.3)
EMPH = {
    'mix': {},
    'grow': dict(put=40, rem=3, rat=2),
    'churn': dict(rem=12, rat=8),
    'reserve': dict(rsv=8, frs=7, at=5),
    'nav': dict(nav=12, rem=8, nsw=6, fsw=1),
    'bad': dict(bad=6, neg=4, lk=4, ck=4),
}


def ops(rng, emph, n, l, r, every, negs):
    w = dict(BASE)
    w.update(EMPH[emph])
    names, weights = list(w), list(w.values())
    out, since = [], 0
    for _ in range(n):
        op = rng.choices(names, weights)[0]
        a, b = rng.randrange(l), rng.randrange(r)
        if op in ('put', 'rem', 'lk', 'ck'):
            out.append('%s %d %d' % (op, a, b))
        elif op in ('rat', 'rsv', 'at'):
            out.append('%s a%d' % (op, rng.randrange(64)))
        elif op == 'frs':
            out.append('frs %d' % rng.randrange(64))
        elif op == 'nav':
            left = rng.random() < 0.5
            out.append('nav %s %d' % ('l' if left else 'r',
                                      rng.choice([rng.randrange((l if left else r) + 2), rng.randrange(l if left else r),
                                                  -1 if rng.random() < 0.3 else 0])))
        elif op in ('nsw', 'fsw'):
            m = rng.choice([1, 2, 3, -1, -1])
            left = rng.random() < 0.5
            out.append('%s %s %d %d %d' % (op, 'l' if left else 'r', rng.randrange(l if left else r), m, rng.randrange(m if m > 0 else 65536))
                       + throws(rng))
        elif op == 'neg':
            if negs:
                x = rng.choice(['-1 %d' % b, '%d -1' % a, '-2147483648 %d' % b, '%d -2147483648' % a, '-1 -1'])
                out.append('neg ' + x)
        else:
            out.append('%s e%d' % (rng.choice(['rat', 'rsv']), rng.choice([-1, 0, 1, 2, 3, 5, 9, 40, 2147483647])))
        since += 1
        if since >= every and rng.random() < 0.6:
            out.append('obs')
            since = 0
    return out + ['obs']


def scenarios(rng, n, emph, prefix, length=(20, 60), every=5, sizes=((1, 4), (2, 3), (3, 3), (4, 6), (8, 2))):
    out = []
    for i in range(n):
        l, r = rng.choice(sizes)
        conf = dict(L=l, R=r, lk=rng.choice(['id', 'id', 'far', 'up', 'rev']), rk=rng.choice(['id', 'id', 'far', 'up', 'rev']),
                    lefts=rng.choice([1, 1, 2, 3, 8]), rights=rng.choice([1, 1, 2, 3, 8]),
                    maps=rng.choice([1, 1, 2, 4, 16]), cnt=int(rng.random() < 0.8))
        if rng.random() < 0.1:
            conf['dflt'] = 1
        if rng.random() < 0.3:
            conf['ext'] = 1
        out.append(Scenario('%s%d' % (prefix, i), conf,
                            ops(rng, emph[i % len(emph)], rng.randint(*length), l, r, every, True)))
    return out
