"""Seeded random histories for deques, hydra deques and vectors."""
from core import Scenario

PALS = ['seq', 'ext', 'ord', 'col']
DEQUE = {
    'mix': dict(af=6, al=6, rf=4, rl=4, pf=1, pl=1, clr=0.3),
    'fifo': dict(al=10, rf=8, pf=1, clr=0.2),
    'rfifo': dict(af=10, rl=8, pl=1, clr=0.2),
    'lifo': dict(al=10, rl=9, af=1, rf=1, clr=0.3),
    'grow': dict(af=8, al=8, rf=1, rl=1, clr=0.1),
    'clear': dict(af=6, al=6, rf=3, rl=3, clr=2),
    'empty': dict(af=3, al=3, rf=5, rl=5, pf=2, pl=2, clr=0.5),
}
HYDRA = {
    'mix': dict(af=6, al=6, rf=4, rl=4, itf=1, itr=1, clr=0.2),
    'grow': dict(af=8, al=8, rf=1, rl=1, clr=0.05),
    'clear': dict(af=6, al=6, rf=3, rl=3, clr=1.5),
    'empty': dict(af=4, al=4, rf=6, rl=6, itf=1, itr=1, clr=0.3),
    'iter': dict(af=5, al=5, rf=3, rl=3, itf=5, itr=5, clr=0.2),
}
VECTOR = {
    'mix': dict(app=10, ens=2, clr=0.4),
    'ens': dict(app=4, ens=4, clr=1),
    'clear': dict(app=10, ens=1, clr=2),
}


def pick(rng, w):
    return rng.choices(list(w), list(w.values()))[0]


def ops(rng, kind, w, n, every, ids):
    out, since = [], 0
    for _ in range(n):
        op = pick(rng, w)
        v = rng.randrange(40)
        if kind == 'deque':
            out.append('%s %d' % (op, v) if op in ('af', 'al') else op)
        elif kind == 'vector':
            out.append('app %d' % v if op == 'app' else
                       'ens %d' % rng.choice([0, 1, 2, 3, 5, 8, 17, 40, 100, 300]) if op == 'ens' else op)
        else:
            i = rng.choice(ids)
            if op in ('af', 'al'):
                out.append('%s %d %d' % (op, i, v))
            elif op in ('rf', 'rl'):
                out.append('%s %d' % (op, i))
            elif op in ('itf', 'itr'):
                out.append('%s %d %d' % (op, rng.choice(ids + [7]), rng.randrange(2)))
            else:
                out.append(op)
        if rng.random() < 0.04:
            t = ' T%d' % rng.choice([0, 0, 1, 2, 3, 6])
            out.append('fex %d %d' % (rng.choice(ids), rng.randrange(2)) + t if kind == 'hydra' else 'fex' + t)
        since += 1
        if since >= every and rng.random() < 0.6:
            out.append('obs')
            since = 0
    return out + ['obs']


def scenarios(rng, kind, n, prefix, length=(20, 70), every=5, ref=False, reach=False, pals=PALS, width=2):
    table = {'deque': DEQUE, 'hydra': HYDRA, 'vector': VECTOR}[kind]
    out = []
    for i in range(n):
        e = list(table)[i % len(table)]
        ids = rng.choice([[0], [0, 1], [0, 1, 2], [0, 2, 5], [1, 4], [0, 1, 2, 3, 4, 5, 6], [3, 9]])
        o = ops(rng, kind, table[e], rng.randint(*length), every, ids)
        if kind == 'vector' and rng.random() < 0.2:
            o.insert(0, 'ens %d' % rng.choice([1, 100, 5000]))
        if reach:
            o2 = []
            for x in o:
                o2.append(x)
                if x in ('obs', 'clr') or rng.random() < 0.2:
                    o2.append('reach')
            o = o2
        conf = dict(kind=kind, cap=rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 16]), lists=rng.choice([1, 1, 2, 3, 8]), V=40,
                    pal=rng.choice(pals), width=width, rot=rng.randrange(10))
        if ref:
            conf['ref'] = 1
        out.append(Scenario('%s%d' % (prefix, i), conf, o))
    return out
