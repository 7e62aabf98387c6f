"""Seeded random histories for indexed sets and maps."""
import random
from core import Scenario

# weights of operations per emphasis
BASE = dict(add=8, put=8, rem=7, ratk=3, rate=1, rsvk=2, rsve=0.3, frs=2, clr=0.4, cpy=0.4, va=1, pva=1.5, ka=0.5,
            vd=0.7, get=1, getd=1, ck=0.5, lk=0.5, sz=0.5, fee=0.4, fek=0.4, fev=0.2, itw=0.4, itn=0.6, itx=1.2,
            itr=0.5, strat=0)
EMPH = {
    'mix': {},
    'grow': dict(add=16, put=12, rem=3, ratk=1, clr=0.2),
    'churn': dict(rem=12, ratk=6, rsvk=4, frs=4),
    'iter': dict(itn=4, itx=14, itr=6, fee=3, fek=3, fev=3, itw=3, cpy=0.6, clr=0.8),
    'clear': dict(clr=3, cpy=1),
    'copy': dict(cpy=4, clr=1, itn=1, itx=2),
    'reserve': dict(rsvk=8, frs=5, rsve=1),
    'strat': dict(strat=3, clr=2, rem=10),
    'values': dict(pva=6, va=4, vd=4, get=4, getd=4, put=12),
    'refuse': dict(rem=10, rate=4, rsve=2, get=4, strat=2, lk=2, vd=2, va=2),
}
LFS = ['-', '-', '-', '0.5', '1.0', '0.3', '0.05', '0.9', '0.625', '0.007']
CAPS = [1, 1, 2, 3, 4, 4, 5, 8, 16, 33]
FNS = ['zero', 'm1', 'min', 'minr', 'neg', 'hi', 'max', 'id']


def throws(rng, can=True):
    """A consumer that throws at that delivery."""
    return ' T%d' % rng.choice([0, 0, 1, 1, 2, 3, 5, 9]) if can and rng.random() < 0.3 else ''


def ops(rng, emph, n, K, custom, every, two):
    w = dict(BASE)
    w.update(EMPH[emph])
    if not custom:
        w.pop('strat')
    if not two:
        w.pop('cpy')
    names, weights = list(w), list(w.values())
    out = []
    hot = rng.randint(1, K)
    since = 0
    for _ in range(n):
        op = rng.choices(names, weights)[0]
        o = rng.choice([0, 0, 0, 1]) if two else 0
        k = rng.randrange(K) if rng.random() < 0.8 else rng.randrange(hot)
        v = rng.randrange(12)
        if op in ('add', 'rem', 'get', 'va', 'ka', 'ratk', 'rsvk', 'ck', 'lk'):
            out.append('%s %d %d' % (op, o, k))
        elif op in ('put', 'pva', 'getd'):
            out.append('%s %d %d %d' % (op, o, k, v))
        elif op == 'vd':
            out.append('vd %d %d %d' % (o, rng.choice([-1, -5] + list(range(8)) + [rng.randrange(200)]), v))
        elif op == 'rate':
            out.append('rate %d %d' % (o, rng.randrange(6)))
        elif op == 'rsve':
            out.append('rsve %d %d' % (o, rng.randrange(6)))
        elif op == 'frs':
            out.append('frs %d %d' % (o, rng.randrange(4)))
        elif op in ('clr', 'sz'):
            out.append('%s %d' % (op, o))
        elif op == 'cpy':
            out.append('cpy %d %d' % ((o, 1 - o) if rng.random() < 0.95 else (o, o)))
        elif op in ('fee', 'fek', 'fev', 'itw'):
            q = rng.choice([0, 1, 2, 3, -1, -1])
            out.append('%s %d %d %d' % (op, o, q, rng.randrange(max(q, 1) if q >= 0 else 65536)) + throws(rng, op != 'itw'))
        elif op == 'itn':
            out.append('itn %d %d %d' % (rng.randrange(2), o, rng.choice([0, 0, 1, 2])))
            continue
        elif op in ('itx', 'itr'):
            s = rng.randrange(2)
            if op == 'itx' and rng.random() < 0.12:  # a whole traversal
                out.append('itn %d %d %d' % (s, o, rng.choice([0, 1, 2])))
                for _ in range(K + 1):
                    out.append('itx %d' % s)
                    if rng.random() < 0.5:
                        out.append('itr %d' % s)
                out.append('obs %d' % o)
                continue
            for _ in range(rng.choice([1, 1, 2, 4])):
                out.append('%s %d' % (op, s))
                if op == 'itr' and rng.random() < 0.8:
                    out.append('itx %d' % s)
        elif op == 'strat':
            if rng.random() < 0.5:
                out.append('strat %d h %s 0' % (o, rng.choice(FNS)) + rng.choice(['', '', ' P']))
            else:
                out.append('strat %d e %s %d' % (o, rng.choice(FNS), rng.choice([1, 2, 3, 1000])))
        since += 1
        if since >= every and rng.random() < 0.6:
            out.append('obs %d' % o)
            since = 0
    out.append('obs 0')
    if two:
        out.append('obs 1')
    return out


def scenarios(rng, n, emph, prefix, length=(20, 60), every=5, two=None, ref=False, custom=None, pals=None, reach=False,
              K=None, extra=None):
    out = []
    for i in range(n):
        e = emph[i % len(emph)]
        c = (e == 'strat' or rng.random() < 0.12) if custom is None else custom
        tw = (e == 'copy' or rng.random() < 0.3) if two is None else two
        k = rng.choice(K or [2, 4, 6, 9, 14])
        conf = dict(cap=rng.choice(CAPS), cap2=rng.choice(CAPS), lf=rng.choice(LFS), K=k,
                    pal=rng.choice(pals or ['seq', 'col', 'ext', 'ext']), rot=rng.randrange(10))
        if tw and rng.random() < 0.5:
            conf['lf2'] = rng.choice(LFS)
        if c:
            conf['custom'] = 1
        if ref:
            conf['ref'] = 1
        conf.update(extra or {})
        o = ops(rng, e, rng.randint(*length), k, c, every, tw)
        if c and (conf['pal'] == 'raw' or rng.random() < 0.25):
            conf['pal'] = 'raw'
            o[:0] = ['strat %d e %s %d' % (j, rng.choice(FNS), rng.choice([2, 3, 1000, 1000])) for j in (0, 1)[:1 + tw]]
        elif c and rng.random() < 0.8:
            o.insert(0, 'strat 0 %s %s %d' % (rng.choice('he'), rng.choice(FNS), rng.choice([1, 2, 3, 1000])) + rng.choice(['', '', ' P']))
        if reach:
            o2 = []
            for x in o:
                o2.append(x)
                if x.startswith('obs') or x.split()[0] in ('clr', 'cpy', 'fee', 'fek', 'itw') or rng.random() < 0.15:
                    o2.append('reach 0')
                    if tw:
                        o2.append('reach 1')
            o = o2
        out.append(Scenario('%s%d' % (prefix, i), conf, o))
    return out


def big(rng, n, prefix, K=(60, 200), length=300, ref=False):
    """Long histories over many keys: several growths, few observations."""
    out = []
    for i in range(n):
        k = rng.choice(K)
        e = rng.choice(['grow', 'mix', 'churn'])
        conf = dict(cap=rng.choice([1, 2, 4, 8]), lf=rng.choice(LFS), K=k, pal=rng.choice(['seq', 'col', 'ext']),
                    rot=rng.randrange(10))
        if ref:
            conf['ref'] = 1
        out.append(Scenario('%s%d' % (prefix, i), conf, ops(rng, e, length, k, False, 60, False)))
    return out
