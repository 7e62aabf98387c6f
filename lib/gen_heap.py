"""Seeded random histories for heaps."""
from core import Scenario
from gen_hash import throws

BASE = dict(ins=10, insv=8, rat=6, rtop=6, rst=5, clr=0.4, cmp=0.8, defk=0.4, defv=0.4, svat=2, peek=1, bad=1, drain=0.15, swp=0.5)
EMPH = {
    'mix': {},
    'grow': dict(ins=20, insv=16, rat=4, rtop=3),
    'churn': dict(rat=12, rtop=6, ins=12, swp=1.5),
    'rekey': dict(rst=25, cmp=3),
    'clear': dict(clr=4, defk=3, defv=3, drain=0.8),
    'bad': dict(bad=8, defk=2, defv=2, cmp=1),
    'cmp': dict(cmp=6, rst=8),
    'odd': dict(cmp=5, rst=8, insv=12, clr=1),
}
CMPS_ORD = ['asc', 'desc', 'cr', 'cd', 'cm2', 'cm3', 'cz']
CMPS_ANY = ['cr', 'cd', 'cm2', 'cm3', 'cz']
CMPS_ODD = ['x0', 'x1', 'x2']   # refuse a key


def ops(rng, emph, n, K, cmps, every):
    w = dict(BASE)
    w.update(EMPH[emph])
    names, weights = list(w), list(w.values())
    out, since = [], 0
    for _ in range(n):
        op = rng.choices(names, weights)[0]
        k, v, a = rng.randrange(K), rng.randrange(12), rng.randrange(64)
        if op == 'ins':
            out.append('ins %d' % k)
        elif op == 'insv':
            out.append('insv %d %d' % (k, v))
        elif op == 'rat':
            out.append('rat a%d' % a)
        elif op == 'rst':
            out.append('rst a%d %d' % (a, k))
        elif op == 'svat':
            out.append('svat a%d %d' % (a, v))
        elif op == 'bad':
            out.append('rat e%d' % rng.choice([-1, -7, 0, 1, 2, 3, 4, 5, 8, 16, 100]))
        elif op == 'swp':
            m = rng.choice([1, 2, 2, 3, 5])
            out.append('swp %d %d' % (m, rng.randrange(m)) + throws(rng))
        elif op == 'cmp':
            out.append('cmp ' + rng.choice(cmps + ['null'] if rng.random() < 0.1 else cmps))
        elif op == 'defk':
            out.append('defk %d' % k)
        elif op == 'defv':
            out.append('defv %d' % v)
        else:
            out.append(op)
        since += 1
        if since >= every and rng.random() < 0.6:
            out.append('obs')
            since = 0
    out.append('obs')
    return out


def scenarios(rng, n, emph, prefix, length=(20, 60), every=5, ref=False, pals=None, reach=False, ks=(2, 3, 6, 12),
              width=2):
    out = []
    for i in range(n):
        e = emph[i % len(emph)]
        k = rng.choice(ks)
        pal = rng.choice(pals or ['ord', 'ordz', 'ord', 'ext', 'seq'])
        if pal == 'ordz':
            k = 12
        ordered = pal in ('ord', 'ordz')
        o = ops(rng, e, rng.randint(*length), k, (CMPS_ORD if ordered else CMPS_ANY) + (CMPS_ODD * 3 if e == 'odd' else []), every)
        if not ordered:
            o.insert(0, 'cmp ' + rng.choice(CMPS_ANY))
        if rng.random() < 0.3:
            o.insert(0, 'defk %d' % rng.randrange(k))
        if rng.random() < 0.3:
            o.insert(0, 'defv %d' % rng.randrange(12))
        if rng.random() < 0.3:
            o += ['drain', 'obs'] + o[len(o) // 2:]
        conf = dict(cap=rng.choice([1, 1, 2, 3, 4, 8, 20]), K=k, pal=pal, rot=rng.randrange(10), width=width)
        if ref:
            conf['ref'] = 1
        if reach:
            o2 = []
            for x in o:
                o2.append(x)
                if x in ('obs', 'clr', 'drain') or x.startswith('swp') or x.startswith('def') or rng.random() < 0.2:
                    o2.append('reach')
            o = o2
        out.append(Scenario('%s%d' % (prefix, i), conf, o))
    return out


def big(rng, n, prefix, ref=False):
    return scenarios(rng, n, ['grow', 'rekey', 'churn', 'mix'], prefix, (250, 400), 80, ref, ks=(6, 40), width=1)
