"""Long histories of hash collections, heaps and relations, a range of keys at a time."""
from core import Scenario

KINDS = {'P01': ['set', 'map'], 'P02': ['set', 'map'], 'P03': ['set', 'map'], 'P04': ['map'], 'P05': ['set', 'map'],
         'P07': ['set', 'map'], 'P08': ['set', 'map'], 'P32': ['set', 'map'], 'P09': ['heap'], 'P10': ['heap'], 'P11': ['heap'],
         'P17': ['rel'], 'P18': ['rel'], 'P34': ['set', 'map', 'heap', 'heap']}


def span(rng, top, most=None):
    n = rng.choice([top, rng.randrange(1, top + 1), rng.randrange(1, max(2, top // 4)), min(top, 1 << rng.randrange(top.bit_length()))])
    n = max(1, min(n, most or top))
    return rng.randrange(top - n + 1), n


def call(op, o, lo, n, dk, *more):
    return ' '.join(map(str, [op, o, lo if dk == 1 else lo + n - 1, n, dk] + list(more)))


def hash_ops(rng, top, two, clears=0):
    ops = []
    if rng.random() < 0.3:
        ops.append(call('put', 0, 0, top, rng.choice([1, -1]), 0, 1))
    for _ in range(rng.randint(5, 14)):
        o = rng.randrange(2) if two else 0
        lo, n = span(rng, top)
        dk = rng.choice([1, 1, -1])
        op = rng.choice(['add', 'add', 'put', 'put', 'put', 'rem', 'rem', 'rat', 'rsv', 'frs', 'pva', 'walk', 'walk', 'vals', 'clr',
                         'look', 'cpy'] + (['cpy'] * 3 if two else []) + ['clr'] * clears)
        if op in ('add', 'rem', 'rat', 'rsv'):
            ops.append(call(op, o, lo, n, dk))
        elif op in ('put', 'pva'):
            ops.append(call(op, o, lo, n, dk, rng.randrange(12), rng.choice([0, 1, 1])))
        elif op == 'walk':
            rn = rng.choice([0, 0, rng.randrange(1, 40)])
            ops.append('walk %d %s %d %d' % (o, rng.choice(['fee', 'fek', 'itw']), lo, rn))
        elif op == 'look':
            ops.append('look %d %d %d' % (o, lo, n))
        elif op == 'cpy':
            if two:
                ops.append('cpy %d %d' % (o, 1 - o))
        elif op != 'clr' or clears or rng.random() < 0.4:
            ops.append('%s %d' % (op, o))
        if op == 'rsv':
            ops.append('robs %d' % o)
    for o in range(2 if two else 1):
        ops += ['robs %d' % o, 'look %d 0 %d' % (o, top), 'walk %d fee 0 0' % o, 'vals %d' % o]
    return ops


def heap_ops(rng, top):
    ops, live = [], []     # disjoint ranges of keys

    def room(lo, n):
        return all(lo + n <= a or a + k <= lo for a, k in live)

    def without(lo, n):
        out = []
        for a, k in live:
            if a + k <= lo or lo + n <= a:
                out.append((a, k))
            else:
                if a < lo:
                    out.append((a, lo - a))
                if a + k > lo + n:
                    out.append((lo + n, a + k - lo - n))
        live[:] = out
    desc = False
    if rng.random() < 0.3:
        ops.append(call('put', 0, 0, top, rng.choice([1, -1]), rng.randrange(12), 1))
        live.append((0, top))
    for _ in range(rng.randint(6, 16)):
        lo, n = span(rng, top, max(2, top // 3))
        dk = rng.choice([1, -1])
        op = rng.choice(['put', 'put', 'put', 'add', 'add', 'rat', 'rat', 'pop', 'pop', 'rst', 'cmp', 'walk', 'pva', 'clr', 'look'])
        if op in ('add', 'put'):
            if room(lo, n):
                ops.append(call(op, 0, lo, n, dk, rng.randrange(12), rng.choice([0, 1])))
                live.append((lo, n))
        elif op == 'rat':
            ops.append(call(op, 0, lo, n, dk))
            without(lo, n)
        elif op == 'pop':
            ops.append('pop 0 %d' % n)
            out = sorted(live, reverse=desc)
            for a, k in out:
                m = min(n, k)
                without(a + k - m if desc else a, m)
                n -= m
        elif op == 'rst':
            if live:
                a, k = rng.choice(live)
                n = rng.randrange(1, k + 1)
                a += rng.randrange(k - n + 1)
                rest = list(live)
                without(a, n)
                if n <= top and room(lo, n) and lo + n <= top:
                    ops.append('rst 0 %d %d %d' % (a, n, lo))
                    live.append((lo, n))
                else:
                    live[:] = rest
        elif op == 'cmp':
            desc = rng.random() < 0.5
            ops.append('cmp 0 %d' % desc)
        elif op == 'walk':
            rn = rng.choice([0, 0, rng.randrange(1, 40)])
            ops.append('walk 0 fee %d %d' % (lo, rn))
            if rn:
                without(lo, rn)
        elif op == 'pva':
            ops.append(call(op, 0, lo, n, dk, rng.randrange(12), rng.choice([0, 1])))
        elif op == 'clr':
            if rng.random() < 0.3:
                ops.append('clr 0')
                live.clear()
        else:
            ops.append('look 0 0 %d' % top)
    return ops + ['look 0 0 %d' % top, 'walk 0 fee 0 0', 'pop 0 %d' % (2 * top)]


def rel_ops(rng, top, few, w):
    ops = []
    if rng.random() < 0.4:
        ops += [call('add', 0, (few - 1) * w, top, rng.choice([1, -1])), 'nav 0 %d' % (few - 1)]
    for _ in range(rng.randint(6, 16)):
        a = rng.randrange(few)
        lo, n = span(rng, top)
        lo += a * w
        dk = rng.choice([1, 1, -1])
        op = rng.choice(['add', 'add', 'add', 'rem', 'rem', 'rat', 'rsv', 'frs', 'walk', 'nav', 'nav', 'nav2', 'nav2', 'has'])
        if op in ('add', 'rem', 'rat', 'rsv'):
            ops.append(call(op, 0, lo, n, dk))
        elif op == 'walk':
            ops.append('walk 0 fee %d %d' % (lo, rng.choice([0, 0, rng.randrange(1, 40)])))
        elif op == 'nav':
            ops.append('nav 0 %d' % a)
        elif op == 'nav2':
            ops.append('nav2 0 %d %d' % (rng.randrange(top), few))
        elif op == 'has':
            ops.append('has 0 %d' % lo)
        else:
            ops.append('frs 0')
        if op == 'rsv':
            ops.append('robs 0')
    for a in range(few):
        ops += ['look 0 %d %d' % (a * w, top), 'nav 0 %d' % a]
    return ops + ['nav2 0 %d %d' % (rng.randrange(top), few) for _ in range(4)] + ['walk 0 fee 0 0', 'robs 0']


def scenarios(rng, prop, n, prefix, scales):
    out = []
    for i in range(n):
        kind = rng.choice(KINDS[prop])
        top = rng.choice(scales)
        top = rng.choice([top, top - rng.randrange(top // 3), top + rng.choice([-1, 0, 1])])
        conf = dict(kind=kind, top=top, rot=rng.randrange(10), cap=rng.choice([1, 1, 4, 100, top]), few=2 if top > 10000 else 3)
        if kind == 'heap':
            ops = heap_ops(rng, top)
        elif kind == 'rel':
            few = rng.choice([1, 2, 3, 5])
            w = rng.choice([1 << 20, 200000])
            conf.update(w=w, m2m=rng.choice([0, 1, 1]), cnt=rng.choice([0, 1, 1]), swap=rng.choice([0, 1]),
                        lefts=rng.choice([1, 4, 100]), rights=rng.choice([1, 4, 100]))
            ops = rel_ops(rng, top, few, w)
        else:
            two = prop == 'P07' or prop != 'P34' and rng.random() < (0.3 if prop == 'P32' else 0.1)
            if two:     # a copy of a small one keeps its few buckets until the larger arrays of the old one are full
                if top > 3000:
                    conf['cap'] = top
            conf.update(a=rng.choice([1, 1, 3, 0x9E3779B1 - (1 << 32), 37]), lf=rng.choice(['-', '-', '1.0', '0.5', '0.2', '0.9', '0.007']),
                        cap2=top if top > 3000 else rng.choice([1, 4, 1000]))
            if prop == 'P08':
                conf.update(custom=1, mask=rng.choice([0xffff, 0xffff << 4, 0x3fff, -1]))
            ops = hash_ops(rng, top, two, 3 if prop == 'P34' else 0)
            if prop == 'P34':
                conf.update(custom=1, mask=-1)
        if prop == 'P34':
            conf['count'] = 1
        out.append(Scenario('%s%d' % (prefix, i), conf, ops))
    return out
