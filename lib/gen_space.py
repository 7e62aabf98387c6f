"""Long histories of collections that never hold much."""
from core import Scenario

KINDS = ['set', 'map', 'heap', 'deque', 'hydra', 'vector', 'store', 'matrix', 'rel']


def ops(rng, kind):
    out, held = [], 0
    most = rng.choice([1, 3, 10, 40])
    for _ in range(rng.randint(4, 12)):
        op = rng.choice(['add', 'rem', 'slide', 'slide', 'refill', 'drain', 'copy', 'idle', 'clr', 'top'])
        k = rng.randint(1, most)
        n = rng.choice([1, 30, 300, 3000])
        if kind in ('store', 'matrix'):
            op = rng.choice(['idle', 'top', 'top'])
        if op == 'top':
            if kind in ('vector', 'store', 'matrix'):
                out.append('top %d %d' % (n, rng.choice([k, 50 * k])))
        elif op == 'idle':
            out.append('idle %d' % n)
        elif op == 'refill':
            out.append('refill %d %d' % (n, k))
            held = k
        elif op == 'clr':
            out.append('clr 0')
            held = 0
        elif op == 'add':
            if held + k <= 100:
                out.append('add %d' % k)
                held += k
        elif kind == 'vector':
            continue
        elif op == 'rem':
            if held:
                k = rng.randint(1, held)
                out.append('rem %d %d' % (k, rng.randrange(2)))
                held -= k
        elif op == 'drain':
            if held + k <= 100:
                out.append('drain %d %d' % (max(1, n // k), k))
                held = 0
        elif held + k <= 100:
            out.append('%s %d %d' % ('copy' if op == 'copy' else 'slide', max(1, n // k), k))
    return out


def scenarios(rng, n, prefix):
    out = []
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        conf = dict(kind=kind, rot=rng.randrange(90), cap=rng.choice([1, 1, 2, 3, 7, 16, 100]), how=rng.randrange(4),
                    lf=rng.choice([750, 750, 1000, 300]), chunk=rng.choice([2, 2, 4, 8, 64]), width=rng.choice([1, 2, 7]))
        out.append(Scenario('%s%d' % (prefix, i), conf, ops(rng, kind)))
    return out
