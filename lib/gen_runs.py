"""Long histories of deques, hydra deques and vectors, many calls at a time."""
from core import Scenario

TOP = 1 << 29


def scenarios(rng, kind, n, prefix):
    out = []
    for i in range(n):
        scale = rng.choice([20, 300, 300, 5000, 40000])
        ids = [0] if kind != 'hydra' else rng.choice([[0], [0, 1], [0, 1, 2], [0, 3, 40], [2, 7]])
        ops = []
        for _ in range(rng.randint(6, 24)):
            k = min(rng.choice([rng.randrange(1, scale + 1), 1 << rng.randrange(scale.bit_length()),
                                (1 << rng.randrange(scale.bit_length())) + rng.choice([-1, 1])]), scale)
            a = rng.choice(ids)
            op = rng.choice(['al'] if kind == 'vector' else ['al', 'al', 'af', 'af', 'rf', 'rl', 'rf', 'rl'])
            if rng.random() < (0.15 if kind == 'vector' else 0.05):
                ops.append('clr')
            elif op in ('al', 'af'):
                ops.append('%s %d %d %d' % (op, a, rng.randrange(97), max(1, k)))
            else:
                ops.append('%s %d %d' % (op, a, max(1, k)))
            if rng.random() < 0.4:
                ops.append('obs %d' % rng.choice(ids))
        ops += ['obs %d' % a for a in ids]
        out.append(Scenario('%s%d' % (prefix, i), dict(kind=kind, cap=rng.choice([1, 1, 2, 3, 8, 100, 5000]),
                                                      lists=rng.choice([1, 2, 8]), rot=rng.randrange(10)), ops))
    return out


def big(rng, kind, deep):
    """As many elements as fit."""
    out = []
    if kind == 'deque':
        for n in range(3 if deep else 1):
            at = rng.choice(['al', 'af'])
            back = 'rl' if at == 'al' else 'rf'
            turn = rng.randrange(1, 5000)
            ops = ['al 0 0 %d' % turn, 'rf 0 %d' % rng.randrange(1, turn + 1),   # head and tail anywhere
                   '%s 0 5 %d' % (rng.choice(['al', 'af']), TOP - 1 - rng.randrange(5000, 90000)),
                   '%s 0 7 100000' % at, '%s 0 3 3' % ('af' if at == 'al' else 'al'), 'obs 0', '%s 0 2' % back,
                   '%s 0 9 5' % at, 'obs 0', '%s 0 %d' % (rng.choice(['rf', 'rl']), rng.randrange(1, 90000))]
            ops += ['%s 0 11 1000' % rng.choice(['al', 'af']), 'obs 0', 'clr', 'obs 0', 'al 0 1 5', 'obs 0']
            out.append(Scenario('big%d' % n, dict(kind=kind, cap=rng.choice([1, 3, 1 << 20, TOP]), big=1), ops))
    elif kind == 'hydra':
        n = rng.randrange(1 << 24, (1 << 26) if deep else (1 << 25))
        out.append(Scenario('big', dict(kind=kind, cap=1, lists=1, big=1), [
            'al 0 0 %d' % n, 'af 2 7 %d' % (n // 2), 'rf 0 %d' % (n // 3), 'al 1 9 %d' % (n // 2), 'obs 0', 'obs 1', 'obs 2',
            'rl 2 %d' % n, 'obs 1', 'clr', 'al 1 3 100', 'obs 1', 'obs 0']))
    else:
        n = (1 << 30) if deep else (1 << rng.choice([25, 26, 27]))
        k = n - rng.randrange(5)
        out.append(Scenario('big', dict(kind=kind, cap=rng.choice([1, 3, 1 << 10]), big=1), [
            'al 0 0 %d' % k, 'obs 0', 'al 0 5 9', 'obs 0', 'clr', 'al 0 2 7', 'obs 0']))
    return out


def brim(rng):
    """Refusals at a full deque, and at an empty one."""
    n = rng.randrange(1, 5000)
    ops = ['obs 0', 'rf 0 1', 'obs 0', 'rl 0 2', 'obs 0', 'al 0 0 %d' % n, 'rf 0 %d' % rng.randrange(1, n + 1)]
    ops += ['%s 0 5 %d' % (rng.choice(['al', 'af']), TOP), 'obs 0', 'al 0 3 1', 'obs 0', 'af 0 9 2', 'obs 0',
            '%s 0 3' % rng.choice(['rl', 'rf']), '%s 0 11 4' % rng.choice(['al', 'af']), 'obs 0', 'clr', 'al 0 1 5', 'obs 0']
    return [Scenario('brim', dict(kind='deque', cap=rng.choice([1, 3, TOP]), big=1), ops)]
