"""Walks over the state graph that TLC prints, covering its transitions."""
import re
from collections import defaultdict, deque

LINE = re.compile(r'<<"T", (-?\d+), (-?\d+), (TRUE|FALSE), <<(.*)>>>>$')


def graph(out):
    """(initial node, {node: sorted [(token, node)]})"""
    succ = defaultdict(set)
    init = None
    buf = None
    for line in out.split('\n'):
        if line.startswith('<<"T"'):
            buf = line
        elif buf is not None:  # TLC folds long values
            buf += ' ' + line.strip()
        else:
            continue
        m = LINE.match(buf)
        if m:
            a, b, first, tok = m.groups()
            if first == 'TRUE':
                init = a
            succ[a].add((tok.replace('"', '').replace(',', ''), b))
            buf = None
    # nodes by the order in which they are met, so that the walks do not depend on TLC's numbers
    number, order = {init: 0}, [init]
    for n in order:
        for _, b in sorted(succ.get(n, ())):
            if b not in number:
                number[b] = len(order)
                order.append(b)
    if init is None:
        return None, {}
    return 0, {number[n]: sorted((t, number[b]) for t, b in succ[n]) for n in order if n in succ}


def walks(init, succ, rng, budget, length):
    """Walks from the initial node; returns (list of token lists, covered, number of transitions)."""
    if init is None:
        return [], 0, 0
    left = {}
    for n, e in succ.items():
        o = list(e)
        rng.shuffle(o)
        left[n] = o
    total = sum(len(e) for e in succ.values())
    covered, steps, out = 0, 0, []

    parent = {init: None}           # shortest ways from the initial node
    order = [init]
    for n in order:
        for t, y in succ.get(n, ()):
            if y not in parent:
                parent[y] = (n, t)
                order.append(y)
    mixed = order[:]
    rng.shuffle(mixed)
    queues = [[order, 0], [mixed, 0]]

    def start(i):
        """The way to a node with an uncovered transition: the nearest, or any."""
        q = queues[i % 2]
        while q[1] < len(q[0]):
            n = q[0][q[1]]
            if left.get(n):
                path, x = [], n
                while parent[x] is not None:
                    x, t = parent[x]
                    path.append(t)
                return path[::-1], n
            q[1] += 1
        return None

    def near(n, limit):
        """A short path to a node with an uncovered transition."""
        prev = {n: None}
        q = deque([n])
        while q and len(prev) < limit:
            x = q.popleft()
            if left.get(x):
                path = []
                while prev[x] is not None:
                    path.append(prev[x][1])
                    x = prev[x][0]
                return path[::-1]
            for t, y in succ.get(x, ()):
                if y not in prev:
                    prev[y] = (x, (t, y))
                    q.append(y)
        return None

    while covered < total and steps < budget:
        first = start(len(out))
        if first is None:
            break
        walk, n = first
        while len(walk) < length or left.get(n):
            if left.get(n) and len(walk) < 2 * length:
                t, n = left[n].pop()
                covered += 1
                walk.append(t)
                continue
            path = near(n, 300)
            if path is None or len(walk) + len(path) >= length:
                break
            for t, n in path:
                walk.append(t)
        steps += len(walk)
        out.append(walk)
    return out, covered, total
