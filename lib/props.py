"""What decides each property: models, scenarios, trace specifications."""
import random
from concurrent.futures import ThreadPoolExecutor

import core
import gen_arrays
import gen_bulk
import gen_cap
import gen_hash
import gen_heap
import gen_join
import gen_queue
import gen_rel
import gen_snow
import gen_sort
import gen_runs
import gen_store
import gen_types
from core import Scenario

ALL = '{' + ', '.join('"P%02d"' % i for i in range(1, 36) if i != 31) + '}'


def rng(ck, salt):
    return random.Random('%s/%s/%s' % (ck.seed, ck.prop, salt))


def report(ck, rejections):
    rejections = sorted(rejections, key=lambda r: (r.pos, r.scenario.id, r.target))
    for r in rejections[:3]:
        ck.violation(r)


def parallel(*fns, limit=None):
    with ThreadPoolExecutor(limit or len(fns)) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]


def with_build(ck, *fns, limit=None):
    """Runs the models while the code is being compiled."""
    def b():
        ck.classes = core.build()
    return parallel(b, *fns, limit=limit)[1:]


# ------------------------------------------------------------------ long histories

BULK_PROPS = 'VIEW View\nINVARIANT Same\nINVARIANT Calling\nINVARIANT Walking\n'
BULK_MODELS = {
    'BulkMC': ('INVARIANT Looking\nINVARIANT Reserving\n',
               [dict(K=2, E=2, V=3, Ops='{"add", "put", "rem", "rat", "rsv", "pva", "walk"}')],
               [dict(K=2, E=3, V=2, Ops='{"add", "put", "rem", "rat", "rsv", "pva", "walk"}'),
                dict(K=3, E=3, V=2, Ops='{"add", "rem", "rsv"}')]),
    'BulkHeapMC': ('INVARIANT Popping\n', [dict(K=2, E=2, V=2, Ops='{"add", "put", "rat", "pva"}')],
                   [dict(K=3, E=3, V=2, Ops='{"add", "put", "rat"}')]),
    'BulkRelMC': ('', [dict(K=2, E=2, V=1, Ops='{"add", "rem", "rat", "rsv", "walk"}')],
                  [dict(K=3, E=2, V=1, Ops='{"add", "rem", "rat", "rsv", "walk"}'),
                   dict(K=4, E=2, V=2, Ops='{"add", "rem", "rsv"}')]),
}


def bulk_models(ck, module):
    """Bulk says what IndexedMap, Heap and Relation say call by call."""
    more, small, large = BULK_MODELS[module]
    if ck.prop not in gen_bulk.KINDS:
        return []
    if module == 'BulkMC':
        small = [dict(Cap=64, LF=750, **d) for d in small]
        large = [dict(Cap=64, LF=750, **d) for d in large]
        if ck.prop == 'P32':
            small = [dict(K=3, E=3, V=2, Ops='{"add", "rem"}', Cap=1, LF=lf) for lf in (300, 1000, 625)]
    return [lambda d=d: ck.explore(module, dict(d, Judge=ALL), BULK_PROPS + more) and []
            for d in (small if ck.quick else small + large)]


def bulk(ck, r):
    """Ranges of keys, after the histories of single calls have been accepted."""
    if ck.violations or ck.prop not in gen_bulk.KINDS:
        return
    m = 1 if ck.quick else 8
    sc = gen_bulk.scenarios(r, ck.prop, 60 * m, 's', [20, 60, 250, 2000])
    sc += gen_bulk.scenarios(r, ck.prop, 8 * m, 'l', [20000, 70000, 140000])
    report(ck, ck.conformance('BulkC', 'BulkTrace', sc))


# ------------------------------------------------------------------ indexed sets and maps

HASH_EMPH = {
    'P01': ['mix', 'grow', 'churn', 'clear'],
    'P02': ['mix', 'grow', 'churn'],
    'P03': ['churn', 'reserve', 'clear', 'grow'],
    'P04': ['values', 'churn', 'grow'],
    'P05': ['iter', 'mix', 'clear'],
    'P06': ['iter'],
    'P07': ['copy'],
    'P08': ['strat'],
    'P32': ['grow', 'copy', 'churn', 'clear', 'grow', 'reserve'],
}
HASH_PROPS = 'VIEW View\nINVARIANTS Observable Structure SoundAbs\nPROPERTIES Refines Inert\n'
HASH_D = dict(NObj=1, K=3, Cap0=1, Cap1=1, LFn=3, LFd=4, HMul=1, NVal=0, MaxRsv=0, Feat='{}')
# per property: (model constants, budget of steps quick/thorough)
HASH_MODELS = {
    'P01': [dict(NVal=2, MaxRsv=1, Feat='{"clr", "bad"}'), dict(K=4, HMul=0, Feat='{"clr"}')],
    'P02': [dict(NVal=2, MaxRsv=1, Feat='{"clr"}'), dict(K=4, Feat='{"clr"}')],
    'P03': [dict(MaxRsv=1, Feat='{"clr", "bad"}'), dict(K=4, Cap0=2, LFn=1, LFd=1, Feat='{"clr"}')],
    'P04': [dict(NVal=3, Feat='{"clr"}'), dict(NVal=2, MaxRsv=1, Feat='{"clr", "each"}')],
    'P05': [dict(Cap0=4, LFn=1, LFd=1, HMul=2, Feat='{"it"}'), dict(MaxRsv=1, HMul=0, Feat='{"clr", "each"}')],
    'P06': [dict(Cap0=2, LFn=1, LFd=1, Feat='{"it", "clr"}'), dict(K=2, HMul=0, MaxRsv=1, Feat='{"it", "clr", "each"}'),
            dict(Cap0=4, LFn=1, LFd=1, HMul=0, Feat='{"it"}')],
    'P07': [dict(NObj=2, K=2, Cap0=1, Cap1=2, Feat='{"cpy", "clr"}'), dict(NObj=2, K=1, Cap0=4, Cap1=1, NVal=2, Feat='{"cpy", "it"}')],
    'P08': [dict(K=4, HMul=0, Feat='{"clr"}'), dict(HMul=2, MaxRsv=1, Feat='{"clr"}')],
    'P32': [dict(K=4, MaxRsv=1, LFn=1, LFd=3, Feat='{"clr"}'), dict(K=3, Cap0=2, LFn=1, LFd=1, Feat='{"clr"}'),
            dict(K=3, LFn=1, LFd=20, Feat='{"clr"}'), dict(NObj=2, K=2, Cap0=1, Cap1=2, Feat='{"cpy", "clr"}')],
}
HASH_DEEP = {
    'P01': [dict(NVal=2, MaxRsv=2, Feat='{"clr", "bad", "each"}')],
    'P02': [dict(K=5, Feat='{"clr"}')],
    'P03': [dict(MaxRsv=2, Feat='{"clr", "bad"}')],
    'P04': [dict(NVal=3, MaxRsv=1, Feat='{"clr", "each"}')],
    'P05': [dict(Cap0=2, LFn=1, LFd=1, MaxRsv=1, Feat='{"it", "clr", "each", "bad"}')],
    'P06': [dict(Cap0=2, LFn=1, LFd=1, MaxRsv=1, Feat='{"it", "clr", "each", "bad"}')],
    'P07': [dict(NObj=2, K=2, Cap0=1, Cap1=2, MaxRsv=1, Feat='{"clr", "cpy"}'), dict(NObj=2, K=2, Feat='{"it", "cpy", "clr"}')],
    'P08': [dict(K=5, HMul=0, Feat='{"clr"}'), dict(HMul=2, MaxRsv=1, Feat='{"clr", "it"}')],
    'P32': [dict(K=6, Feat='{"clr"}'), dict(NObj=2, K=3, Cap0=2, Cap1=1, Feat='{"clr", "cpy"}')],
}


def spaced(walk, looks, every):
    """The steps of a walk with the observations `looks` after every few of them, and at the end."""
    out = []
    for n, t in enumerate(walk):
        out.append(t)
        if n % every == every - 1:
            out += looks
    return out + looks


def hash_tour(ck, over, budget, prefix, looks=('obs',), every=12, extra=None):
    d = dict(HASH_D, Judge=ALL, Emit='TRUE')
    d.update(over)
    ws = ck.explore('BucketHash', d, HASH_PROPS, rng(ck, prefix), budget, 60)
    r = rng(ck, prefix + 'conf')
    out = []
    for j, w in enumerate(ws):
        ops = spaced(w, ['%s %d' % (x, o) for x in looks for o in range(d['NObj'])], every)
        conf = dict(cap=d['Cap0'], cap2=d['Cap1'], lf='%g' % (d['LFn'] / d['LFd']), K=d['K'], rot=r.randrange(10),
                    pal=r.choice(['seq', 'ext', 'col'] if d['HMul'] == 1 else ['col', 'col', 'col', 'ext']))
        if d['NVal'] and r.random() < 0.7:
            conf['sets'] = 0
        if ck.prop == 'P08':
            conf['custom'] = 1
            ops.insert(0, 'strat 0 e %s %d' % (r.choice(gen_hash.FNS), r.choice([2, 3, 1000])))
        conf.update(extra or {})
        out.append(Scenario('%s%d' % (prefix, j), conf, ops))
    return out


def hash_prop(ck):
    r = rng(ck, 'hash')
    kw = {}
    if ck.prop == 'P07':
        kw = dict(two=True)
    if ck.prop == 'P08':
        kw = dict(custom=True)
    models = HASH_MODELS[ck.prop]
    budget = 40000 if ck.quick else 10 ** 9
    fns = [lambda i=i, m=m: hash_tour(ck, m, budget, 'm%d_' % i) for i, m in enumerate(models)]
    if not ck.quick:
        fns += [lambda i=i, m=m: hash_tour(ck, m, 400000, 'd%d_' % i) for i, m in enumerate(HASH_DEEP[ck.prop])]
    fns += bulk_models(ck, 'BulkMC')
    tours = with_build(ck, *fns)
    m = 1 if ck.quick else 12
    sc = gen_hash.scenarios(r, 1000 if ck.quick else 400 * m, HASH_EMPH[ck.prop], 'r', **kw)
    if ck.prop not in ('P06', 'P08'):
        sc += gen_hash.big(r, 6 * m, 'b')
    sc += [x for t in tours for x in t]
    report(ck, ck.conformance('HashC', 'IndexedMapTrace', sc))
    bulk(ck, r)


# ------------------------------------------------------------------ heaps

HEAP_EMPH = {
    'P09': ['mix', 'cmp', 'rekey', 'churn', 'grow', 'odd'],
    'P10': ['mix', 'churn', 'bad', 'clear', 'grow', 'odd'],
    'P11': ['mix', 'clear', 'churn', 'grow'],
}
HEAP_PROPS = HASH_PROPS
HEAP_D = dict(K=3, NVal=1, Cap0=2, MaxSize=4, Cmps='{"asc"}', Feat='{"rst"}')
HEAP_MODELS = {
    'P09': [dict(K=2, MaxSize=5, Cap0=1), dict(Cmps='{"asc", "desc", "cm2"}', Feat='{}'),
            dict(Cmps='{"asc", "x0", "x1"}', MaxSize=3)],
    'P10': [dict(Feat='{"rst", "bad", "clr"}'), dict(K=2, Cap0=1, MaxSize=5, Feat='{"bad", "clr", "swp"}')],
    'P11': [dict(K=2, NVal=3, MaxSize=3, Feat='{"bad", "clr", "def"}'), dict(K=2, NVal=2, Cap0=1, MaxSize=4, Feat='{"rst"}')],
}
HEAP_DEEP = {
    'P09': [dict(K=3, MaxSize=5), dict(K=2, MaxSize=5, Cmps='{"asc", "desc"}', Feat='{}')],
    'P10': [dict(K=2, MaxSize=6, Cap0=1, Feat='{"bad", "clr", "swp"}')],
    'P11': [dict(K=2, NVal=3, MaxSize=4, Feat='{"clr", "def"}')],
}


def heap_tour(ck, over, budget, prefix, looks=('obs',), every=12, extra=None):
    d = dict(HEAP_D, Judge=ALL, Emit='TRUE')
    d.update(over)
    ws = ck.explore('HeapImpl', d, HEAP_PROPS, rng(ck, prefix), budget, 60)
    r = rng(ck, prefix + 'conf')
    out = []
    for j, w in enumerate(ws):
        ops = spaced([t.replace(' e ', ' e') for t in w], list(looks), every)
        out.append(Scenario('%s%d' % (prefix, j), dict(dict(cap=d['Cap0'], K=d['K'], rot=r.randrange(10), pal='ord', width=2),
                                                       **(extra or {})), ops))
    return out


def heap_prop(ck):
    r = rng(ck, 'heap')
    budget = 40000 if ck.quick else 10 ** 9
    fns = [lambda i=i, m=m: heap_tour(ck, m, budget, 'm%d_' % i) for i, m in enumerate(HEAP_MODELS[ck.prop])]
    if not ck.quick:
        fns += [lambda i=i, m=m: heap_tour(ck, m, 400000, 'd%d_' % i) for i, m in enumerate(HEAP_DEEP[ck.prop])]
    fns += bulk_models(ck, 'BulkHeapMC')
    tours = with_build(ck, *fns)
    m = 1 if ck.quick else 12
    sc = gen_heap.scenarios(r, 800 if ck.quick else 400 * m, HEAP_EMPH[ck.prop], 'r') + gen_heap.big(r, 12 * m, 'b')
    sc += [x for t in tours for x in t]
    report(ck, ck.conformance('HeapC', 'HeapTrace', sc))
    bulk(ck, r)
    if ck.prop == 'P10' and not ck.violations:
        brim(ck, hashed=False)


# ------------------------------------------------------------------ deques, hydra deques, vectors

CONSTS = dict(deque='CONSTANT Most = 536870911\n')
QUEUE = {'P12': ('deque', 'Deque'), 'P13': ('hydra', 'Hydra'), 'P14': ('vector', 'Vector')}
QUEUE_MODELS = {
    'P12': [dict(V=2, Cap0=2, MaxLen=5), dict(V=1, Cap0=1, MaxLen=20), dict(V=1, Cap0=8, MaxLen=9)],
    'P13': [dict(V=1, Cap0=1, Lists0=1, Ids='{0, 1}', MaxLen=4), dict(V=2, Cap0=1, Lists0=1, Ids='{0, 3}', MaxLen=3),
            dict(V=1, Cap0=2, Lists0=2, Ids='{0, 1, 2}', MaxLen=3)],
    'P14': [dict(V=2, Cap0=1, MaxLen=6), dict(V=1, Cap0=3, MaxLen=30)],
}
QUEUE_FULL = [dict(V=2, Cap0=1, MaxLen=9, MaxCap=4), dict(V=1, Cap0=8, MaxLen=9, MaxCap=8)]
RUNS_PROPS = 'VIEW View\nINVARIANT Same\nPROPERTIES Agrees Exact\n'
RUNS_MODELS = [dict(M=3, N=3, Cap=5, MaxLen=6), dict(M=2, N=6, Cap=9, MaxLen=10), dict(M=4, N=5, Cap=6, MaxLen=9)]
QUEUE_DEEP = {
    'P12': [dict(V=2, Cap0=4, MaxLen=8), dict(V=1, Cap0=1, MaxLen=70)],
    'P13': [dict(V=1, Cap0=1, Lists0=1, Ids='{0, 1, 2}', MaxLen=5), dict(V=2, Cap0=4, Lists0=2, Ids='{0, 1}', MaxLen=5)],
    'P14': [dict(V=2, Cap0=2, MaxLen=10)],
}


def queue_tour(ck, kind, spec, over, budget, prefix, looks=('obs',), every=8, extra=None):
    inv = 'Observable Structure' + (' SoundAbs' if kind == 'hydra' else '')
    d = dict(over, Judge=ALL, Emit='TRUE' if budget else 'FALSE')
    if kind == 'deque':
        d['MaxCap'] = over.get('MaxCap', 1 << 29)
        d['Most'] = d['MaxCap'] - 1
    ws = ck.explore(spec + 'Impl', d, 'VIEW View\nINVARIANTS %s\nPROPERTIES Refines Inert\n' % inv,
                    rng(ck, prefix) if budget else None, budget, 60)
    r = rng(ck, prefix + 'conf')
    out = []
    for j, w in enumerate(ws):
        conf = dict(kind=kind, cap=over['Cap0'], lists=over.get('Lists0', 0), V=40, pal=r.choice(gen_queue.PALS),
                    rot=r.randrange(10), width=3)
        conf.update(extra or {})
        out.append(Scenario('%s%d' % (prefix, j), conf, spaced(w, list(looks), every)))
    return out


def queue_prop(ck):
    r = rng(ck, 'queue')
    kind, spec = QUEUE[ck.prop]
    budget = 40000 if ck.quick else 10 ** 9
    fns = [lambda i=i, m=m: queue_tour(ck, kind, spec, m, budget, 'm%d_' % i) for i, m in enumerate(QUEUE_MODELS[ck.prop])]
    if not ck.quick:
        fns += [lambda i=i, m=m: queue_tour(ck, kind, spec, m, 400000, 'd%d_' % i) for i, m in enumerate(QUEUE_DEEP[ck.prop])]
    if kind == 'deque':
        fns += [lambda m=m: queue_tour(ck, kind, spec, m, 0, 'w') for m in QUEUE_FULL]
        fns += [lambda m=m: ck.explore('RunsMC', dict(m, Judge=ALL, Most=m['Cap']), RUNS_PROPS) and [] for m in RUNS_MODELS[:1 if ck.quick else 9]]
    tours = with_build(ck, *fns)
    m = 1 if ck.quick else 12
    sc = (gen_queue.scenarios(r, kind, 1000 if ck.quick else 500 * m, 'r')
          + gen_queue.scenarios(r, kind, 8 * m, 'b', (300, 500), 100, width=1))
    sc += [x for t in tours for x in t]
    report(ck, ck.conformance('QueueC', spec + 'Trace', sc, consts=CONSTS.get(kind, '')))
    if not ck.violations:
        report(ck, ck.conformance('RunsC', 'RunsTrace', gen_runs.scenarios(r, kind, 40 * m, 'r'), consts=CONSTS['deque']))
    if not ck.violations:
        report(ck, ck.conformance('RunsC', 'RunsTrace', gen_runs.big(r, kind, not ck.quick), consts=CONSTS['deque'], props=['-Dthreads=1', '-Dtask.ms=300000', '-Xmx16g'],
                                  name='RunsBig', shards=1))


# ------------------------------------------------------------------ stores

STORE = {'P15': 'chunk', 'P16': 'matrix'}
STORE_MODELS = {
    'P15': [dict(InitRows=1, Chunk=2, Fields=1, Top=5, V=2), dict(InitRows=0, Chunk=4, Fields=1, Top=6, V=2),
            dict(InitRows=3, Chunk=1, Fields=1, Top=4, V=3)],
    'P16': [dict(InitRows=1, Chunk=2, Fields=3, Top=1, V=2), dict(InitRows=1, Chunk=4, Fields=3, Top=2, V=2),
            dict(InitRows=2, Chunk=8, Fields=2, Top=3, V=2)],
}
STORE_WORD = {   # every cell of a small word is reached
    'P15': [dict(InitRows=1, Chunk=2, Fields=1, Top=8, V=2, Word=7), dict(InitRows=1, Chunk=8, Fields=1, Top=8, V=2, Word=7),
            dict(InitRows=6, Chunk=4, Fields=1, Top=8, V=2, Word=7)],
    'P16': [dict(InitRows=1, Chunk=2, Fields=3, Top=3, V=2, Word=7), dict(InitRows=1, Chunk=4, Fields=2, Top=4, V=2, Word=7),
            dict(InitRows=1, Chunk=8, Fields=1, Top=8, V=2, Word=7)],
}
STORE_DEEP = {
    'P15': [dict(InitRows=1, Chunk=2, Fields=1, Top=9, V=2), dict(InitRows=2, Chunk=4, Fields=1, Top=7, V=3)],
    'P16': [dict(InitRows=1, Chunk=4, Fields=3, Top=3, V=2), dict(InitRows=1, Chunk=2, Fields=5, Top=1, V=2)],
}


def store_tour(ck, kind, over, budget, prefix, looks=('obs',), every=10, extra=None):
    d = dict(dict(Word=2147483647), **over)
    d.update(Matrix='TRUE' if kind == 'matrix' else 'FALSE', Judge=ALL, Emit='TRUE' if budget else 'FALSE')
    ws = ck.explore('StoreImpl', d, 'VIEW View\nINVARIANTS Observable Structure\nPROPERTIES Refines Inert\n'
                    'CONSTANT MaxInt <- Word\n', rng(ck, prefix) if budget else None, budget, 60)
    r = rng(ck, prefix + 'conf')
    out = []
    for j, w in enumerate(ws):
        conf = dict(kind=kind, init=over['InitRows'], chunk=over['Chunk'], fields=over['Fields'], rot=r.randrange(10), width=3)
        conf.update(extra or {})
        out.append(Scenario('%s%d' % (prefix, j), conf, spaced(w, list(looks), every)))
    return out


def store_prop(ck):
    r = rng(ck, 'store')
    kind = STORE[ck.prop]
    budget = 40000 if ck.quick else 10 ** 9
    fns = [lambda i=i, m=m: store_tour(ck, kind, m, budget, 'm%d_' % i) for i, m in enumerate(STORE_MODELS[ck.prop])]
    fns += [lambda i=i, m=m: store_tour(ck, kind, m, 0, 'w%d_' % i) for i, m in enumerate(STORE_WORD[ck.prop])]
    if not ck.quick:
        fns += [lambda i=i, m=m: store_tour(ck, kind, m, 400000, 'd%d_' % i) for i, m in enumerate(STORE_DEEP[ck.prop])]
    tours = with_build(ck, *fns)
    m = 1 if ck.quick else 12
    sc = gen_store.scenarios(r, kind, 1000 if ck.quick else 500 * m, 'r') + gen_store.configs(kind)
    sc += gen_store.scenarios(r, kind, 10 * m, 'b', (150, 250), 100, width=2)
    sc += [x for t in tours for x in t]
    report(ck, ck.conformance('StoreC', 'StoreTrace', sc))
    if not ck.violations:
        report(ck, ck.conformance('StoreC', 'StoreTrace', gen_store.big(r, kind, not ck.quick), props=['-Dthreads=1', '-Xmx10g'],
                                  name='StoreBig', shards=1))


# ------------------------------------------------------------------ relations

REL_EMPH = {'P17': ['mix', 'grow', 'churn', 'reserve', 'bad'], 'P18': ['nav', 'grow', 'churn', 'mix', 'reserve']}
REL_D = dict(KCap=1, MCap=1, MaxRsv=0, M2M='TRUE', Bad='FALSE', Walks='FALSE')
REL_MODELS = {
    'P17': [dict(L=2, R=2), dict(L=3, R=1, MaxRsv=1, Bad='TRUE')],
    'P18': [dict(L=2, R=2, MCap=2, Walks='TRUE'), dict(L=1, R=3, MaxRsv=1, Bad='TRUE'), dict(L=1, R=3, MCap=2, Walks='TRUE')],
}
REL_DEEP = {
    'P17': [dict(L=2, R=2, M2M='FALSE', MaxRsv=1), dict(L=4, R=1, MCap=2, MaxRsv=1, Bad='TRUE')],
    'P18': [dict(L=2, R=2, MaxRsv=1, Bad='TRUE', Walks='TRUE'), dict(L=1, R=4, MCap=2, MaxRsv=1, Bad='TRUE')],
}


def rel_tour(ck, over, budget, prefix, looks=('obs',), every=10, extra=None):
    d = dict(REL_D, Judge=ALL, Emit='TRUE')
    d.update(over)
    ws = ck.explore('RelationImpl', d, HASH_PROPS, rng(ck, prefix), budget, 60)
    r = rng(ck, prefix + 'conf')
    out = []
    for j, w in enumerate(ws):
        ops = spaced([t.replace(' e ', ' e') for t in w], list(looks), every)
        conf = dict(L=d['L'], R=d['R'], lefts=d['KCap'], rights=d['KCap'], maps=d['MCap'],
                    lk=r.choice(['id', 'far', 'rev']), rk=r.choice(['id', 'far', 'up']))
        conf.update(extra or {})
        out.append(Scenario('%s%d' % (prefix, j), conf, ops))
    return out


def rel_prop(ck):
    r = rng(ck, 'rel')
    budget = 40000 if ck.quick else 10 ** 9
    fns = [lambda i=i, m=m: rel_tour(ck, m, budget, 'm%d_' % i) for i, m in enumerate(REL_MODELS[ck.prop])]
    if not ck.quick:
        fns += [lambda i=i, m=m: rel_tour(ck, m, 400000, 'd%d_' % i) for i, m in enumerate(REL_DEEP[ck.prop])]
    fns += bulk_models(ck, 'BulkRelMC')
    tours = with_build(ck, *fns)
    m = 1 if ck.quick else 12
    sc = gen_rel.scenarios(r, 3000 if ck.quick else 1500 * m, REL_EMPH[ck.prop], 'r')
    sc += gen_rel.scenarios(r, 12 * m, ['grow', 'churn', 'mix'], 'b', (250, 400), 60, sizes=((12, 9), (5, 20)))
    sc += [x for t in tours for x in t]
    report(ck, ck.conformance('RelC', 'RelationTrace', sc))
    bulk(ck, r)


# ------------------------------------------------------------------ type helpers

TYPES = ['P20', 'P21', 'P22', 'P23', 'P24']


NUM_D = dict(N=2, BITS=3, Triples='FALSE')
NUM_MODELS = {
    'P20': [(dict(), 'IntOrder FloatOrder Difference'), (dict(BITS=2, Triples='TRUE'), 'TransitiveOrder')],
    'P21': [(dict(), 'Predicates EqualityOfFloats'), (dict(BITS=2, Triples='TRUE'), 'EqualityOfFloats')],
    'P22': [(dict(N=3, BITS=2), 'Encodings')],
    'P23': [(dict(N=3, BITS=2), 'Packing')],
    'P24': [(dict(N=3, BITS=2), 'Casts Flags FloatToInt'), (dict(BITS=2), 'Rounding FloatToFloat')],
}
NUM_DEEP = {
    'P20': [(dict(N=3, BITS=3), 'IntOrder'), (dict(N=4, BITS=2), 'FloatOrder'), (dict(Triples='TRUE'), 'TransitiveOrder')],
    'P21': [(dict(N=4, BITS=2), 'Predicates EqualityOfFloats'), (dict(Triples='TRUE'), 'EqualityOfFloats')],
    'P22': [(dict(N=3, BITS=3), 'Encodings'), (dict(N=4, BITS=2), 'Encodings')],
    'P23': [(dict(N=3, BITS=3), 'Packing'), (dict(N=4, BITS=2), 'Packing')],
    'P24': [(dict(N=4, BITS=2), 'Casts Flags'), (dict(), 'Rounding FloatToFloat'), (dict(N=3, BITS=3), 'FloatToInt')],
}


def types_prop(ck):
    r = rng(ck, 'types')
    m = 1 if ck.quick else 8
    deep = not ck.quick
    if ck.prop == 'P20':
        sc = gen_types.matrices(r, 12 * m, ['cmp'], 'm', thorough=deep)
    elif ck.prop == 'P21':
        sc = gen_types.matrices(r, 12 * m, ['eq', 'pred'], 'm', thorough=deep)
    elif ck.prop == 'P22':
        sc = gen_types.encodings(r, 60 * m, 'w', deep)
    elif ck.prop == 'P23':
        sc = gen_types.packs(r, 300 * m, 'p')
    else:
        sc = gen_types.conversions(r, 20 * m, 'c', deep)
    def mc(over, inv):
        d = dict(NUM_D, Judge=ALL)
        d.update(over)
        return lambda: ck.explore('NumericMC', d, 'INVARIANTS %s\n' % inv, note=inv, workers=3)
    models = NUM_MODELS[ck.prop] + (NUM_DEEP[ck.prop] if deep else [])
    with_build(ck, *[mc(*m) for m in models])
    report(ck, ck.conformance('TypesC', 'TypesTrace', sc, consts='CONSTANT BITS = 8\n'))


# ------------------------------------------------------------------ ids

SNOW_CONSTS = 'CONSTANT BITS = 8\nCONSTANT MaxSeq = 4095\nCONSTANT MaxNode = 1023\n'
SNOW = ['P25', 'P26']
SNOW_D = dict(T=1, MaxT=2, Calls=8, Locked='TRUE', BITS=2, MaxSeq=1, MaxNode=3)
SNOW_PROPS = 'VIEW View\nINVARIANTS RealTime Structure\nPROPERTY Refines\n'


def snow_prop(ck):
    r = rng(ck, 'snow')
    budget = 9000 if ck.quick else 10 ** 9
    walks = []

    def tour(over):
        d = dict(SNOW_D, Judge=ALL, Emit='TRUE')
        d.update(over)
        walks.extend(ck.explore('SnowflakeImpl', d, SNOW_PROPS, rng(ck, 'tour'), budget, 80))

    def model(over):
        d = dict(SNOW_D, Judge=ALL, Emit='FALSE')
        d.update(over)
        return lambda: ck.explore('SnowflakeImpl', d, SNOW_PROPS)
    fns = [lambda: tour(dict(Calls=8 if ck.quick else 14)), model(dict(T=3, MaxT=1, Calls=5)), model(dict(MaxSeq=2, T=2, Calls=6))]
    if not ck.quick:
        fns += [model(dict(T=4, MaxT=1, Calls=7)), model(dict(T=3, MaxT=2, Calls=7))]
    with_build(ck, *fns)
    m = 1 if ck.quick else 12
    sc = gen_snow.scenarios(r, 250 * m, (5, 40), 'h') + gen_snow.names(r, 400 * m, 'names')
    for i, w in enumerate(walks):
        sc.append(Scenario('t%d' % i, dict(name=r.choice(gen_snow.NAMES)),
                           gen_snow.from_walk(w, r.choice([0, 3, 1 << 31, (1 << 41) - 9]), r.choice([1, 2]))))
    consts = SNOW_CONSTS
    report(ck, ck.conformance('SnowC', 'SnowflakeTrace', sc, consts=consts))
    if ck.violations:
        return
    races = gen_snow.races(r, 12 if ck.quick else 60, 4000 if ck.quick else 20000, 'race')
    report(ck, ck.conformance('SnowC', 'SnowflakeTrace', races, consts=consts, props=['-Dthreads=2'], name='SnowRace'))


# ------------------------------------------------------------------ capacities

def cap_prop(ck):
    r = rng(ck, 'cap')
    inv = 'VIEW View\nINVARIANTS Rounding Growth TooBig Room\nPROPERTY Refines\n'

    def model(**d):
        return lambda: ck.explore('CapacityImpl', dict(d, Judge=ALL, BITS=8), inv)
    fns = [model(WB=8, Limit=5, MaxAdds=40), model(WB=10, Limit=7, MaxAdds=140)]
    if not ck.quick:
        fns += [model(WB=13, Limit=10, MaxAdds=1100)]
    with_build(ck, *fns)
    sc = gen_cap.scenarios(r, 1 if ck.quick else 10, 30, not ck.quick)
    report(ck, ck.conformance('CapC', 'CapacityTrace', sc, consts='CONSTANT BITS = 8\nCONSTANT Limit = 29\n'))
    if not ck.violations:
        brim(ck)


def brim(ck, **kinds):
    """Collections filled to the largest size they can have."""
    report(ck, ck.conformance('CapC', 'CapacityTrace', gen_cap.edge(not ck.quick, **kinds),
                              consts='CONSTANT BITS = 8\nCONSTANT Limit = 29\n', name='CapEdge', shards=1,
                              props=['-Dthreads=1', '-Dtask.ms=400000', '-Xmx16g']))


# ------------------------------------------------------------------ companion sort

SORT_D = dict(K=3, Small=2, Big=3, Div=4, Ranges='FALSE', Cmps='{"asc"}')
SORT_PROPS = 'VIEW View\nINVARIANTS Permuted Partitioned Halving\nPROPERTY Refines\n'
SORT_MODELS = [(dict(N=3, Ranges='TRUE', Cmps='{"asc", "half"}'), 3000), (dict(N=6, Small=3, Big=5, Cmps='{"asc", "mod3"}'), 6000),
               (dict(N=8, Small=3, Big=5, Cmps='{"desc"}'), 0), (dict(N=6, K=4, Small=2, Big=4, Div=3), 0)]
SORT_DEEP = [(dict(N=4, Ranges='TRUE', Cmps='{"asc", "same", "mod3"}'), 60000), (dict(N=7, K=7, Small=3, Big=5), 0),
             (dict(N=9, K=3, Small=3, Big=6), 60000), (dict(N=12, K=2, Small=3, Big=7, Div=5), 0),
             (dict(N=8, K=4, Small=2, Big=6, Div=3, Cmps='{"asc", "even"}'), 0)]


def sort_prop(ck):
    r = rng(ck, 'sort')

    def tour(n, over, budget):
        d = dict(SORT_D, Judge=ALL, Emit='TRUE' if budget else 'FALSE')
        d.update(over)
        ws = ck.explore('SortImpl', d, SORT_PROPS, rng(ck, 'tour%d' % n) if budget else None, budget, 60, workers=3)
        return gen_sort.from_tokens(ws, rng(ck, 'big%d' % n), 'm%d_' % n)
    jobs = SORT_MODELS + ([] if ck.quick else SORT_DEEP)
    tours = with_build(ck, *[lambda n=n, j=j: tour(n, *j) for n, j in enumerate(jobs)], limit=4)
    m = 1 if ck.quick else 12
    sc = [x for t in tours for x in t] + gen_sort.scenarios(r, 900 * m, 'r')
    sc += gen_sort.scenarios(r, 25 * m, 'l', [200, 300, 500, 700, 1000, 1500], per=2, width=2)
    sc += [Scenario('killer%d' % i, dict(exact=1, width=1, rot=r.randrange(1000)), ['killer %d' % n])
           for i, n in enumerate([20000] * (2 if ck.quick else 8) + [100, 1000, 3000])]
    sc += gen_sort.long(r, 8 if ck.quick else 60, not ck.quick)
    report(ck, ck.conformance('SortC', 'SortTrace', sc))


# ------------------------------------------------------------------ arrays

ARR_PROPS = 'VIEW View\nINVARIANTS SoundAbs Ends\nPROPERTY Refines\n'
ARR_MODELS = [(dict(WB=5, MaxInt=15, V=2, MaxLen=4), 10000), (dict(WB=4, MaxInt=7, V=3, MaxLen=3), 10000),
              (dict(WB=6, MaxInt=31, V=2, MaxLen=6), 0)]
ARR_DEEP = [(dict(WB=6, MaxInt=31, V=2, MaxLen=7), 300000), (dict(WB=7, MaxInt=63, V=3, MaxLen=6), 0)]


def arrays_prop(ck):
    r = rng(ck, 'arrays')

    def tour(n, over, budget):
        d = dict(over, Judge=ALL, Emit='TRUE' if budget else 'FALSE')
        ws = ck.explore('ArraysImpl', d, ARR_PROPS, rng(ck, 'tour%d' % n) if budget else None, budget, 60, workers=3)
        return gen_arrays.from_tokens(ws, 'm%d_' % n)
    jobs = ARR_MODELS + ([] if ck.quick else ARR_DEEP)
    tours = with_build(ck, *[lambda n=n, j=j: tour(n, *j) for n, j in enumerate(jobs)])
    m = 1 if ck.quick else 12
    sc = [x for t in tours for x in t] + gen_arrays.scenarios(r, 600 * m, 'r') + gen_arrays.limits()
    consts = 'CONSTANT MaxInt = 2147483647\n'
    report(ck, ck.conformance('ArraysC', 'ArraysTrace', sc, consts=consts))
    if not ck.violations:
        report(ck, ck.conformance('ArraysC', 'ArraysTrace', gen_arrays.big(r, not ck.quick), consts=consts,
                                  props=['-Dthreads=2', '-Xmx10g'], name='ArraysBig', shards=1))


# ------------------------------------------------------------------ what stays reachable

REF_PALS = ['seq', 'col', 'ord']
REF_QUICK = dict(
    hash=[dict(NVal=2, MaxRsv=1, K=2, Feat='{"clr", "bad", "each"}'), dict(NObj=2, K=2, NVal=2, Cap1=2, Feat='{"cpy"}'),
          dict(K=2, NVal=2, HMul=0, Feat='{"it", "clr"}')],
    heap=[dict(K=2, NVal=2, MaxSize=3, Feat='{"clr", "def"}'), dict(K=2, NVal=2, Cap0=1, MaxSize=3, Feat='{"rst", "clr"}')],
    deque=[dict(V=2, Cap0=2, MaxLen=5)], hydra=[dict(V=2, Cap0=1, Lists0=1, Ids='{0, 3}', MaxLen=3)],
    vector=[dict(V=2, Cap0=1, MaxLen=5)], chunk=[dict(InitRows=1, Chunk=2, Fields=1, Top=5, V=2)],
    matrix=[dict(InitRows=1, Chunk=2, Fields=3, Top=1, V=2)])
REF_DEEP = dict(
    hash=[dict(NVal=2, MaxRsv=1, Feat='{"clr", "bad", "each"}'), dict(NObj=2, K=2, NVal=2, Cap1=2, Feat='{"cpy", "clr"}'),
          dict(NVal=2, HMul=0, Feat='{"it", "clr"}')],
    heap=[dict(K=2, NVal=2, MaxSize=4, Feat='{"clr", "def"}'), dict(K=2, NVal=2, Cap0=1, MaxSize=4, Feat='{"rst", "clr", "bad"}')],
    deque=[dict(V=2, Cap0=4, MaxLen=8)], hydra=[dict(V=1, Cap0=2, Lists0=2, Ids='{0, 1, 2}', MaxLen=4)],
    vector=[dict(V=2, Cap0=2, MaxLen=9)], chunk=[dict(InitRows=2, Chunk=4, Fields=1, Top=7, V=2)],
    matrix=[dict(InitRows=1, Chunk=4, Fields=3, Top=2, V=2)])
SPECS = dict(hash=('HashC', 'IndexedMapTrace'), heap=('HeapC', 'HeapTrace'), deque=('QueueC', 'DequeTrace'),
             hydra=('QueueC', 'HydraTrace'), vector=('QueueC', 'VectorTrace'), chunk=('StoreC', 'StoreTrace'),
             matrix=('StoreC', 'StoreTrace'), rel=('RelC', 'RelationTrace'))


def any_tour(ck, kind, over, budget, prefix, **kw):
    """A tour of the model of one kind of collection."""
    if kind == 'hash':
        return hash_tour(ck, over, budget, prefix, **kw)
    if kind == 'heap':
        return heap_tour(ck, over, budget, prefix, **kw)
    if kind == 'rel':
        return rel_tour(ck, over, budget, prefix, **kw)
    if kind in ('chunk', 'matrix'):
        return store_tour(ck, kind, over, budget, prefix, **kw)
    return queue_tour(ck, kind, kind.capitalize(), over, budget, prefix, **kw)


def reach_prop(ck):
    r = rng(ck, 'reach')
    budget = 5000 if ck.quick else 60000
    jobs = [(k, m, budget) for k, ms in REF_QUICK.items() for m in ms]
    if not ck.quick:
        jobs += [(k, m, 300000) for k, ms in REF_DEEP.items() for m in ms]
    extra = dict(ref=1, width=10)

    def tour(n, kind, m, b):
        e = dict(extra)
        if kind in ('hash', 'deque', 'hydra', 'vector'):
            e['pal'] = REF_PALS[n % 3]
        return kind, any_tour(ck, kind, m, b, 'm%d_' % n, looks=('reach',), every=2 if ck.quick else 1, extra=e)
    got = with_build(ck, *[lambda n=n, j=j: tour(n, *j) for n, j in enumerate(jobs)], limit=4)
    sc = {k: [] for k in REF_QUICK}
    for kind, t in got:
        sc[kind] += t
    m = 1 if ck.quick else 12
    sc['hash'] += gen_hash.scenarios(r, 250 * m, ['mix', 'churn', 'clear', 'copy', 'reserve', 'iter', 'values', 'grow'], 'r',
                                     ref=True, reach=True, pals=REF_PALS)
    sc['hash'] += gen_hash.scenarios(r, 40 * m, ['mix', 'churn', 'grow'], 'l', length=(150, 250), every=30, ref=True,
                                     reach=True, pals=REF_PALS, K=[30, 60])
    sc['heap'] += gen_heap.scenarios(r, 150 * m, ['mix', 'churn', 'clear', 'rekey', 'bad', 'grow'], 'r', ref=True,
                                     reach=True, pals=['ord', 'seq', 'ord'], width=10)
    for kind in ('deque', 'hydra', 'vector'):
        sc[kind] += gen_queue.scenarios(r, kind, 200 * m, 'r', ref=True, reach=True, pals=REF_PALS)
    for kind in ('chunk', 'matrix'):
        sc[kind] += gen_store.scenarios(r, kind, 80 * m, 'r', ref=True, reach=True)
    for kind, l in sc.items():
        comp, spec = SPECS[kind]
        report(ck, ck.conformance(comp, spec, l, name='%s_%s' % (comp, kind), consts=CONSTS.get(kind, '')))


# ------------------------------------------------------------------ calls that change nothing

EVERY = {'P%02d' % i for i in range(1, 33) if i != 31}
IDLE_PROPS = {'hash': HASH_PROPS, 'heap': HEAP_PROPS}
IDLE_QUICK = dict(
    hash=[dict(NVal=2, MaxRsv=1, K=2, Feat='{"clr", "bad"}'), dict(K=3, HMul=0, MaxRsv=1, Feat='{"bad"}')],
    heap=[dict(K=2, NVal=2, MaxSize=3, Feat='{"clr", "def", "bad"}'), dict(K=2, Cap0=1, MaxSize=4, Feat='{"rst", "bad"}'),
          dict(K=2, Cmps='{"asc", "x0", "x1"}', MaxSize=3, Cap0=1)],
    deque=[dict(V=2, Cap0=2, MaxLen=4)], hydra=[dict(V=1, Cap0=1, Lists0=1, Ids='{0, 2}', MaxLen=4)],
    vector=[dict(V=1, Cap0=1, MaxLen=5)],
    matrix=[dict(InitRows=1, Chunk=2, Fields=3, Top=1, V=2)],
    rel=[dict(L=2, R=2, Bad='TRUE'), dict(L=3, R=1, MaxRsv=1, Bad='TRUE', M2M='FALSE')])
IDLE_DEEP = dict(
    hash=[dict(NVal=2, MaxRsv=1, K=3, Feat='{"clr", "bad"}'), dict(K=4, HMul=0, Feat='{"bad"}')],
    heap=[dict(K=2, NVal=2, MaxSize=4, Feat='{"clr", "def", "bad"}')],
    hydra=[dict(V=2, Cap0=1, Lists0=1, Ids='{0, 3}', MaxLen=3)],
    matrix=[dict(InitRows=1, Chunk=4, Fields=3, Top=2, V=2)],
    rel=[dict(L=2, R=2, MaxRsv=1, Bad='TRUE'), dict(L=1, R=3, MaxRsv=1, MCap=2, Bad='TRUE')])


def idle_prop(ck):
    r = rng(ck, 'idle')
    budget = 9000 if ck.quick else 10 ** 9
    jobs = [(k, m, budget) for k, ms in IDLE_QUICK.items() for m in ms]
    if not ck.quick:
        jobs += [(k, m, 300000) for k, ms in IDLE_DEEP.items() for m in ms]

    def tour(n, kind, m, b):
        return kind, any_tour(ck, kind, m, b, 'm%d_' % n, every=3)
    got = with_build(ck, *[lambda n=n, j=j: tour(n, *j) for n, j in enumerate(jobs)], limit=4)
    sc = {k: [] for k in list(IDLE_QUICK) + ['chunk']}
    for kind, t in got:
        sc[kind] += t
    m = 1 if ck.quick else 12
    sc['hash'] += gen_hash.scenarios(r, 200 * m, ['refuse', 'refuse', 'reserve', 'churn', 'strat'], 'r', every=2)
    sc['heap'] += gen_heap.scenarios(r, 180 * m, ['bad', 'odd', 'clear', 'odd', 'bad', 'churn'], 'r', every=2)
    for kind in ('deque', 'hydra', 'vector'):
        sc[kind] += gen_queue.scenarios(r, kind, 120 * m, 'r', every=2)
    for kind in ('chunk', 'matrix'):
        sc[kind] += gen_store.scenarios(r, kind, 100 * m, 'r', every=2)
    sc['rel'] += gen_rel.scenarios(r, 500 * m, ['bad', 'bad', 'reserve', 'churn'], 'r', every=2)
    for kind, l in sc.items():
        comp, spec = SPECS[kind]
        report(ck, ck.conformance(comp, spec.replace('Trace', 'Twin'), l, name='%s_%s' % (comp, kind), judge=EVERY,
                                  consts=CONSTS.get(kind, ''), props=['-Dtwin=true']))
    if not ck.violations:
        brim(ck, hashed=False)
    if not ck.violations:
        report(ck, ck.conformance('RunsC', 'RunsTrace', gen_runs.brim(r), consts=CONSTS['deque'], name='RunsBrim', shards=1,
                                  props=['-Dthreads=1', '-Dtask.ms=300000', '-Xmx16g']))


# ------------------------------------------------------------------ company

APART = dict(Objs='{1, 2, 3}', Threads='{1, 2}', MaxLen=2, Depth=2, Scratch='"own"')


def apart_prop(ck):
    """Every history alone and again in company: within itself, and with others in other threads."""
    r = rng(ck, 'apart')
    models = [APART] if ck.quick else [APART, dict(APART, MaxLen=3), dict(APART, Objs='{1, 2}', Depth=3, MaxLen=3)]
    with_build(ck, *[lambda d=d: ck.explore('ApartMC', d, 'INVARIANTS Right Prefix\n') for d in models], limit=4)
    m = 1 if ck.quick else 10
    every = dict(every=2)
    sc = dict(hash=gen_hash.scenarios(r, 100 * m, ['mix', 'iter', 'copy', 'strat', 'strat', 'grow', 'reserve'], 'h', **every),
              heap=gen_heap.scenarios(r, 60 * m, ['odd', 'clear', 'churn'], 'h', **every))
    for kind in ('deque', 'hydra', 'vector'):
        sc[kind] = gen_queue.scenarios(r, kind, 60 * m, 'h', **every)
    for kind in ('chunk', 'matrix'):
        sc[kind] = gen_store.scenarios(r, kind, 60 * m, 'h', **every)
    sc['rel'] = gen_rel.scenarios(r, 200 * m, ['bad', 'reserve', 'churn'], 'h', **every)
    apart = ['-Dapart=true']
    typed = gen_types.conversions(r, 40, 'c') + gen_types.encodings(r, 8, 'e') + gen_types.packs(r, 3, 'p')
    mats = gen_types.matrices(r, 4, ['cmp', 'eq', 'pred'], 'm', size=8)
    typed = r.sample(typed, min(len(typed), 60 * m)) + r.sample(mats, min(len(mats), 15 * m))
    jobs = [(SPECS[k][0], SPECS[k][1].replace('Trace', 'Apart'), l, k, CONSTS.get(k, ''), apart) for k, l in sc.items()]
    jobs += [('SortC', 'SortApart', gen_sort.scenarios(r, 40 * m, 'h'), 'sort', '', apart),
             ('ArraysC', 'ArraysApart', gen_arrays.scenarios(r, 60 * m, 'h'), 'arrays', 'CONSTANT MaxInt = 2147483647\n', apart),
             ('SnowC', 'SnowflakeApart', gen_snow.scenarios(r, 40 * m, (10, 60), 'h'), 'snow', SNOW_CONSTS, apart),
             ('TypesC', 'TypesApart', typed, 'types', 'CONSTANT BITS = 8\n', apart)]
    for comp, spec, l, name, consts, p in jobs:
        report(ck, ck.conformance(comp, spec, l, name='%s_%s' % (comp, name), judge=EVERY, consts=consts, props=p))


# ------------------------------------------------------------------ collections joined through their entries

JOIN_D = dict(NL=2, NR=2, NV=1, NT=1, MaxQ=1, Lazy='FALSE')
JOIN_PROPS = 'VIEW View\nINVARIANT Same\nPROPERTY Refines\n'
JOIN_MODELS = [dict(Feat='{"cls", "lve"}'), dict(NL=1, NV=2, NT=2, Feat='{"cls", "lve", "set", "sch"}'),
               dict(NR=1, MaxQ=2, Feat='{"cls", "lve", "wt", "drp"}')]
JOIN_DEEP = [dict(Feat='{"cls", "lve", "wt"}'), dict(NL=1, NR=3, NT=2, Feat='{"lve", "sch"}'),
             dict(NL=2, NR=2, NT=2, Feat='{"cls", "lve", "sch"}')]


def join_tour(ck, over, budget, prefix):
    d = dict(JOIN_D, Judge=ALL, Emit='TRUE')
    d.update(over)
    ws = ck.explore('JoinedImpl', d, JOIN_PROPS, rng(ck, prefix), budget, 60)
    r = rng(ck, prefix + 'conf')
    return [Scenario('%s%d' % (prefix, j), dict(L=d['NL'], R=d['NR'], cap=r.choice([1, 1, 2]), pal=r.choice(['seq', 'col', 'ext']),
                                                rot=r.randrange(90), width=1), spaced(w, ['obs'], 6)) for j, w in enumerate(ws)]


def join_prop(ck):
    r = rng(ck, 'join')
    fns = [lambda i=i, m=m: join_tour(ck, m, 40000 if ck.quick else 10 ** 9, 'm%d_' % i) for i, m in enumerate(JOIN_MODELS)]
    if not ck.quick:
        fns += [lambda i=i, m=m: join_tour(ck, m, 200000, 'd%d_' % i) for i, m in enumerate(JOIN_DEEP)]
    tours = with_build(ck, *fns)
    m = 1 if ck.quick else 15
    sc = gen_join.scenarios(r, 1000 if ck.quick else 400 * m, 'r')
    sc += gen_join.scenarios(r, 20 * m, 'b', (300, 500), 60, sizes=((12, 9), (5, 30), (30, 20)))
    sc += [x for t in tours for x in t]
    report(ck, ck.conformance('JoinC', 'JoinedTrace', sc))


RUN = {p: hash_prop for p in HASH_EMPH}
RUN['P33'] = join_prop


# ------------------------------------------------------------------ the work of a call

def work_prop(ck):
    r = rng(ck, 'work')
    wk = [lambda: ck.explore('Work', dict(N=40 if ck.quick else 400, Caps='{1, 2, 4, 8, 16}', Judge=ALL), 'VIEW View\nINVARIANT Enough\n') and []]
    with_build(ck, *(wk + bulk_models(ck, 'BulkMC') + bulk_models(ck, 'BulkHeapMC')))
    m = 1 if ck.quick else 10
    sc = gen_bulk.scenarios(r, 'P34', 120 * m, 's', [20, 60, 250, 2000])
    sc += gen_bulk.scenarios(r, 'P34', 8 * m, 'l', [10000, 30000])
    report(ck, ck.conformance('BulkC', 'BulkTrace', sc))


RUN['P34'] = work_prop


# ------------------------------------------------------------------ the space of a collection

SPACE_PROPS = 'VIEW View\nINVARIANTS Dense Twice Fits\n'


def space_prop(ck):
    import gen_space
    r = rng(ck, 'space')
    d = dict(Most=4 if ck.quick else 7, Caps='{1, 2, 3}', Loads='{1000, 750, 300}', Leak='FALSE', Judge=ALL)
    with_build(ck, lambda: ck.explore('SpaceImpl', d, SPACE_PROPS) and [])
    report(ck, ck.conformance('SpaceC', 'SpaceTrace', gen_space.scenarios(r, 540 if ck.quick else 60000, 's')))


RUN['P35'] = space_prop
RUN['P31'] = apart_prop
RUN['P30'] = idle_prop
RUN['P28'] = reach_prop
RUN.update({p: heap_prop for p in HEAP_EMPH})
RUN.update({p: types_prop for p in TYPES})
RUN['P29'] = cap_prop
RUN['P19'] = sort_prop
RUN['P27'] = arrays_prop
RUN.update({p: snow_prop for p in SNOW})
RUN.update({p: rel_prop for p in REL_EMPH})
RUN.update({p: store_prop for p in STORE})
RUN.update({p: queue_prop for p in QUEUE})


def run(ck):
    RUN[ck.prop](ck)


def assumptions(prop):
    return []
