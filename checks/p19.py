import itertools
from common import *
from sim import *
from par import par
RULE = 'after every history the map gives for every key exactly what the history of successful insertions and deletions says'
EXPLANATION = 'The hash map operations are followed over the compiled IR with an arbitrary user hash and comparison (every assignment of hash values to keys from a small set, equal and different) for every short history of insertions, deletions and lookups and for long ones that pass the growing and shrinking points, with allocations succeeding and failing; after each operation every key is looked up and the table is read back.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/hashmap.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(buckets, bfdev_hashmap_t, buckets) O(bits, bfdev_hashmap_t, bits) O(capacity, bfdev_hashmap_t, capacity) O(used, bfdev_hashmap_t, used)
O(hash_key, bfdev_hashmap_ops_t, hash_key) O(hash_node, bfdev_hashmap_ops_t, hash_node) O(equal, bfdev_hashmap_ops_t, equal) O(find, bfdev_hashmap_ops_t, find) O(extend, bfdev_hashmap_ops_t, extend) O(shrink, bfdev_hashmap_ops_t, shrink)
O(next, bfdev_hlist_node_t, next) O(pprev, bfdev_hlist_node_t, pprev) O(head, bfdev_hlist_head_t, node)
const unsigned long off_mapsize = sizeof(bfdev_hashmap_t), off_opsize = sizeof(bfdev_hashmap_ops_t), off_nodesize = sizeof(bfdev_hlist_node_t), off_headsize = sizeof(bfdev_hlist_head_t), off_bitsz = sizeof(((bfdev_hashmap_t *)0)->bits);
const unsigned long off_EEXIST = BFDEV_EEXIST, off_ENOENT = BFDEV_ENOENT, off_ENOMEM = BFDEV_ENOMEM;
'''
LINES = [
    ('bfdev_hashmap_init', 'void w_init(bfdev_hashmap_t *m, const bfdev_alloc_t *a, const bfdev_hashmap_ops_t *o, void *p) { bfdev_hashmap_init(m, a, o, p); }'),
    ('BFDEV_HASHMAP_INIT', 'void w_macro(bfdev_hashmap_t *m, const bfdev_alloc_t *a, const bfdev_hashmap_ops_t *o, void *p) { *m = BFDEV_HASHMAP_INIT(a, o, p); }'),
    ('bfdev_hashmap_add', 'int w_add(bfdev_hashmap_t *m, bfdev_hlist_node_t *n, bfdev_hlist_node_t **old) { return bfdev_hashmap_add(m, n); }'),
    ('bfdev_hashmap_set', 'int w_set(bfdev_hashmap_t *m, bfdev_hlist_node_t *n, bfdev_hlist_node_t **old) { return bfdev_hashmap_set(m, n, old); }'),
    ('bfdev_hashmap_update', 'int w_update(bfdev_hashmap_t *m, bfdev_hlist_node_t *n, bfdev_hlist_node_t **old) { return bfdev_hashmap_update(m, n, old); }'),
    ('bfdev_hashmap_append', 'int w_append(bfdev_hashmap_t *m, bfdev_hlist_node_t *n, bfdev_hlist_node_t **old) { return bfdev_hashmap_append(m, n); }'),
    ('bfdev_hashmap_insert', 'int w_insadd(bfdev_hashmap_t *m, bfdev_hlist_node_t *n, bfdev_hlist_node_t **old) { return bfdev_hashmap_insert(m, n, old, BFDEV_HASHMAP_ADD); }'),
    ('bfdev_hashmap_del', 'int w_del(bfdev_hashmap_t *m, const void *k, bfdev_hlist_node_t **n) { return bfdev_hashmap_del(m, k, n); }'),
    ('bfdev_hashmap_find', 'bfdev_hlist_node_t *w_find(bfdev_hashmap_t *m, const void *k) { return bfdev_hashmap_find(m, k); }'),
    ('bfdev_hashmap_release', 'void w_release(bfdev_hashmap_t *m) { bfdev_hashmap_release(m); }'),
]
API = dict(add='bfdev_hashmap_add', set='bfdev_hashmap_set', update='bfdev_hashmap_update', append='bfdev_hashmap_append', insadd='bfdev_hashmap_insert', find='bfdev_hashmap_find', release='bfdev_hashmap_release', init='bfdev_hashmap_init', macro='BFDEV_HASHMAP_INIT'); API['del'] = 'bfdev_hashmap_del'


class Wrong(Exception):
    def __init__(s, api, text): s.api = api; s.text = text


class Map(Sim):
    """one map; keys are numbers, hash[k] the user's hash of key k"""
    def setup(s, K, hashes, hooks=(None, None), init='init'):
        s.K = K; s.hash = hashes; s.key = {}; s.model = {}; s.count = 0; s.nn = 0
        s.new('map', K['mapsize'], False); s.new('ops', K['opsize'], True); s.ro.add('ops')
        for n in ('hash_key', 'hash_node', 'equal', 'find'): s.res[('ops', K[n], 8)] = P(('f', 'cb_' + n))
        for n, h in zip(('extend', 'shrink'), hooks):
            if h is not None: s.res[('ops', K[n], 8)] = P(('f', 'cb_' + n)); s.handlers['cb_' + n] = lambda a, ins, h=h: int(h(s.count))
        def pd(x, ins):
            if x != ('o', 'pdata'): raise Bad('a callback is not given the private data', ins)
        def node(p, ins):
            if not isp(p) or p[1] not in s.key or p[2] != 0: raise Bad('a callback is given what is no element', ins)
            if p[1] in s.dead: raise Bad('a callback is given a removed element', ins)
            return s.key[p[1]]
        def key(p, ins):
            if not isp(p) or p[1][:4] != 'key ': raise Bad('a callback is given what is no key', ins)
            return int(p[1][4:])
        def hk(a, ins): pd(a[1], ins); return s.hash[key(a[0], ins)]
        def hn(a, ins): pd(a[1], ins); return s.hash[node(a[0], ins)]
        def eq(a, ins): pd(a[2], ins); return int(node(a[0], ins) != node(a[1], ins)) << 40
        def fi(a, ins): pd(a[2], ins); return int(node(a[0], ins) != key(a[1], ins)) << 40
        s.handlers.update(cb_hash_key=hk, cb_hash_node=hn, cb_equal=eq, cb_find=fi)
        s.w('w_' + init, P('map'), 0, P('ops'), ('o', 'pdata'))

    def w(s, w, *a): return s.do(w, *a)

    def insert(s, op, k):
        s.nn += 1; n = 'element %d' % s.nn
        s.new(n, s.K['nodesize'], False); s.key[n] = k
        s.new('old', 8, False); s.mem.pop(('old', 0), None)
        have = s.model.get(k, [])
        nf = s.nfail
        r = signed(s.w('w_' + op, P('map'), P(n), P('old')), 32)
        K = s.K; failed = s.nfail > nf
        if op in ('add', 'insadd') and have: want = -K['EEXIST']
        elif op == 'update' and not have: want = -K['ENOENT']
        elif failed: want = -K['ENOMEM']
        else: want = 0
        if r != want: raise Wrong(op, 'returns %s instead of %s' % (r, want))
        if r == 0:
            if op in ('set', 'update') and have:
                o = s.cell('old', 0) if ('old', 0) in s.mem else None
                if not isp(o) or o[1] not in have: raise Wrong(op, 'does not give back the element it replaces')
                have = [x if x != o[1] else n for x in have]; s.model[k] = have; s.drop(o[1])
            else: s.model.setdefault(k, []).append(n); s.count += 1
        elif op == 'insadd' and ('old', 0) in s.mem:
            o = s.cell('old', 0)
            if not isp(o) or o[1] not in have: raise Wrong(op, 'gives back what is not the existing element')
        if r != 0: s.drop(n)

    def drop(s, n): s.dead.add(n)

    def delete(s, k):
        s.new('old', 8, False); s.mem.pop(('old', 0), None)
        have = s.model.get(k, [])
        r = signed(s.w('w_del', P('map'), P('key %d' % k), P('old')), 32)
        want = 0 if have else -s.K['ENOENT']
        if r != want: raise Wrong('del', 'returns %s instead of %s' % (r, want))
        if have:
            o = s.cell('old', 0) if ('old', 0) in s.mem else None
            if not isp(o) or o[1] not in have: raise Wrong('del', 'does not give the element with the key')
            have.remove(o[1]); s.count -= 1; s.drop(o[1])

    def verify(s, api):
        K = s.K
        if s.cell('map', K['used']) != s.count: raise Wrong(api, 'the count is %s with %d elements' % (s.cell('map', K['used']), s.count))
        cap = s.cell('map', K['capacity']); b = s.cell('map', K['buckets'])
        got = []
        if b != 0:
            if not isp(b) or b[1] not in s.heap or not isinstance(cap, int) or s.size[b[1]] < cap * K['headsize']: raise Wrong(api, 'the table has not room for the capacity')
            if cap != 1 << s.cell('map', K['bits'], K['bitsz']): raise Wrong(api, 'capacity and bits disagree')
            for i in range(cap):
                at = (b[1], b[2] + i * K['headsize'] + K['head'])
                for _ in range(len(s.key) + 1):
                    p = s.cell(*at)
                    if p == 0: break
                    if not isp(p) or p[1] not in s.key or p[1] in s.dead: raise Wrong(api, 'a bucket leads to what is no element')
                    if s.cell(p[1], K['pprev']) != P(*at): raise Wrong(api, 'a back reference is wrong')
                    got.append(p[1]); at = (p[1], K['next'])
                else: raise Wrong(api, 'a bucket does not end')
        want = [n for v in s.model.values() for n in v]
        if sorted(got) != sorted(want): raise Wrong(api, 'the table holds %s instead of %s' % (sorted(got), sorted(want)))
        for x in s.heap:
            if not isp(b) or x != b[1]: raise Wrong(api, 'a table is leaked')
        for k in range(len(s.hash)):
            before = dict(s.mem)
            r = s.w('w_find', P('map'), P('key %d' % k))
            have = s.model.get(k, [])
            if have and (not isp(r) or r[1] not in have): raise Wrong(api, 'key %d is not found afterwards' % k)
            if not have and r != 0: raise Wrong(api, 'key %d is found although it is not in the map' % k)
            if any(w and (o == 'map' or o in s.heap or o in s.key) for w, o, _, _ in s.log): raise Wrong('find', 'changes the map')


def run(ctx, res):
    mod = ctx.instantiate('w_p19', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]
    K = offsets(mod)
    quick = ctx.tier == 'quick'

    def history(res, ops, hashes, hooks=(None, None), failat=None, init='init', every=True):
        api = init
        try:
            m = Map(mods); m.setup(K, hashes, hooks, init); m.failat = failat
            m.verify(init)
            for i, (op, k) in enumerate(ops):
                api = op
                if op == 'del': m.delete(k)
                elif op == 'find': continue
                else: m.insert(op, k)
                if every or i == len(ops) - 1: m.verify(op)
            api = 'release'
            m.w('w_release', P('map'))
            if m.heap: raise Wrong('release', 'a table is leaked')
            m.model = {}; m.count = 0; m.verify('release')
        except Wrong as e: bad(res, e.api, '%s, hashes %s%s: %s' % (text(ops[:i + 1]) if ops else 'an empty map', hashes[:4], '' if failat is None else ', failing allocation', e.text))
        except Bad as e: bad(res, api, '%s, hashes %s: %s%s' % (text(ops), hashes[:4], e.text, ' at %s' % relf(e.ins.where) if e.ins else ''))
        except Bound: bad(res, api, '%s, hashes %s: does not end' % (text(ops), hashes[:4]))
        except Stuck as e: res.undecided('hash map, %s' % text(ops[:3]), str(e)); return False
        res.count('histories'); res.count('operations', len(ops)); return True

    def text(ops): return ' '.join('%s(%d)' % o for o in ops[:8]) + (' ...' if len(ops) > 8 else '')
    def bad(res, api, t): res.bad('map:%s' % API.get(api, api), '%s (%s)' % ('src/hashmap.c', API.get(api, api)), RULE, '%s: after %s' % (API.get(api, api), t))

    # short histories: every sequence of operations over two keys
    alpha = [(o, k) for o in ('add', 'set', 'update', 'append', 'del') for k in (0, 1)]
    n = 3 if quick else 4
    def short(first):
        def job(r):
            for h in ([5, 5], [0, 7], [1 << 63 | 3, 9]):
                for rest in itertools.product(alpha, repeat=n - 1):
                    if h[0] == 1 << 63 | 3 and quick and rest[-1][0] not in ('del', 'append'): continue
                    if not history(r, [first] + list(rest), h, every=False): return
            history(r, [first], [5, 5], init='macro')
        return job
    jobs = [short(a) for a in alpha]
    # growth and shrinking: many keys, colliding in different ways, every policy
    def long(hf, hooks):
        def job(r):
            N = 16 if quick else 40
            hs = [hf(i) for i in range(N + 1)]
            ops = [(('add', 'set', 'append', 'insadd')[i % 4], i) for i in range(N)] + [('append', 3), ('set', 3), ('add', 5), ('update', 6), ('update', N)] + [('del', i * 7 % N) for i in range(N)] + [('del', 3), ('del', N)] + [('add', i) for i in range(N)]
            if not history(r, ops, hs, hooks): return
            if hooks == (None, None):
                for f in range(1, 8 if quick else 14):
                    history(r, ops, hs, hooks, failat={f})
                history(r, ops, hs, hooks, failat=True)
        return job
    for hf in (lambda i: 77, lambda i: i, lambda i: i % 3 << 40, lambda i: i * 0x9e3779b97f4a7c15 & (1 << 64) - 1):
        for hooks in ((None, None), (lambda n: n in (1, 2, 9, 10), None), (None, lambda n: True), (lambda n: False, lambda n: False), (lambda n: n == 3, lambda n: n % 3 == 0)): jobs.append(long(hf, hooks))
    par(res, jobs)
    res.need('histories', 200)
