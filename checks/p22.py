import itertools
from common import *
from sim import *
from par import par
RULE = 'after every history every level of the skip list is a sorted subsequence of the one below, the lowest holds every element inserted and not deleted, and searches find exactly those'
EXPLANATION = 'Insertion, search, deletion, reset and destruction are followed over the compiled IR for every order of the keys (all weak orders, equal keys included), every height the random numbers can give, every insertion order and every deletion, with allocations succeeding and failing; after each operation every level is read back and every key is searched.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/skiplist.h>
#include <stdlib.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(key, bfdev_skip_node_t, key) O(list, bfdev_skip_node_t, list) O(curr, bfdev_skip_head_t, curr) O(levels, bfdev_skip_head_t, levels) O(nodes, bfdev_skip_head_t, nodes)
O(next, bfdev_list_head_t, next) O(prev, bfdev_list_head_t, prev)
const unsigned long off_lsize = sizeof(bfdev_list_head_t), off_ENOMEM = BFDEV_ENOMEM, off_RAND = RAND_MAX;
'''
LINES = [
    ('bfdev_skiplist_create', 'void *w_create(unsigned int n) { return bfdev_skiplist_create(0, n); }'),
    ('bfdev_skiplist_insert', 'int w_insert(bfdev_skip_head_t *h, void *k, bfdev_cmp_t c, void *p) { return bfdev_skiplist_insert(h, k, c, p); }'),
    ('bfdev_skiplist_delete', 'void w_delete(bfdev_skip_head_t *h, bfdev_find_t f, void *p) { bfdev_skiplist_delete(h, f, p); }'),
    ('bfdev_skiplist_find', 'void *w_find(bfdev_skip_head_t *h, bfdev_find_t f, void *p) { return bfdev_skiplist_find(h, f, p); }'),
    ('bfdev_skiplist_reset', 'void w_reset(bfdev_skip_head_t *h, bfdev_release_t r, void *p) { bfdev_skiplist_reset(h, r, p); }'),
    ('bfdev_skiplist_destroy', 'void w_destroy(bfdev_skip_head_t *h, bfdev_release_t r, void *p) { bfdev_skiplist_destroy(h, r, p); }'),
]


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class Skip(Sim):
    def setup(s, K, levels):
        s.K = K; s.levels = levels; s.rank = {}; s.have = []; s.nk = 0; s.rands = []; s.released = []
        def key(p, ins):
            if not isp(p) or p[1] not in s.rank or p[2] != 0: raise Bad('the comparison is given what is no key', ins)
            return s.rank[p[1]]
        sg = lambda d: 0 if d == 0 else 1 << 40 if d > 0 else (1 << 64) - (1 << 40)
        def cmp(a, ins):
            if a[2] != ('o', 'pdata'): raise Bad('the comparison is not given the private data', ins)
            return sg(key(a[0], ins) - key(a[1], ins))
        def find(a, ins):
            if not isp(a[1]) or a[1][1] != 'target': raise Bad('the search is not given the private data', ins)
            return sg(key(a[0], ins) - s.target)
        def release(a, ins):
            key(a[0], ins)
            if a[1] != ('o', 'pdata'): raise Bad('the release is not given the private data', ins)
            s.released.append(a[0][1])
        s.handlers.update(cb_cmp=cmp, cb_find=find, cb_release=release, rand=lambda a, ins: s.rands.pop(0) if s.rands else s.K['RAND'])
        s.h = s.do('w_create', levels)
        if not isp(s.h) or s.h[1] not in s.heap: raise Wrong('create', 'does not give a list')
        s.verify('create', False)

    def insert(s, rank, height):
        s.nk += 1; k = 'key %d' % s.nk; s.rank[k] = rank; s.new(k, 8)
        s.rands = [0] * (height - 1); nf = s.nfail
        r = signed(s.do('w_insert', s.h, P(k), P(('f', 'cb_cmp')), ('o', 'pdata')), 32)
        want = -s.K['ENOMEM'] if s.nfail > nf else 0
        if r != want: raise Wrong('insert', 'returns %s instead of %s' % (r, want))
        if r == 0: s.have.append(k)

    def op_find(s, rank):
        s.target = rank; s.new('target', 8); before = len(s.have)
        r = s.do('w_find', s.h, P(('f', 'cb_find')), P('target'))
        if any(w and o in s.heap for w, o, *_ in s.log): raise Wrong('find', 'changes the list')
        ks = [k for k in s.have if s.rank[k] == rank]
        if not ks:
            if r != 0: raise Wrong('find', 'finds a key that is not in the list')
        elif not isp(r) or r[1] not in s.heap or s.cell(r[1], r[2] + s.K['key'])[1] not in ks: raise Wrong('find', 'does not find a key in the list')

    def delete(s, rank):
        s.target = rank; s.new('target', 8); ks = [k for k in s.have if s.rank[k] == rank]
        n = len(s.heap)
        s.do('w_delete', s.h, P(('f', 'cb_find')), P('target'))
        now = [k for _, k in s.level(0, 'delete')]
        gone = [k for k in s.have if k not in now]
        if len(gone) != (1 if ks else 0) or gone and gone[0] not in ks: raise Wrong('delete', 'removes %d elements instead of one with the key' % len(gone) if ks else 'removes an element although the key is absent')
        if n - len(s.heap) != len(gone): raise Wrong('delete', 'releases %d elements' % (n - len(s.heap)))
        for k in gone: s.have.remove(k)

    def level(s, l, api):
        K = s.K; o = s.h[1]; head = (o, s.h[2] + K['nodes'] + l * K['lsize']); at = head; out = []
        for _ in range(len(s.rank) + 2):
            p = s.cell(at[0], at[1] + K['next'])
            if not isp(p) or p[1] not in s.heap: raise Wrong(api, 'level %d leads to what is no element' % l)
            if s.cell(p[1], p[2] + K['prev']) != P(*at): raise Wrong(api, 'a back reference on level %d is wrong' % l)
            if (p[1], p[2]) == head: return out
            if p[1] == o or p[2] != K['list'] + l * K['lsize']: raise Wrong(api, 'level %d leads to another level' % l)
            k = s.cell(p[1], K['key'])
            if not isp(k) or k[1] not in s.rank: raise Wrong(api, 'an element has no key')
            out.append((p[1], k[1])); at = (p[1], p[2])
        raise Wrong(api, 'level %d does not end' % l)

    def verify(s, api, search=True):
        ls = [s.level(l, api) for l in range(s.levels)]
        ks = [k for _, k in ls[0]]
        if sorted(ks) != sorted(s.have): raise Wrong(api, 'the list holds %s instead of %s' % (sorted(ks), sorted(s.have)))
        if any(s.rank[a] > s.rank[b] for a, b in zip(ks, ks[1:])): raise Wrong(api, 'the lowest level is not sorted')
        for l in range(1, s.levels):
            it = iter(ls[l - 1])
            if not all(x in it for x in ls[l]): raise Wrong(api, 'level %d is no subsequence of the one below' % l)
        cur = s.cell(s.h[1], s.h[2] + s.K['curr'], 4)
        if not isinstance(cur, int) or cur > s.levels or any(ls[cur:]): raise Wrong(api, 'the number of levels in use is wrong')
        if s.heap - {s.h[1]} != {n for n, _ in ls[0]}: raise Wrong(api, 'leaks an element')
        if search:
            for r in range(-1, 2 * max([0] + list(s.rank.values())) + 3): s.op_find(r)

    def clear_all(s, w):
        s.released = []; had = list(s.have)
        s.do('w_' + w, s.h, P(('f', 'cb_release')), ('o', 'pdata'))
        if sorted(s.released) != sorted(had): raise Wrong(w, 'releases the keys %s instead of %s' % (s.released, had))
        s.have = []
        if w == 'destroy':
            if s.heap: raise Wrong(w, 'leaks a block')
        else: s.verify(w)


def orders(n):
    """weak orders of n keys as rank tuples"""
    return [t for t in itertools.product(range(0, 2 * n, 2), repeat=n) if set(t) == {2 * i for i in range(len(set(t)))}]


def run(ctx, res):
    mod = ctx.instantiate('w_p22', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]; K = offsets(mod)
    quick = ctx.tier == 'quick'

    def text(o, hs): return 'keys %s with heights %s' % (list(o), list(hs))

    def history(r, levels, o, hs, dels, failat=None, tail='destroy', why=''):
        api = 'create'
        try:
            a = Skip(mods); a.setup(K, levels)
            for i, (x, h) in enumerate(zip(o, hs)):
                api = 'insert'
                if failat == i: a.failat = True
                a.insert(x, h); a.failat = None
                a.verify('insert', failat is not None or i == len(o) - 1)
            for d in dels:
                api = 'delete'; a.delete(d); a.verify('delete')
            api = tail
            if tail == 'reset':
                a.clear_all('reset'); api = 'insert'; a.insert(4, levels); a.insert(2, 1); a.verify('insert'); api = 'destroy'; a.clear_all('destroy')
            else: a.clear_all('destroy')
        except Wrong as e: say(r, e.api, '%s%s: %s' % (text(o, hs), ', deleting %s' % (list(dels),) if dels else '', e)); return True
        except Bad as e: say(r, api, '%s%s: %s%s' % (text(o, hs), ', deleting %s' % (list(dels),) if dels else '', e.text, ' at %s' % relf(e.ins.where) if e.ins else '')); return True
        except Bound: say(r, api, '%s: does not end' % text(o, hs)); return True
        except Stuck as e: r.undecided('skip list', str(e)); return False
        r.count('histories'); return True

    def say(r, api, t): r.bad('skiplist:%s' % api, 'src/skiplist.c (bfdev_skiplist_%s)' % api, RULE, 'bfdev_skiplist_%s: %s' % (api, t))

    def case(o, L):
        def job(r):
            n = len(o)
            for hs in itertools.product(range(1, L + 1), repeat=n):
                if not history(r, L, o, hs, ()): return
                for d in sorted(set(o)) + [1]: history(r, L, o, hs, (d,))
                history(r, L, o, hs, o, tail='reset'); history(r, L, o, hs, (), tail='reset'); history(r, L, o, hs, o[:1], tail='reset'); history(r, L, o, hs, o[::-1])
                if n < 4:
                    for f in range(n): history(r, L, o, hs, o[:1], failat=f)
        return job
    jobs = [case(o, L) for n, L in (((1, 4), (2, 3), (3, 3)) if quick else ((1, 5), (2, 4), (3, 4), (4, 3))) for o in orders(n)]
    def empty(r):
        for L in (1, 2, 8):
            history(r, L, (), (), (3,)); history(r, L, (), (), (), tail='reset')
            history(r, L, (4, 2), (9, 9), (4, 2)); history(r, L, (4, 2, 4), (1, L, L), (4, 4, 2, 2))
        try:
            a = Skip(mods); a.failat = True
            if a.do('w_create', 3) != 0: say(r, 'create', 'succeeds without memory')
            a = Skip(mods)
            if a.do('w_create', 0) != 0: say(r, 'create', 'accepts no levels')
        except Bad as e: say(r, 'create', e.text)
        except (Stuck, Bound) as e: r.undecided('create', str(e))
    jobs.append(empty)
    par(res, jobs)
    res.need('histories', 300)
