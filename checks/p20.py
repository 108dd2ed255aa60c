import itertools
from common import *
from sim import *
from par import par
RULE = 'after every history the index list holds its nodes in order, equal ones in order of insertion, and its index exactly the first node of every group of equals'
EXPLANATION = 'bfdev_ilist_add and bfdev_ilist_del are followed over the compiled IR for every order of the keys (all weak orders, equal keys included) in every insertion order, every deletion order and every repeated insertion; after each operation both lists are read back.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/ilist.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(node, bfdev_ilist_node_t, node_list) O(index, bfdev_ilist_node_t, index_list) O(head, bfdev_ilist_head_t, node_list) O(next, bfdev_list_head_t, next) O(prev, bfdev_list_head_t, prev)
const unsigned long off_hsize = sizeof(bfdev_ilist_head_t), off_nsize = sizeof(bfdev_ilist_node_t);
'''
LINES = [
    ('bfdev_ilist_head_init', 'void w_head(bfdev_ilist_head_t *h) { bfdev_ilist_head_init(h); }'),
    ('BFDEV_ILIST_HEAD_INIT', 'void w_head2(bfdev_ilist_head_t *h) { *h = BFDEV_ILIST_HEAD_INIT(h); }'),
    ('bfdev_ilist_node_init', 'void w_node(bfdev_ilist_node_t *n) { bfdev_ilist_node_init(n); }'),
    ('bfdev_ilist_add', 'void w_add(bfdev_ilist_head_t *h, bfdev_ilist_node_t *n, bfdev_ilist_cmp_t c, void *p) { bfdev_ilist_add(h, n, c, p); }'),
    ('bfdev_ilist_del', 'void w_del(bfdev_ilist_head_t *h, bfdev_ilist_node_t *n) { bfdev_ilist_del(h, n); }'),
    ('bfdev_ilist_head_empty', 'int w_empty(bfdev_ilist_head_t *h) { return !!bfdev_ilist_head_empty(h); }'),
    ('bfdev_ilist_first', 'void *w_first(bfdev_ilist_head_t *h) { return bfdev_ilist_first(h); }'),
    ('bfdev_ilist_last', 'void *w_last(bfdev_ilist_head_t *h) { return bfdev_ilist_last(h); }'),
]


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class IL(Sim):
    def setup(s, K, ranks, head):
        s.K = K; s.rank = ranks; s.order = []
        s.new('head', K['hsize'], False); s.do('w_' + head, P('head'))
        for i in range(len(ranks)): s.new('node %d' % i, K['nsize'], False); s.do('w_node', P('node %d' % i))
        def num(p, ins):
            if not isp(p) or not isinstance(p[1], str) or p[1][:5] != 'node ' or p[2] != 0: raise Bad('the comparison is given what is no node', ins)
            return int(p[1][5:])
        def cmp(a, ins):
            if a[2] != ('o', 'pdata'): raise Bad('the comparison is not given the private data', ins)
            d = s.rank[num(a[0], ins)] - s.rank[num(a[1], ins)]
            return 0 if d == 0 else 1 << 40 if d > 0 else (1 << 64) - (1 << 40)
        s.handlers['cb_cmp'] = cmp

    def add(s, i):
        s.do('w_add', P('head'), P('node %d' % i), P(('f', 'cb_cmp')), ('o', 'pdata'))
        if i not in s.order:
            k = sum(s.rank[j] <= s.rank[i] for j in s.order)
            s.order.insert(k, i)
        s.verify('add')

    def delete(s, i):
        s.do('w_del', P('head'), P('node %d' % i))
        if i in s.order: s.order.remove(i)
        s.verify('del')
        for f in ('node', 'index'):
            for l in ('next', 'prev'):
                if s.cell('node %d' % i, s.K[f] + s.K[l]) != P('node %d' % i, s.K[f]): raise Wrong('del', 'the removed node is not left empty')

    def ring(s, api, start, off, end=None):
        """the nodes from a link on, by their link at off"""
        at = start; out = []
        for _ in range(len(s.rank) + 2):
            p = s.cell(at[0], at[1] + s.K['next'])
            if not isp(p): raise Wrong(api, 'a link leads nowhere')
            if s.cell(p[1], p[2] + s.K['prev']) != P(*at): raise Wrong(api, 'a back reference is wrong')
            if (p[1], p[2]) == start: return out
            if p[1][:5] != 'node ' or p[2] != off: raise Wrong(api, 'a link leads to what is no node')
            out.append(int(p[1][5:])); at = (p[1], p[2])
        raise Wrong(api, 'a list does not end')

    def verify(s, api):
        K = s.K
        got = s.ring(api, ('head', K['head']), K['node'])
        if got != s.order: raise Wrong(api, 'the list holds %s instead of %s' % ([s.name(i) for i in got], [s.name(i) for i in s.order]))
        if s.do('w_empty', P('head')) != int(not got): raise Wrong('head_empty', 'is wrong with %d nodes' % len(got))
        if not got: return
        if s.do('w_first', P('head')) != P('node %d' % got[0]) or s.do('w_last', P('head')) != P('node %d' % got[-1]): raise Wrong('first', 'first or last is wrong')
        first = 'node %d' % got[0]
        ix = [got[0]] + s.ring(api, (first, K['index']), K['index'])
        want = [j for k, j in enumerate(got) if k == 0 or s.rank[got[k - 1]] != s.rank[j]]
        if ix != want: raise Wrong(api, 'the index holds %s instead of %s of %s' % ([s.name(i) for i in ix], [s.name(i) for i in want], [s.name(i) for i in got]))

    def name(s, i): return '%d%s' % (s.rank[i], 'abcdefgh'[sum(s.rank[j] == s.rank[i] for j in range(i))])


def run(ctx, res):
    mod = ctx.instantiate('w_p20', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]; K = offsets(mod)
    quick = ctx.tier == 'quick'

    def history(r, ranks, ops, head='head'):
        api = 'add'; i = 0
        try:
            a = IL(mods); a.setup(K, ranks, head); a.verify('head_init')
            for i, (op, k) in enumerate(ops):
                api = op
                if op == 'add': a.add(k)
                else: a.delete(k)
        except Wrong as e: say(r, e.api, ranks, ops[:i + 1], str(e)); return True
        except Bad as e: say(r, api, ranks, ops[:i + 1], e.text + (' at %s' % relf(e.ins.where) if e.ins else '')); return True
        except Bound: say(r, api, ranks, ops[:i + 1], 'does not end'); return True
        except Stuck as e: r.undecided('index list', str(e)); return False
        r.count('histories'); r.count('operations', len(ops)); return True

    def say(r, api, ranks, ops, t): r.bad('ilist:%s' % api, 'src/ilist.c (bfdev_ilist_%s)' % api, RULE, 'bfdev_ilist_%s: keys %s, after %s: %s' % (api, list(ranks), ' '.join('%s(%d)' % (o, ranks[k]) for o, k in ops), t))

    def case(ranks):
        def job(r):
            n = len(ranks); add = [('add', i) for i in range(n)]
            for p in itertools.permutations(range(n)):
                if not history(r, ranks, add + [('del', i) for i in p]): return
            for i in range(n):
                history(r, ranks, add + [('add', i), ('del', i), ('add', i)] + [('del', j) for j in range(n)], 'head2')
                for j in range(n):
                    history(r, ranks, add + [('del', i), ('del', j), ('add', i), ('add', j)] + [('del', k) for k in reversed(range(n))])
        return job
    jobs = []
    for n in range(1, 5 if quick else 6):
        for t in itertools.product(range(n), repeat=n):
            if set(t) == set(range(len(set(t)))): jobs.append(case(t))
    par(res, jobs)
    res.need('histories', 300)
