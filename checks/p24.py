import itertools, random
from common import *
from sim import *
from par import par
RULE = 'after every history each node of the segment tree carries the greatest end of its subtree, and a query visits exactly the intervals that meet it, in the order of their starts'
EXPLANATION = 'Insertion, deletion, first and next of the segment tree (the library one and instantiations for a signed and a narrow type) are followed over the compiled IR for every short history over a small domain of intervals and for longer histories with the ends of the range; after each operation the tree is read back, and every query over the interesting points is enumerated through first and next and through the traversal macros.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/segtree.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
struct holder { long before; bfdev_segtree_node_t seg; };
O(rb, bfdev_segtree_node_t, node) O(start, bfdev_segtree_node_t, start) O(end, bfdev_segtree_node_t, end) O(subtree, bfdev_segtree_node_t, subtree)
O(left, bfdev_rb_node_t, left) O(right, bfdev_rb_node_t, right) O(parent, bfdev_rb_node_t, parent) O(color, bfdev_rb_node_t, color) O(root, bfdev_rb_root_cached_t, root.node) O(leftmost, bfdev_rb_root_cached_t, leftmost)
O(seg, struct holder, seg)
const unsigned long off_size = sizeof(bfdev_segtree_node_t), off_hsize = sizeof(struct holder), off_rsize = sizeof(bfdev_rb_root_cached_t);
struct sn { signed char lo, hi, most; bfdev_rb_node_t node; };
struct un { bfdev_rb_node_t node; unsigned short most; unsigned short lo, hi; };
#define LO(n) ((n)->lo)
#define HI(n) ((n)->hi)
O(sn_rb, struct sn, node) O(sn_start, struct sn, lo) O(sn_end, struct sn, hi) O(sn_subtree, struct sn, most)
O(un_rb, struct un, node) O(un_start, struct un, lo) O(un_end, struct un, hi) O(un_subtree, struct un, most)
const unsigned long off_sn_size = sizeof(struct sn), off_un_size = sizeof(struct un);
BFDEV_SEGTREE_DEFINE(extern, sn, struct sn, node, signed char, most, LO, HI);
BFDEV_SEGTREE_DEFINE(extern, un, struct un, node, unsigned short, most, LO, HI);
typedef bfdev_segtree_node_t N;
#define S unsigned long
'''
E = 'struct holder *h; '
BACK = 'out[n++] = &h->seg;'
LINES = [
    ('BFDEV_RB_CACHED_INIT', 'void w_init(bfdev_rb_root_cached_t *r) { *r = BFDEV_RB_CACHED_INIT(); }'),
    ('bfdev_segtree_insert', 'void w_insert(bfdev_rb_root_cached_t *r, N *n) { bfdev_segtree_insert(r, n); }'),
    ('bfdev_segtree_delete', 'void w_delete(bfdev_rb_root_cached_t *r, N *n) { bfdev_segtree_delete(r, n); }'),
    ('bfdev_segtree_first', 'unsigned w_first(bfdev_rb_root_cached_t *r, N **out, N *from, S s, S e) { unsigned n = 0; N *p = bfdev_segtree_first(r, s, e); while (p) { out[n++] = p; p = bfdev_segtree_next(p, s, e); } return n; }'),
    ('bfdev_segtree_for_each', 'unsigned w_each(bfdev_rb_root_cached_t *r, N **out, N *from, S s, S e) { unsigned n = 0; N *p; bfdev_segtree_for_each(p, s, e, r) out[n++] = p; return n; }'),
    ('bfdev_segtree_for_each_form', 'unsigned w_form(bfdev_rb_root_cached_t *r, N **out, N *from, S s, S e) { unsigned n = 0; N *p = from; bfdev_segtree_for_each_form(p, s, e) out[n++] = p; return n; }'),
    ('bfdev_segtree_for_each_continue', 'unsigned w_continue(bfdev_rb_root_cached_t *r, N **out, N *from, S s, S e) { unsigned n = 0; N *p = from; bfdev_segtree_for_each_continue(p, s, e) out[n++] = p; return n; }'),
    ('bfdev_segtree_for_each_entry', 'unsigned w_entry(bfdev_rb_root_cached_t *r, N **out, N *from, S s, S e) { unsigned n = 0; %s bfdev_segtree_for_each_entry(h, s, e, r, seg) %s return n; }' % (E, BACK)),
    ('bfdev_segtree_for_each_entry_from', 'unsigned w_entryfrom(bfdev_rb_root_cached_t *r, N **out, N *from, S s, S e) { unsigned n = 0; %s h = bfdev_segtree_entry_safe(from, struct holder, seg); bfdev_segtree_for_each_entry_from(h, s, e, seg) %s return n; }' % (E, BACK)),
    ('bfdev_segtree_for_each_entry_continue', 'unsigned w_entrycontinue(bfdev_rb_root_cached_t *r, N **out, N *from, S s, S e) { unsigned n = 0; %s h = bfdev_segtree_entry_safe(from, struct holder, seg); bfdev_segtree_for_each_entry_continue(h, s, e, seg) %s return n; }' % (E, BACK)),
    ('BFDEV_SEGTREE_DEFINE', 'void w_sn_insert(bfdev_rb_root_cached_t *r, struct sn *n) { sn_insert(r, n); }'),
    ('BFDEV_SEGTREE_DEFINE', 'void w_sn_delete(bfdev_rb_root_cached_t *r, struct sn *n) { sn_delete(r, n); }'),
    ('BFDEV_SEGTREE_DEFINE', 'unsigned w_sn_first(bfdev_rb_root_cached_t *r, void **out, void *from, signed char s, signed char e) { unsigned n = 0; struct sn *p = sn_first(r, s, e); while (p) { out[n++] = p; p = sn_next(p, s, e); } return n; }'),
    ('BFDEV_SEGTREE_DEFINE', 'void w_un_insert(bfdev_rb_root_cached_t *r, struct un *n) { un_insert(r, n); }'),
    ('BFDEV_SEGTREE_DEFINE', 'void w_un_delete(bfdev_rb_root_cached_t *r, struct un *n) { un_delete(r, n); }'),
    ('BFDEV_SEGTREE_DEFINE', 'unsigned w_un_first(bfdev_rb_root_cached_t *r, void **out, void *from, unsigned short s, unsigned short e) { unsigned n = 0; struct un *p = un_first(r, s, e); while (p) { out[n++] = p; p = un_next(p, s, e); } return n; }'),
]
MACROS = ('each', 'form', 'continue', 'entry', 'entryfrom', 'entrycontinue')


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class Seg(Sim):
    def setup(s, K, kind):
        s.kind = kind; s.pre = {'': 'w_', 'sn': 'w_sn_', 'un': 'w_un_'}[kind]; k = kind and kind + '_'
        s.o = {f: K[k + f] for f in ('rb', 'start', 'end', 'subtree')}; s.K = K; s.w = {'': 8, 'sn': 1, 'un': 2}[kind]; s.sg = kind == 'sn'
        s.base = 0 if kind else K['seg']; s.size1 = K[k + 'size'] if kind else K['hsize']
        s.iv = {}; s.order = []; s.serial = 0; s.color = None
        s.new('root', K['rsize'], False); s.do('w_init', P('root'))

    def low(s): return -128 if s.sg else 0
    def high(s): return 127 if s.sg else (1 << 8 * s.w) - 1

    def ptr(s, i): return P('node %d' % i, s.base)
    def val_of(s, n, f): v = s.cell(n, s.base + s.o[f], s.w); return signed(v, 8 * s.w) if s.sg else v

    def add(s, i, a, b):
        n = 'node %d' % i; s.dead.discard(n); s.new(n, s.size1, False)
        for f, v in (('start', a), ('end', b)): s.put(n, s.base + s.o[f], v & (1 << 8 * s.w) - 1, s.w)
        s.do(s.pre + 'insert', P('root'), s.ptr(i))
        s.iv[i] = (a, b); s.serial += 1
        s.order.insert(sum(s.iv[j][0] <= a for j in s.order), i)

    def delete(s, i):
        s.do(s.pre + 'delete', P('root'), s.ptr(i))
        s.order.remove(i); s.dead.add('node %d' % i); del s.iv[i]

    def verify(s, api):
        K = s.K; rb = s.base + s.o['rb']; seen = []
        def walk(p, parent):
            if p == 0: return None
            if not isp(p) or not str(p[1]).startswith('node ') or p[2] != rb or p[1] in s.dead: raise Wrong(api, 'a link leads to what is no node')
            n = p[1]
            if len(seen) > len(s.order): raise Wrong(api, 'the tree holds a cycle')
            if s.cell(n, rb + K['parent']) != parent: raise Wrong(api, 'a node has the wrong parent')
            m = walk(s.cell(n, rb + K['left']), p)
            i = int(n[5:]); seen.append(i); e = s.val_of(n, 'end')
            if i not in s.iv: raise Wrong(api, 'a removed node is still in the tree')
            r = walk(s.cell(n, rb + K['right']), p)
            want = max(x for x in (m, e, r) if x is not None)
            if s.val_of(n, 'subtree') != want: raise Wrong(api, 'a node above ends up to %d carries %d' % (want, s.val_of(n, 'subtree')))
            if (s.val_of(n, 'start'), e) != s.iv[i]: raise Wrong(api, 'an interval was changed')
            return want
        walk(s.cell('root', K['root']), 0)
        if seen != s.order: raise Wrong(api, 'the tree holds %s instead of %s' % ([s.iv[i] for i in seen], [s.iv[i] for i in s.order]))
        if s.cell('root', K['leftmost']) != (P('node %d' % seen[0], rb) if seen else 0): raise Wrong(api, 'the leftmost node is wrong')

    def ask(s, fn, a, b, frm=None):
        s.new('out', 8 * (len(s.order) + 1), False)
        m = (1 << 8 * s.w) - 1
        n = s.do(s.pre + fn, P('root'), P('out'), 0 if frm is None else s.ptr(frm), a & m, b & m)
        if any(w and o != 'out' and not isinstance(o, tuple) for w, o, *_ in s.log): raise Wrong(fn, 'a query changes the tree')
        got = [s.cell('out', 8 * i) for i in range(n)]
        hits = [i for i in s.order if s.iv[i][0] <= b and a <= s.iv[i][1]]
        if fn in ('form', 'entryfrom'): hits = hits[hits.index(frm):] if frm is not None else []
        if fn in ('continue', 'entrycontinue'): hits = hits[hits.index(frm) + 1:] if frm is not None else []
        if got != [s.ptr(i) for i in hits]: raise Wrong(fn, 'the query [%d, %d]%s visits %s instead of %s of %s' % (a, b, '' if frm is None else ' from %s' % (s.iv[frm],), [s.iv.get(int(p[1][5:]), '?') if isp(p) and str(p[1]).startswith('node ') else p for p in got], [s.iv[i] for i in hits], [s.iv[i] for i in s.order]))
        return hits

    def queries(s, deep):
        pts = sorted({s.low(), s.high()} | {p for a, b in s.iv.values() for x in (a, b) for p in ((x - 1, x, x + 1) if deep > 1 else (x,)) if s.low() <= p <= s.high()})
        for a in pts:
            for b in pts:
                if a <= b: s.ask('first', a, b)
        if not s.kind and deep:
            for a, b in ((s.low(), s.high()), (pts[len(pts) // 2], s.high()), (s.low(), pts[len(pts) // 2])):
                hits = s.ask('each', a, b); s.ask('entry', a, b)
                for m in MACROS:
                    if m in ('each', 'entry'): continue
                    s.ask(m, a, b, None)
                    for i in hits: s.ask(m, a, b, i)


def run(ctx, res):
    mod = ctx.instantiate('w_p24', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]; K = offsets(mod)
    quick = ctx.tier == 'quick'
    names = {'first': 'first/next', 'each': 'for_each', 'form': 'for_each_form', 'continue': 'for_each_continue', 'entry': 'for_each_entry', 'entryfrom': 'for_each_entry_from', 'entrycontinue': 'for_each_entry_continue'}

    def say(r, api, kind, ops, t):
        api = names.get(api, api)
        r.bad('segtree:%s' % api, 'include/bfdev/segtree.h (bfdev_segtree_%s)' % api, RULE, 'segment tree %s%s: after %s: %s' % (api, ' (%s)' % {'sn': 'signed char', 'un': 'unsigned short'}[kind] if kind else '', ' '.join(('+[%s,%s]' % o[2:]) if o[0] == 'add' else '-%s' % o[1] for o in ops[-12:]), t))

    def history(r, kind, ops, deep=0, last=False):
        api = 'insert'; i = 0
        try:
            a = Seg(mods); a.setup(K, kind); a.verify('init')
            if deep: a.queries(deep)
            for i, o in enumerate(ops):
                api = {'add': 'insert', 'del': 'delete'}[o[0]]
                (a.add if o[0] == 'add' else a.delete)(*o[1:])
                a.verify(api)
                if not last or i == len(ops) - 1: api = 'first'; a.queries(deep)
        except Wrong as e: say(r, e.api, kind, ops[:i + 1], str(e)); return False
        except Bad as e: say(r, api, kind, ops[:i + 1], e.text + (' at %s' % relf(e.ins.where) if e.ins else '')); return False
        except Bound: say(r, api, kind, ops[:i + 1], 'does not end'); return False
        except Stuck as e: r.undecided('segment tree', str(e)); return False
        r.count('histories'); r.count('operations', len(ops)); return True

    jobs = []
    dom = [(a, b) for a in range(3) for b in range(a, 3)]
    def short(first):
        def job(r):
            for rest in itertools.product(dom, repeat=2):
                t = (first,) + rest
                add = [('add', i, *x) for i, x in enumerate(t)]
                if not history(r, '', add, last=True): return
                for d in range(3): history(r, '', add + [('del', d)], last=True)
        return job
    jobs += [short(x) for x in dom]
    def orders(kind, n, k):
        """every order of n starts with k arrangements of the ends, emptied in every rotation"""
        def job(r):
            rnd = random.Random(n * 31 + k)
            for p in itertools.permutations(range(n)):
                ends = [x + rnd.choice((0, 0, 1, 2, n, 2 * n)) for x in p]
                add = [('add', i, x, e) for i, (x, e) in enumerate(zip(p, ends))]
                d = list(range(n)); rnd.shuffle(d)
                if not history(r, kind, add + [('del', i) for i in d], last=True): return
        return job
    jobs += [orders(kind, n, k) for kind in ('', 'sn', 'un') for n in (4, 5) + (() if quick else (6,)) for k in range(2 if quick else 8)]
    def long(kind, seed, n, length):
        def job(r):
            rnd = random.Random(seed * 7919 + len(kind)); ops = []; live = []
            lo, hi = {'': (0, (1 << 64) - 1), 'sn': (-128, 127), 'un': (0, 65535)}[kind]
            for i in range(length):
                if live and (len(live) >= n or rnd.random() < .35): j = rnd.choice(live); live.remove(j); ops.append(('del', j)); continue
                m = rnd.randrange(6)
                if m == 0: a, b = lo, rnd.choice((lo, lo + 5, hi))
                elif m == 1: a, b = rnd.choice((hi, hi - 3)), hi
                elif m == 2: a, b = -3, 3
                else: a = rnd.randrange(40); b = a + rnd.choice((0, 1, 3, 10, 30))
                a = max(a, lo); b = min(max(b, a), hi)
                ops.append(('add', i, a, b)); live.append(i)
            if not history(r, kind, ops[:8], 2): return
            history(r, kind, ops, 0)
            history(r, kind, ops, 1, last=True)
        return job
    jobs += [long(kind, s, *nl) for kind in ('', 'sn', 'un') for s, nl in enumerate(((7, 30), (12, 40), (20, 60)) if quick else ((7, 60), (12, 80), (20, 100), (40, 160), (9, 100), (15, 100)))]
    par(res, jobs)
    res.need('histories', 500)
