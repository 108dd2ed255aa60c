import itertools, random
from common import *
from sim import *
from par import par
RULE = 'after every history the B-tree gives for every key the value of its history, in order, with all leaves at one depth and keys that lead to them'
EXPLANATION = 'Insertion, update, lookup, removal, the four steps and release of the B-tree are followed over the compiled IR for nodes of four to six entries and keys of one to three words (and the layouts of the library) for every order of insertion and removal of a few keys and for long histories that split and merge on several levels, with allocations succeeding and failing; after each operation the whole tree is read back and every key is looked up, and the traversal macros are followed.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/btree.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(keylen, bfdev_btree_layout_t, keylen) O(keynum, bfdev_btree_layout_t, keynum) O(ptrindex, bfdev_btree_layout_t, ptrindex) O(nodesize, bfdev_btree_layout_t, nodesize)
O(node, bfdev_btree_root_t, node) O(height, bfdev_btree_root_t, height) O(block, bfdev_btree_node_t, block)
O(o_alloc, bfdev_btree_ops_t, alloc) O(o_free, bfdev_btree_ops_t, free) O(o_find, bfdev_btree_ops_t, find) O(o_clash, bfdev_btree_ops_t, clash) O(o_remove, bfdev_btree_ops_t, remove)
const unsigned long off_size = sizeof(bfdev_btree_root_t), off_lsize = sizeof(bfdev_btree_layout_t), off_osize = sizeof(bfdev_btree_ops_t), off_ENOMEM = BFDEV_ENOMEM, off_ENOENT = BFDEV_ENOENT, off_EALREADY = BFDEV_EALREADY, off_EINVAL = BFDEV_EINVAL;
typedef bfdev_btree_root_t R;
typedef uintptr_t U;
void *w_layout32(void) { return &bfdev_btree_layout32; }
void *w_layout64(void) { return &bfdev_btree_layout64; }
void *w_layoutptr(void) { return &bfdev_btree_layoutptr; }
'''
STEP = 'for (i = 0; i < kl; ++i) keys[n * kl + i] = k[i]; vals[n++] = v;'
LINES = [
    ('bfdev_btree_init', 'void w_init(R *r, bfdev_btree_layout_t *l, bfdev_btree_ops_t *o, void *p) { bfdev_btree_init(r, l, o, p); }'),
    ('BFDEV_BTREE_INIT', 'void w_macro(R *r, bfdev_btree_layout_t *l, bfdev_btree_ops_t *o, void *p) { *r = BFDEV_BTREE_INIT(l, o, p); }'),
    ('bfdev_btree_insert', 'int w_insert(R *r, U *k, void *v) { return bfdev_btree_insert(r, k, v); }'),
    ('bfdev_btree_update', 'int w_update(R *r, U *k, void *v) { return bfdev_btree_update(r, k, v); }'),
    ('bfdev_btree_lookup', 'void *w_lookup(R *r, U *k) { return bfdev_btree_lookup(r, k); }'),
    ('bfdev_btree_remove', 'void *w_remove(R *r, U *k) { return bfdev_btree_remove(r, k); }'),
    ('bfdev_btree_first', 'void *w_first(R *r, U *k) { return bfdev_btree_first(r, k); }'),
    ('bfdev_btree_last', 'void *w_last(R *r, U *k) { return bfdev_btree_last(r, k); }'),
    ('bfdev_btree_next', 'void *w_next(R *r, U *k) { return bfdev_btree_next(r, k); }'),
    ('bfdev_btree_prev', 'void *w_prev(R *r, U *k) { return bfdev_btree_prev(r, k); }'),
    ('bfdev_btree_release', 'void w_release(R *r, bfdev_release_t f, void *p) { bfdev_btree_release(r, f, p); }'),
]
FORMS = []
for rev in ('', '_reverse'):
    for kind in ('', '_from', '_continue'):
        for safe in ('', '_safe'):
            m = 'bfdev_btree_for_each%s%s%s' % (rev, kind, safe); w = 'w_m%s%s%s' % (rev, kind, safe)
            FORMS.append((m, w, rev, kind, safe))
            LINES.append((m, 'unsigned %s(R *r, U *k, U *t, void *v, U *keys, void **vals, unsigned kl, int del) { unsigned n = 0, i; void *tv; (void)tv; %s(r, k, v%s) { %s%s } return n; }' % (w, m, ', t, tv' if safe else '', STEP, ' if (del) bfdev_btree_remove(r, k);' if safe else '')))


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class BT(Sim):
    MAXSTEP = 3000000
    def setup(s, K, layout, init='init', clash=False, remove=False):
        s.K = K; s.tree = {}; s.vn = 0; s.have_clash = clash; s.clashes = []
        if isinstance(layout, str): s.lay = s.do('w_' + layout)
        else:
            kl, kn = layout; s.new('layout', K['lsize'], True); s.lay = P('layout'); s.ro.add('layout')
            for f, v, w in (('keylen', kl, 4), ('keynum', kn, 4), ('ptrindex', kl * kn, 4), ('nodesize', (kl + 1) * kn * 8, 8)): s.put('layout', K[f], v, w)
        g = lambda f, w: s.cell(s.lay[1], s.lay[2] + K[f], w)
        s.kl, s.kn, s.pi, s.ns = g('keylen', 4), g('keynum', 4), g('ptrindex', 4), g('nodesize', 8)
        s.new('ops', K['osize'], True); s.ro.add('ops')
        for f, n in (('o_alloc', 'bfdev_btree_alloc'), ('o_free', 'bfdev_btree_free'), ('o_find', 'bfdev_btree_key_find')): s.put('ops', K[f], P(('f', n)), 8)
        if clash: s.put('ops', K['o_clash'], P(('f', 'cb_clash')), 8)
        if remove: s.put('ops', K['o_remove'], P(('f', 'cb_remove')), 8)
        s.veto = set(); s.removed = []
        def cb_clash(a, ins):
            if a[0] != P('root'): raise Bad('the clash callback is not given the tree', ins)
            s.clashes.append((a[1], a[2])); return (1 << 32) - 77
        def cb_remove(a, ins):
            if a[0] != P('root'): raise Bad('the remove callback is not given the tree', ins)
            s.removed.append(a[1]); return P('veto') if a[1] in s.veto else 0
        s.handlers.update(cb_clash=cb_clash, cb_remove=cb_remove)
        s.new('root', K['size'], False); s.do('w_' + init, P('root'), s.lay, P('ops'), ('o', 'pdata'))
        for n in ('key', 'tkey'): s.new(n, 8 * s.kl, False)

    def words(s, k):
        """keys that differ in the last or in the first word"""
        return (k,) if s.kl == 1 else (k // 4 + 1,) + (0,) * (s.kl - 2) + (k % 4,)
    def setkey(s, k, o='key'):
        for i, w in enumerate(s.words(k)): s.put(o, 8 * i, w, 8)
    def getkey(s, o='key', off=0): return tuple(s.cell(o, off + 8 * i) for i in range(s.kl))

    def insert(s, k):
        s.vn += 1; v = P('value %d' % s.vn, 8); s.setkey(k); nf = s.nfail; s.clashes = []
        r = signed(s.do('w_insert', P('root'), P('key'), v), 32)
        want = (-77 if s.have_clash else -s.K['EALREADY']) if k in s.tree else -s.K['ENOMEM'] if s.nfail > nf else 0
        # a tree without room may report the failed allocation first
        if r != want: raise Wrong('insert', 'returns %d instead of %d' % (r, want))
        if k in s.tree and s.have_clash and s.clashes != [(s.tree[k], v)]: raise Wrong('insert', 'the clash callback is not given the two values')
        if r == 0: s.tree[k] = v

    def remove(s, k):
        s.setkey(k); s.removed = []
        r = s.do('w_remove', P('root'), P('key'))
        v = s.tree.get(k, 0)
        if v in s.veto:
            if r != P('veto'): raise Wrong('remove', 'does not pass on the refusal')
            return
        if r != v: raise Wrong('remove', 'gives %s instead of %s' % (s.nm(r), s.nm(v)))
        s.tree.pop(k, None)

    def update(s, k):
        s.vn += 1; v = P('value %d' % s.vn, 8); s.setkey(k)
        r = signed(s.do('w_update', P('root'), P('key'), v), 32)
        if r != (0 if k in s.tree else -s.K['ENOENT']): raise Wrong('update', 'returns %d' % r)
        if k in s.tree: s.tree[k] = v

    def nm(s, v): return 'null' if v == 0 else s.show(v[1]) if isp(v) else str(v)

    def verify(s, api):
        K = s.K; h = s.cell('root', K['height'], 4); top = s.cell('root', K['node']); nodes = set(); found = []
        if not isinstance(h, int) or h > 40: raise Wrong(api, 'the height is %s' % (h,))
        if h == 0:
            if top != 0 and s.heap: raise Wrong(api, 'a tree without height keeps a node')
        def walk(p, lv, below):
            """entries of the subtree; all keys above `below` must not be there"""
            if not isp(p) or p[1] not in s.heap or p[2] != 0 or p[1] in nodes: raise Wrong(api, 'an entry on level %d leads to what is no node of its own' % lv)
            nodes.add(p[1]); out = []
            vals = [s.cell(p[1], 8 * (s.pi + i)) for i in range(s.kn)]
            fill = next((i for i, v in enumerate(vals) if v == 0), s.kn)
            if any(v != 0 for v in vals[fill:]): raise Wrong(api, 'a node has a gap')
            if fill == 0 and (lv != h or h > 1): raise Wrong(api, 'a node below the root is empty')
            last = None
            for i in range(s.kn):
                k = s.getkey(p[1], 8 * s.kl * i)
                if i >= fill:
                    if any(k): raise Wrong(api, 'a key is left in an empty entry')
                    continue
                if last is not None and k >= last: raise Wrong(api, 'the keys of a node are not in order')
                if lv == 1: out.append((k, vals[i]))
                else:
                    sub = walk(vals[i], lv - 1, None)
                    if any(x[0] < k for x in sub): raise Wrong(api, 'an entry lies below the key that leads to it')
                    if last is not None and any(x[0] >= last for x in sub): raise Wrong(api, 'an entry lies beyond the key that leads to it')
                    out += sub
                last = k
            return out
        got = walk(top, h, None) if h else []
        want = sorted(((s.words(k), v) for k, v in s.tree.items()), reverse=True)
        if got != want: raise Wrong(api, 'the tree holds %s instead of %s' % ([x[0] for x in got], [x[0] for x in want]))
        if s.heap != nodes: raise Wrong(api, 'leaks %d nodes' % len(s.heap - nodes))
        if s.zero.get('layout') and any(w and o in ('layout', 'ops') for w, o, *_ in s.log): raise Wrong(api, 'changes the layout')

    def look(s, keys):
        for k in keys:
            s.setkey(k); r = s.do('w_lookup', P('root'), P('key'))
            if any(w and not isinstance(o, tuple) for w, o, *_ in s.log): raise Wrong('lookup', 'changes something')
            if r != s.tree.get(k, 0): raise Wrong('lookup', 'gives %s for key %s instead of %s' % (s.nm(r), s.words(k), s.nm(s.tree.get(k, 0))))

    def through(s):
        order = sorted(s.tree, reverse=True)
        for api, step, seq in (('first', 'next', order), ('last', 'prev', order[::-1])):
            for n in ('key',): s.new(n, 8 * s.kl, False)
            r = s.do('w_' + api, P('root'), P('key'))
            for k in seq + [None]:
                want = 0 if k is None else s.tree[k]
                if r != want: raise Wrong(api if k == seq[0:1] else step, 'gives %s instead of %s' % (s.nm(r), s.nm(want)))
                if k is None: break
                if s.getkey() != s.words(k): raise Wrong(api, 'gives the key %s with the value of %s' % (s.getkey(), s.words(k)))
                r = s.do('w_' + step, P('root'), P('key'))

    def macro(s, form, start, delete):
        m, w, rev, kind, safe = form
        order = sorted(s.tree, reverse=not rev)
        s.new('keys', 8 * s.kl * (len(order) + 1), False); s.new('vals', 8 * (len(order) + 1), False)
        v = ('o', 'value'); seq = order
        if start is not None:
            s.setkey(start); v = s.tree[start]; seq = order[order.index(start) + (kind == '_continue'):]
        n = s.do(w, P('root'), P('key'), P('tkey'), v, P('keys'), P('vals'), s.kl, int(delete))
        got = [(s.getkey('keys', 8 * s.kl * i), s.cell('vals', 8 * i)) for i in range(n)]
        if got != [(s.words(k), s.tree[k]) for k in seq]: raise Wrong(m[12:], '%sfrom %s visits %s instead of %s' % ('removing, ' if delete else '', start, [x[0] for x in got], [s.words(k) for k in seq]))
        if delete:
            for k in seq: del s.tree[k]
            s.verify(m[12:])

    def drop(s):
        rel = []
        def cb(a, ins):
            if a[1] != ('o', 'rdata'): raise Bad('the release is not given the private data', ins)
            rel.append(a[0])
        s.handlers['cb_release'] = cb
        s.do('w_release', P('root'), P(('f', 'cb_release')), ('o', 'rdata'))
        if sorted(rel) != sorted(s.tree.values()): raise Wrong('release', 'releases %s instead of %s' % ([s.nm(x) for x in rel], [s.nm(x) for x in s.tree.values()]))
        s.tree = {}; s.verify('release')
        if s.heap or s.cell('root', s.K['node']) != 0: raise Wrong('release', 'leaves a node')


def run(ctx, res):
    mod = ctx.instantiate('w_p40', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]; K = offsets(mod)
    quick = ctx.tier == 'quick'
    LAY = [(1, 4), (1, 5), (1, 6), (2, 4), (2, 5), (3, 4)]

    def say(r, api, layout, ops, t):
        l = layout if isinstance(layout, str) else 'of %d entries with keys of %d words' % layout[::-1]
        r.bad('btree:%s' % api, 'src/btree.c (bfdev_btree_%s)' % api if 'for_each' not in api else 'include/bfdev/btree.h (bfdev_btree%s)' % api, RULE, 'bfdev_btree_%s: nodes %s: %s%s: %s' % (api.lstrip('_'), l, '... ' if len(ops) > 14 else '', ' '.join('%s%s' % o for o in ops[-14:]), t))

    def history(r, layout, ops, keys, every=True, failat=None, tail=None, final=True, **kw):
        """ops: ('+', key), ('-', key), ('=', key)"""
        api = 'init'; i = -1
        try:
            a = BT(mods); a.setup(K, layout, **kw); a.verify('init')
            if failat is not None: a.failat = failat
            for i, (o, k) in enumerate(ops):
                api = {'+': 'insert', '-': 'remove', '=': 'update'}[o]
                getattr(a, api)(k); a.verify(api)
                if every: api = 'lookup'; a.look(keys); api = 'next'; a.through()
            a.failat = None
            if final: api = 'lookup'; a.look(keys); api = 'next'; a.through()
            if tail: tail(a)
            api = 'release'; a.drop()
            api = 'insert'; a.insert(5); a.verify('insert'); a.drop()
        except Wrong as e: say(r, e.api, layout, ops[:i + 1], str(e)); return False
        except Bad as e: say(r, api, layout, ops[:i + 1], e.text + (' at %s' % relf(e.ins.where) if e.ins else '')); return False
        except Bound: say(r, api, layout, ops[:i + 1], 'does not end'); return False
        except Stuck as e: r.undecided('B-tree', str(e)); return False
        r.count('histories'); r.count('operations', len(ops)); return True

    jobs = []
    def short(layout, n, perms):
        def job(r):
            ks = [2 * i + 2 for i in range(n)]
            for p in perms:
                add = [('+', ks[i]) for i in p]
                for d in itertools.permutations(range(n)) if n < 4 else [tuple(range(n)), tuple(range(n))[::-1], p, p[::-1], p[1::2] + p[::2]]:
                    if not history(r, layout, add + [('-', ks[i]) for i in d], range(1, 2 * n + 3), every=False): return
        return job
    for l in LAY:
        for n in (1, 2, 3, 4, 5) + (() if quick else (6,)):
            ps = list(itertools.permutations(range(n)))
            for i in range(0, len(ps), 60): jobs.append(short(l, n, ps[i:i + 60]))
    def long(layout, seed, n, length, every=False):
        def job(r):
            rnd = random.Random(seed * 131 + (0 if isinstance(layout, str) else layout[1])); ops = []; live = set(); grow = True
            for _ in range(length):
                if len(live) >= n: grow = False
                if len(live) <= 1: grow = True
                k = rnd.randrange(1, 3 * n)
                x = rnd.random()
                if x < .1: ops.append(('=', k))
                elif (x < .75) == grow:
                    ops.append(('+', k)); live.add(k)
                else:
                    if live and rnd.random() < .85: k = rnd.choice(sorted(live))
                    ops.append(('-', k)); live.discard(k)
            history(r, layout, ops, range(1, 3 * n + 1), every=every, clash=bool(seed & 1), init='macro' if seed & 1 else 'init')
        return job
    for l in LAY:
        jobs.append(long(l, 1, 8, 40 if quick else 80, True))
        for s, (n, m) in enumerate(((12, 80), (25, 120), (40, 160)) if quick else ((12, 150), (25, 300), (40, 400), (80, 500), (30, 300), (60, 300))): jobs.append(long(l, s + 2, n, m))
    def lib(layout):
        def job(r):
            n = 80 if quick else 300
            up = list(range(1, n + 1)); mix = [(i * 37) % (n + 1) for i in range(1, n + 1)]
            mix = list(dict.fromkeys(k for k in mix if k))
            history(r, layout, [('+', k) for k in mix] + [('-', k) for k in up], (1, 2, n // 2, n, n + 1), every=False)
        return job
    jobs += [lib(x) for x in ('layout32', 'layout64', 'layoutptr')]
    def fails(layout):
        def job(r):
            for pat in (range(1, 14), range(14, 0, -1), (7, 1, 13, 4, 10, 2, 12, 6, 8, 3, 11, 5, 9)):
                ops = [('+', k) for k in pat]
                for f in range(1, 14):
                    # the failed insertion is repeated once memory is there again
                    if not history(r, layout, [x for o in ops for x in (o, ('-', 99))], range(1, 15), every=False, failat={f}): return
                history(r, layout, ops, range(1, 15), every=False, failat=True)
        return job
    jobs += [fails(l) for l in LAY]
    def macros(layout, n):
        def job(r):
            ops = [('+', 2 * ((i * 5) % n) + 2) for i in range(n)] if n % 5 else [('+', 2 * i + 2) for i in range(n)]
            for form in FORMS:
                if form[0] in mod.dead: continue
                for start in ([None] if not form[3] else sorted({o[1] for o in ops})):
                    for d in ((False, True) if form[4] else (False,)):
                        history(r, layout, ops, (1, 2), every=False, final=False, tail=lambda a: a.macro(form, start, d))
        return job
    jobs += [macros(l, n) for l in ((1, 4), (1, 5), (2, 4)) for n in ((0, 1, 4, 7, 12) if quick else (0, 1, 2, 3, 4, 6, 7, 9, 12, 17, 23))]
    def odd(r):
        def veto(a):
            a.veto = {a.tree[3]}; a.remove(3); a.verify('remove'); a.veto = set(); a.remove(3); a.verify('remove')
        history(r, (1, 4), [('+', k) for k in (3, 1, 4, 2)], range(1, 6), tail=veto, remove=True)
        def null(a):
            a.setkey(9)
            if signed(a.do('w_insert', P('root'), P('key'), 0), 32) != -K['EINVAL']: raise Wrong('insert', 'accepts a null value')
            a.verify('insert')
        for n in (0, 1, 4): history(r, (1, 4), [('+', k + 1) for k in range(n)], range(1, 6), tail=null)
        for dup in (False, True): history(r, (1, 4), [('+', k) for k in (1, 1, 2, 2, 3, 1, 3, 2)], range(1, 5), clash=dup)
    jobs.append(odd)
    par(res, jobs)
    res.need('histories', 500)
