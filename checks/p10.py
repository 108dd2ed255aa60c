import collections
from common import *
from lazy import *
from tree import Tree
RULE = 'in every shape around the operand the links, colours and in-order sequence after the operation are those of a valid red-black tree with exactly the intended change'
EXPLANATION = 'Shape analysis with lazy materialisation of the red-black tree operations over the compiled IR: neighbours are split into the possible cases only when the code looks at them, subtrees not looked at stay summaries with a symbolic black height. Every finished case is compared with the specified in-order sequence, parent links, colours, black heights and (augmented) subtree data.'
LAY = None; MODS = None; LM = None


class RB(Tree):
    """red-black tree with comparison and augmentation callbacks"""
    node = None; newn = None; lm = None; cmpkind = None; augon = False

    def __init__(s, oracle, **k):
        super().__init__(MODS, oracle, LAY, **k); s.results = {}; s.upward = {}

    def start_at(s):
        """a place for a new red node: (parent or None, link offset)"""
        if s.choose([True, False]):
            s.res[('root', LAY[4], 8)] = 0; return None, None
        p = s.start('parent')
        off = s.choose([s.L, s.R])
        s.equals(s.d[p] - s.col[p], 0)
        s.res[(p, off, 8)] = 0
        return p, off

    def split(s, key):
        v = super().split(key)
        if key[0] in s.upward and key[1] == s.Pp and isp(v):
            # the recomputation went on through the ancestors
            m = v[1]; side = s.L if s.res.get((m, s.L, 8)) == P(key[0]) else s.R
            o = ('T', m, s.R if side == s.L else s.L)
            a = s.upward[key[0]]
            s.aug[m] = s.upward[m] = ('set', m, a, o)
        return v

    def split_other(s, key):
        if key[0] == 'root' and key[1] == LM:
            n = s.node
            if n is None: raise Stuck('leftmost')
            if s.isfirst(n, True): s.lm = True; return P(n)
            s.lm = False; return P('lm')
        if key[0] == 'cb': return ('o', key)
        raise Stuck('cell %s' % (key,))

    def isfirst(s, n, choose=False):
        """node is the first of the whole tree (splits as needed)"""
        if s.force(('z', (n, s.L, 8))) != 0: return False
        while True:
            p = s.force(('z', (n, s.Pp, 8)))
            if p == 0: return True
            if s.old(p[1], s.L) != P(n): return False
            n = p[1]

    def cells(s, obj):
        return super().cells(obj)

    def outside(s, fn, ins, c, args):
        if isterm(c) and c[0] == 'o':
            if c == ('o', 'cmp'):
                a = s.force(args[0]); b = args[1]
                if s.cmpkind == 'find':
                    n, other, want = a, b, ('o', 'key')
                else: n, other, want = s.force(b), a, P(s.newn)
                if not isp(n) or n[1] not in s.dep or n[2]: raise Bad('the comparison is not given a node of the tree', ins)
                if s.force(other) != want: raise Bad('the comparison is not given the key', ins)
                if s.cmpkind != 'find' and s.force(args[2]) != ('o', 'pdata'): raise Bad('the comparison is not given the private data', ins)
                if n[1] not in s.results: s.results[n[1]] = s.choose([-1, 0, 1])
                r = s.results[n[1]]
                return (r << 40) & (1 << 64) - 1
            if c[1][0] == 'cb':
                a = [s.force(x) for x in args]
                s.augment({0: 'rotate', 8: 'copy', 16: 'propagate'}.get(c[1][1]), a, ins); return None
        if isinstance(c, str) and ('log' in c or c in ('bfdev_dummy_noop',)): return 0
        raise Stuck('call of %s at %s' % (c, ins.where))

    # ---- augmented data: the value of a node stands for the set of its subtree when last computed
    def augval(s, v):
        v = s.peek(v)
        if v == 0: return ()
        if isz(v): return ('T',) + v[1][:2]
        return s.aug.get(v[1], ('old', v[1]))

    def compute(s, n): s.aug[n] = ('set', n, s.augval(s.cur(n, s.L)), s.augval(s.cur(n, s.R)))

    def augment(s, what, a, ins):
        if what == 'propagate' and a[0] == a[1]: return
        if not isp(a[0]): raise Bad('the %s callback is given no node' % what, ins)
        if what == 'rotate': s.aug[a[1][1]] = s.augval(a[0]); s.compute(a[0][1])
        elif what == 'copy': s.aug[a[1][1]] = s.augval(a[0])
        elif what == 'propagate':
            n, stop = a
            while n != stop:
                if n == 0 or isz(n): break
                s.compute(n[1])
                n = s.cur(n[1], s.Pp)
                if isz(n): s.upward[n[1][0]] = s.aug.get(n[1][0]); break
        else: raise Stuck('callback')

    def expand(s, v, old):
        if v == (): return frozenset()
        if v[0] == 'T': return frozenset(s.oldset(s.old(v[1], v[2])))
        if v[0] == 'old': return frozenset(s.oldset(P(v[1])))
        return frozenset([v[1]]) | s.expand(v[2], old) | s.expand(v[3], old)

    def oldset(s, v): return set(s.fold(s.old0, v, set()))
    def old0(s, n, off): return s.old(n, off)

    def check_aug(s, v, extra=None):
        if v == 0 or isz(v): return
        want = frozenset(s.fold(s.cur, v, set()))
        got = s.expand(s.augval(v), None)
        if want != got: raise Bad('the augmented data of %s is not recomputed from its final subtree' % v[1])
        s.check_aug(s.cur(v[1], s.L)); s.check_aug(s.cur(v[1], s.R))


def gap(seq, results):
    """index in the in-order sequence where the searched key belongs, from the comparisons made"""
    lt = [i for i, x in enumerate(seq) if results.get(x, 0) == -1]
    gt = [i for i, x in enumerate(seq) if results.get(x, 0) == 1]
    lo = max(lt) + 1 if lt else 0
    hi = min(gt) if gt else len(seq)
    if lo != hi: raise Bad('elements between the neighbours found were not compared')
    return lo


def finish(s, change, aug=False, cached=None):
    """compare final with original: change(list) edits the expected sequence in place"""
    top, isroot = s.oldtop()
    o = s.fold(s.old, P(top) if top else 0, set())
    change(o)
    v = s.newtop(top, isroot)
    f = s.fold(s.cur, v, set())
    if o != f: raise Bad('the in-order sequence is %s, expected %s' % (names(f), names(o)))
    s.check_links(v, 0 if isroot else 'same')
    s.check_rb(v, top, isroot)
    if aug: s.check_aug(v)
    for (ob, off), ins in s.written.items():
        if ob == 'root' and off == LM and cached is None: raise Bad('the leftmost link is written', ins)
        if ob not in s.dep and ob not in ('root', s.newn) and not (isinstance(ob, tuple) and ob[0] == 'al') and not str(ob).startswith('out'): raise Bad('writes to something else', ins)
    return f, isroot


def names(seq): return '[' + ' '.join(x if isinstance(x, str) else '%s.%s*' % (x[1], 'l' if x[2] == LAY[0] else 'r') for x in seq) + ']'


def put(seq, s, p, off):
    if p is None: seq.append(s.newn)
    else:
        i = seq.index(p)
        seq.insert(i if off == s.L else i + 1, s.newn)


# ---- operations; each returns nothing or raises Bad
def op_insert_node(s, f, aug=False, cached=False, raw=None):
    p, off = s.start_at()
    s.newn = 'new'
    link = P(p, off) if p else P('root', LAY[4])
    args = [P('root'), P(p) if p else 0, link, P('new')]
    left = None
    if cached:
        left = p is None
        if p and off == s.L:
            n = p; left = True
            while True:
                q = s.force(('z', (n, s.Pp, 8)))
                if q == 0: break
                if s.old(q[1], s.L) != P(n): left = False; break
                n = q[1]
        s.res[('root', LM, 8)] = P('lm') if p else 0
        args.append(int(left))
    if aug: args.append(P('cb'))
    s.dep['new'] = 9; s.new_node('new')
    if aug:
        # the data of the ancestors already covers the new node
        s.plan = (p, off)
    s.run(f, args)
    def ch(o): put(o, s, p, off)
    if aug:
        s.old0 = lambda n, o: P('new') if (n, o) == (p, off) else 0 if n == 'new' else s.old(n, o)
    fin, isroot = finish(s, ch, aug, cached or None)
    if cached:
        w = s.peek(s.read('root', LM, 8))
        if left and w != P('new'): raise Bad('the new leftmost node is not recorded')
        if not left and w != P('lm'): raise Bad('the leftmost node changes although the new one is not the first')


def new_node(s, n):
    for o in (s.L, s.R, s.Pp): s.res[(n, o, 8)] = ('o', 'stale')
    s.res[(n, s.C, 1)] = ('o', 'stale')


RB.new_node = new_node


def op_delete(s, f, aug=False, cached=False):
    n = s.node = s.start()
    args = [P('root'), P(n)] + ([P('cb')] if aug else [])
    r = s.run(f, args)
    def ch(o): o.remove(n)
    s.gone = n
    fin, isroot = finish(s, ch, aug, cached or None)
    for off in (s.L, s.R, s.Pp):
        v = s.peek(s.read(n, off, 8))
        if not (isinstance(v, int) and v != 0): raise Bad('the links of the deleted node are not poisoned')
    if cached:
        w = s.peek(s.read('root', LM, 8)); r = s.peek(r)
        if s.lm:
            want = (P(fin[0]) if isinstance(fin[0], str) else None) if fin else 0
            if w != want: raise Bad('the leftmost link does not lead to the new first node')
            if r != want: raise Bad('the result is not the new first node')
        elif s.lm is False:
            if w != P('lm'): raise Bad('the leftmost link changes although another node was deleted')
            if r != 0: raise Bad('the result is not null although another node was deleted')
        else: raise Bad('the leftmost link is not maintained')


def op_replace(s, f, cached=False):
    n = s.node = s.start(); s.newn = 'new'; s.dep['new'] = 9; s.new_node('new')
    s.run(f, [P('root'), P(n), P('new')])
    if not cached: s.force(('z', (n, s.Pp, 8)))
    for off in (s.L, s.R):
        # a child not looked at would keep its old parent
        pass
    def ch(o): o[o.index(n)] = 'new'
    top, isroot = s.oldtop()
    o = s.fold(s.old, P(top), set())
    tok = lambda q: ('T', n, q[2]) if isinstance(q, tuple) and q[1] == n else q
    ch(o)
    v = s.newtop('new' if top == n else top, isroot)
    fs = s.fold(s.cur, v, set())
    if o != fs: raise Bad('the in-order sequence is %s, expected %s' % (names(fs), names(o)))
    s.check_links(v, 0 if isroot else 'same')
    s.check_rb(v, top, isroot)
    if cached:
        w = s.peek(s.read('root', LM, 8))
        if s.lm and w != P('new'): raise Bad('the leftmost link still leads to the replaced node')
        if s.lm is False and w != P('lm'): raise Bad('the leftmost link changes although another node was replaced')
        if s.lm is None: raise Bad('the leftmost link is not maintained')


def whole(s): return s.fold(s.old, s.old_root(), set())
def old_root(s):
    v = s.res.get(('root', LAY[4], 8))
    return ('z', ('root', LAY[4], 8)) if v is None else v
RB.old_root = old_root


def unchanged(s):
    for (ob, off), ins in s.written.items():
        if ob in s.dep or ob == 'root': raise Bad('the search changes the tree', ins)


def op_find(s, f):
    s.cmpkind = 'find'
    r = s.peek(s.run(f, [P('root'), ('o', 'key'), ('o', 'cmp')]))
    r = s.force(r) if isz(r) else r
    unchanged(s)
    seq = whole(s)
    hit = [n for n, v in s.results.items() if v == 0]
    if hit:
        if r != P(hit[0]): raise Bad('the element found is not returned')
    else:
        if r != 0: raise Bad('an element that does not match is returned')
        gap(seq, s.results)


def place(s, seq, link):
    """in-order index an insertion at the link would get"""
    if link == P('root', LAY[4]): return 0 if not seq else None
    if not isp(link) or link[1] not in s.dep or link[2] not in (s.L, s.R): raise Bad('the link returned is not a link of the tree')
    if s.old(link[1], link[2]) != 0: raise Bad('the link returned is not an empty one')
    i = seq.index(link[1])
    return i if link[2] == s.L else i + 1


def after_search(s, seq, link, parent, left):
    i = gap(seq, s.results)
    if place(s, seq, link) != i: raise Bad('the link returned is not where the comparisons put the element')
    want = P(link[1]) if link != P('root', LAY[4]) else 0
    if s.force(parent) != want: raise Bad('the parent returned does not hold the link')
    if left is not None:
        v = left if isinstance(left, int) else None
        if v is None or bool(v) != (i == 0): raise Bad('the leftmost flag is wrong')


def op_find_last(s, f):
    s.cmpkind = 'find'
    lf = s.choose([True, False])
    r = s.run(f, [P('root'), ('o', 'key'), ('o', 'cmp'), P('outp'), P('outl'), P('outf') if lf else 0])
    r = s.force(r)
    unchanged(s)
    seq = whole(s)
    hit = [n for n, v in s.results.items() if v == 0]
    if hit:
        if r != P(hit[0]): raise Bad('the element found is not returned')
        return
    if r != 0: raise Bad('an element that does not match is returned')
    after_search(s, seq, s.force(s.read('outl', 0)), s.read('outp', 0), s.peek(s.read('outf', 0, 1)) if lf else None)


def op_parent(s, f):
    s.cmpkind = 'cmp'; s.newn = 'new'; s.dep['new'] = 9; s.new_node('new')
    lf = s.choose([True, False])
    r = s.force(s.run(f, [P('root'), P('outp'), P('new'), ('o', 'cmp'), ('o', 'pdata'), P('outf') if lf else 0]))
    del s.dep['new']
    unchanged(s)
    flip(s)
    seq = whole(s)
    if 0 in s.results.values():
        if r != 0: raise Bad('a place is returned although an equal element exists')
        return
    if r == 0: raise Bad('no place is returned although no equal element exists')
    after_search(s, seq, r, s.read('outp', 0), s.peek(s.read('outf', 0, 1)) if lf else None)


def flip(s):
    """cmp(new, node) < 0: the node is above the new one"""
    s.results = {k: -v for k, v in s.results.items()}


def op_insert(s, f, aug=False, cached=False):
    s.cmpkind = 'cmp'; s.newn = 'new'; s.dep['new'] = 9; s.new_node('new')
    if cached: s.res[('root', LM, 8)] = P('lm')
    r = s.force(s.run(f, [P('root'), P('new'), ('o', 'cmp'), ('o', 'pdata')] + ([P('cb')] if aug else [])))
    flip(s)
    seq = whole(s)
    if 0 in s.results.values():
        if r != 0: raise Bad('reports success although an equal element exists')
        unchanged(s); return
    if r != 1: raise Bad('reports failure although the element was new')
    i = gap(seq, s.results)
    def ch(o): o.insert(i, 'new')
    if aug: return
    finish(s, ch, False, cached or None)
    if cached:
        w = s.peek(s.read('root', LM, 8))
        if w != P('new' if i == 0 else 'lm'): raise Bad('the leftmost link is wrong')


def adjacent(s, order, n, r, step, what):
    top, isroot = s.oldtop()
    seq = s.fold(s.old, P(top), set(), order)
    i = seq.index(n) + step
    if 0 <= i < len(seq):
        if not isinstance(seq[i], str) or r != P(seq[i]): raise Bad('the result is not the %s node' % what)
    elif isroot:
        if r != 0: raise Bad('the result is not null at the end of the tree')
    elif r != 0 and isp(r) or r == 0: raise Bad('the result is given without looking at the rest of the tree')


def op_step(s, f, order='in', step=1):
    if s.choose([True, False]):
        if s.force(s.run(f, [0])) != 0: raise Bad('the result is not null for no node')
        return
    n = s.start()
    r = s.force(s.run(f, [P(n)]))
    unchanged(s)
    adjacent(s, order, n, r, step, 'next' if step > 0 else 'previous')


def op_end(s, f, order='in', at=0):
    r = s.force(s.run(f, [P('root')]))
    unchanged(s)
    seq = s.fold(s.old, s.force(('z', ('root', LAY[4], 8))), set(), order)
    want = P(seq[at]) if seq and isinstance(seq[at], str) else 0 if not seq else None
    if r != want: raise Bad('the result is not the %s node' % ('first' if at == 0 else 'last'))


def op_far(s, f, order, at):
    n = s.start()
    r = s.force(s.run(f, [P(n)]))
    unchanged(s)
    seq = s.fold(s.old, P(n), set(), order)
    if r != (P(seq[at]) if isinstance(seq[at], str) else None): raise Bad('the result is not the %s node of the subtree' % ('first' if at == 0 else 'last'))


def rpost(s, f):
    """deepest node going right where possible: the second in reverse pre-order from the end"""
    n = s.start(); r = s.force(s.run(f, [P(n)])); unchanged(s)
    while True:
        a = s.old(n, s.R); b = s.old(n, s.L)
        c = a if a != 0 else b
        if isz(a) or isz(c): raise Bad('the result is given without looking at the links')
        if c == 0: break
        n = c[1]
    if r != P(n): raise Bad('the result is not the deepest node on the right')


OPS = {
    'bfdev_rb_insert_node': (op_insert_node, {}, 4), 'bfdev_rb_insert_node_augmented': (op_insert_node, dict(aug=True), 4),
    'bfdev_rb_cached_insert_node': (op_insert_node, dict(cached=True), 3), 'bfdev_rb_cached_insert_node_augmented': (op_insert_node, dict(cached=True, aug=True), 3),
    'bfdev_rb_delete': (op_delete, {}, 3), 'bfdev_rb_delete_augmented': (op_delete, dict(aug=True), 3),
    'bfdev_rb_cached_delete': (op_delete, dict(cached=True), 2), 'bfdev_rb_cached_delete_augmented': (op_delete, dict(cached=True, aug=True), 2),
    'bfdev_rb_replace': (op_replace, {}, 2), 'bfdev_rb_cached_replace': (op_replace, dict(cached=True), 3),
    'bfdev_rb_find': (op_find, {}, 4), 'bfdev_rb_find_last': (op_find_last, {}, 4), 'bfdev_rb_parent': (op_parent, {}, 4),
    'bfdev_rb_insert': (op_insert, {}, 3), 'bfdev_rb_insert_augmented': (op_insert, dict(aug=True), 3),
    'bfdev_rb_cached_insert': (op_insert, dict(cached=True), 3), 'bfdev_rb_cached_insert_augmented': (op_insert, dict(cached=True, aug=True), 3),
    'bfdev_rb_next': (op_step, {}, 4), 'bfdev_rb_prev': (op_step, dict(step=-1), 4), 'bfdev_rb_pre_next': (op_step, dict(order='pre'), 4), 'bfdev_rb_post_next': (op_step, dict(order='post'), 4),
    'bfdev_rb_first': (op_end, {}, 4), 'bfdev_rb_last': (op_end, dict(at=-1), 4), 'bfdev_rb_pre_first': (op_end, dict(order='pre'), 4), 'bfdev_rb_post_first': (op_end, dict(order='post'), 4),
    'bfdev_rb_left_far': (op_far, dict(order='in', at=0), 4), 'bfdev_rb_right_far': (op_far, dict(order='in', at=-1), 4), 'bfdev_rb_left_deep': (op_far, dict(order='post', at=0), 4), 'bfdev_rb_right_deep': (rpost, {}, 4),
}


def run(ctx, res):
    global LAY, MODS, LM
    for dbg in ctx.configs:
        lib, hdr = ctx.lib(dbg), ctx.hdr(dbg)
        MODS = [hdr, lib]
        t = {n: o for n, o, _, _ in lib.types['bfdev_rb_node']['m']}
        c = {n: o for n, o, _, _ in hdr.types['bfdev_rb_root_cached']['m']}
        r = {n: o for n, o, _, _ in hdr.types['bfdev_rb_root']['m']}
        LAY = (t['left'], t['right'], t['parent'], t['color'], c['root'] + r['node']); LM = c['leftmost']
        for nm, (op, kw, up) in OPS.items():
            f = hdr.fn(nm) if hdr.fn(nm) is not None and not hdr.fn(nm).decl else lib.fn(nm)
            if f is None: raise AnalysisBroken('function %s not found' % nm)
            if ctx.tier != 'quick' and kw.get('cached') is None: up += 1
            st = collections.Counter()

            def case(oracle):
                s = RB(oracle, maxup=up, maxdown=4)
                try: op(s, f, **kw)
                except Bad as e:
                    ins = e.ins or None
                    return 'bad', e.text, ins.where if ins is not None else '%s:%d (%s)' % (relf(f.file), f.line, nm)
                except Bound:
                    # a walk that does not end within the steps a finite tree allows
                    return 'bad', 'does not end', s.where.where
                except Stuck as e: return 'stuck', str(e), ''
                except RecursionError: return 'bad', 'links in a circle', '%s:%d (%s)' % (relf(f.file), f.line, nm)
                return 'ok', '', ''
            try:
                for k, text, where in explore(case):
                    st[k] += 1
                    if k == 'bad': res.bad('%s:%s' % (nm, re.sub(r'\[.*?\]|\bn\d+\b', '', text)[:60]), where, 'red-black tree shape', '%s: %s' % (nm, text)); break
                    if k == 'stuck': res.undecided(nm, text); break
            except Stuck as e: res.undecided(nm, str(e)); continue
            res.count('shapes', sum(st.values()))
            if not st['stuck']: res.count('operations')
            res.sample('%s: %d shapes' % (nm, sum(st.values())))
    res.need('operations', 15)
    res.need('shapes', 1000)
