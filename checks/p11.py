import collections
from common import *
from lazy import *
from tree import Tree
RULE = 'for every heap size and operand position the heap afterwards is a complete tree with consistent links, exactly the intended elements, the right count, and heap order wherever the comparisons made establish it'
EXPLANATION = 'Shape analysis of the heap operations over the compiled IR for every complete tree up to a bounded size, every operand position, and every outcome of the user comparison consistent with the order known so far; heap order at the end must follow from the order known at the start and the comparisons made (transitive closure).'
MODS = None; LAY = None; COUNT = None


class Heap(Tree):
    def __init__(s, oracle, count):
        super().__init__(MODS, oracle, LAY, rb=False)
        s.count = count; s.le = set(); s.cmpd = {}
        for i in range(1, count + 1): s.new(None, None, 0, 0, 'h%d' % i)
        N = lambda i: P('h%d' % i) if i <= count else 0
        for i in range(1, count + 1):
            s.res[('h%d' % i, s.L, 8)] = N(2 * i); s.res[('h%d' % i, s.R, 8)] = N(2 * i + 1); s.res[('h%d' % i, s.Pp, 8)] = N(i // 2) if i > 1 else 0
        s.res[('root', s.rootoff, 8)] = N(1)
        s.res[('root', COUNT, 8)] = count

    def order(s, but=None):
        """heap order of the original tree, for all elements but one"""
        for i in range(2, s.count + 1):
            j = i // 2
            a, b = 'h%d' % j, 'h%d' % i
            if but == a and j > 1: a = 'h%d' % (j // 2)
            if but in (a, b): continue
            s.le.add((a, b))

    def spare(s, n):
        s.new(None, None, 9, 0, n)
        for o in (s.L, s.R, s.Pp): s.res[(n, o, 8)] = ('o', 'stale')

    def leq(s, a, b):
        if a == b: return True
        seen = {a}; w = [a]
        while w:
            x = w.pop()
            for p, q in s.le:
                if p == x and q not in seen:
                    if q == b: return True
                    seen.add(q); w.append(q)
        return False

    def split_other(s, key): raise Stuck('cell %s' % (key,))

    def outside(s, fn, ins, c, args):
        if c == ('o', 'cmp'):
            a, b = s.force(args[0]), s.force(args[1])
            if not all(isp(v) and v[1] in s.dep and v[2] == 0 for v in (a, b)): raise Bad('the comparison is not given two elements', ins)
            if s.force(args[2]) != ('o', 'pdata'): raise Bad('the comparison is not given the private data', ins)
            a, b = a[1], b[1]
            if a == b: return 0
            if (a, b) not in s.cmpd:
                opts = []
                ab, ba = s.leq(a, b), s.leq(b, a)
                if not ba: opts.append(-1)
                opts.append(0)
                if not ab: opts.append(1)
                # an equality both ways adds nothing the two orders do not give; keep it where it is the only choice or a border
                r = s.choose(opts)
                s.cmpd[(a, b)] = r; s.cmpd[(b, a)] = -r
                if r <= 0: s.le.add((a, b))
                if r >= 0: s.le.add((b, a))
            return (s.cmpd[(a, b)] << 40) & (1 << 64) - 1
        if isinstance(c, str) and 'log' in c: return 0
        raise Stuck('call of %s at %s' % (c, ins.where))

    def levels(s):
        """elements by level order position of the final tree"""
        pos = {}; w = [(1, s.cur0('root', s.rootoff), 0)]
        while w:
            i, v, up = w.pop()
            v = s.peek(v)
            if v == 0: continue
            if not isp(v) or v[1] not in s.dep or v[2]: raise Bad('a link does not lead to an element')
            n = v[1]
            if n in pos.values(): raise Bad('an element is linked twice')
            pos[i] = n
            if s.cur(n, s.Pp) != up: raise Bad('a parent link does not lead to the parent')
            w.append((2 * i, s.cur(n, s.L), P(n))); w.append((2 * i + 1, s.cur(n, s.R), P(n)))
        return pos

    def cur0(s, o, off): return s.peek(s.read(o, off, 8))

    def final(s, want, cnt, ordered=True, where=None):
        pos = s.levels()
        if set(pos.values()) != set(want): raise Bad('the heap does not hold exactly the expected elements')
        if set(pos) != set(range(1, len(want) + 1)): raise Bad('the heap is not a complete tree')
        if cnt is not None and s.cur0('root', COUNT) != cnt: raise Bad('the element count is wrong')
        if ordered:
            for i, n in pos.items():
                if i > 1 and not s.leq(pos[i // 2], n): raise Bad('heap order between an element and its parent is not established')
        for (ob, off), ins in s.written.items():
            if ob not in s.dep and ob != 'root' and not (isinstance(ob, tuple) and ob[0] == 'al') and not str(ob).startswith('out'): raise Bad('writes to something else', ins)
        return pos


def link_of(s, i):
    """address of the link at a position"""
    if i == 1: return P('root', s.rootoff)
    return P('h%d' % (i // 2), s.R if i & 1 else s.L)


def unchanged(s):
    for (ob, off), ins in s.written.items():
        if ob in s.dep or ob == 'root': raise Bad('the query changes the heap', ins)


def nodes(s): return ['h%d' % i for i in range(1, s.count + 1)]


def op_insert(s, f):
    s.order(); s.spare('new')
    s.run(f, [P('root'), P('new'), ('o', 'cmp'), ('o', 'pdata')])
    s.final(nodes(s) + ['new'], s.count + 1)


def op_insert_node(s, f):
    s.order(); s.spare('new')
    i = s.count + 1
    s.run(f, [P('root'), P('h%d' % (i // 2)) if i > 1 else 0, link_of(s, i), P('new'), ('o', 'cmp'), ('o', 'pdata')])
    s.final(nodes(s) + ['new'], s.count + 1)


def pick(s): return s.choose(nodes(s))


def op_fixup(s, f):
    """an element that became smaller"""
    n = pick(s)
    for i in range(2, s.count + 1):
        a, b = 'h%d' % (i // 2), 'h%d' % i
        if b != n: s.le.add((a, b))
        if b == n and i >= 2:
            for c in (2 * i, 2 * i + 1):
                if c <= s.count: s.le.add((a, 'h%d' % c))
    s.run(f, [P('root'), P(n), ('o', 'cmp'), ('o', 'pdata')])
    s.final(nodes(s), s.count)


def op_erase(s, f):
    """an element with any new value"""
    n = pick(s)
    s.order(n)
    s.run(f, [P('root'), P(n), ('o', 'cmp'), ('o', 'pdata')])
    s.final(nodes(s), s.count)


def op_delete(s, f):
    n = pick(s)
    s.order()
    s.run(f, [P('root'), P(n), ('o', 'cmp'), ('o', 'pdata')])
    s.final([x for x in nodes(s) if x != n], s.count - 1)
    for o in (s.L, s.R, s.Pp):
        v = s.cur0(n, o)
        if not isinstance(v, int) or v == 0: raise Bad('the links of the deleted element are not poisoned')


def op_remove(s, f):
    n = pick(s)
    r = s.force(s.run(f, [P('root'), P(n)]))
    last = 'h%d' % s.count
    pos = s.final([x for x in nodes(s) if x != n], s.count - 1, False)
    if n == last:
        if r != 0: raise Bad('an element is returned although no other one moved')
    else:
        if r != P(last): raise Bad('the element that took the place is not returned')
        for i in range(1, s.count):
            if pos[i] != (last if 'h%d' % i == n else 'h%d' % i): raise Bad('elements other than the last one moved')


def op_parent(s, f):
    r = s.force(s.run(f, [P('root'), P('outp'), ('o', 'new')]))
    unchanged(s)
    i = s.count + 1
    if r != link_of(s, i): raise Bad('the link returned is not the next free place')
    if s.force(s.read('outp', 0)) != (P('h%d' % (i // 2)) if i > 1 else 0): raise Bad('the parent returned does not hold the link')


def op_find(s, f):
    i = s.choose(list(range(0, s.count + 3)))
    r = s.force(s.run(f, [P('root'), i]))
    unchanged(s)
    if r != (P('h%d' % i) if 1 <= i <= s.count else 0): raise Bad('the result is not the element with the index')


def op_first(s, f):
    r = s.force(s.run(f, [P('root'), P('outi')])); unchanged(s)
    if r != (P('h1') if s.count else 0): raise Bad('the result is not the first element')
    if s.peek(s.read('outi', 0)) != 0: raise Bad('the index is not set to zero')


def op_next(s, f):
    i = s.choose(list(range(0, max(1, s.count))))
    s.res[('outi', 0, 8)] = i
    r = s.force(s.run(f, [P('root'), P('outi')])); unchanged(s)
    j = i + 2
    if r != (P('h%d' % j) if j <= s.count else 0): raise Bad('the result is not the next element in level order')
    if s.peek(s.read('outi', 0)) != i + 1: raise Bad('the index does not advance by one')


def post(s):
    def rec(i): return rec(2 * i) + rec(2 * i + 1) + ['h%d' % i] if i <= s.count else []
    return rec(1)


def op_post_first(s, f):
    r = s.force(s.run(f, [P('root')])); unchanged(s)
    o = post(s)
    if r != (P(o[0]) if o else 0): raise Bad('the result is not the first element in post-order')


def op_post_next(s, f):
    o = post(s); i = s.choose([-1] + list(range(len(o))))
    r = s.force(s.run(f, [P(o[i]) if i >= 0 else 0])); unchanged(s)
    if r != (P(o[i + 1]) if 0 <= i < len(o) - 1 else 0): raise Bad('the result is not the next element in post-order')


def op_far(s, f, step):
    n = pick(s); r = s.force(s.run(f, [P(n)])); unchanged(s)
    i = int(n[1:])
    while True:
        j = step(i, s.count)
        if j is None: break
        i = j
    if r != P('h%d' % i): raise Bad('the result is not the node at the end of the walk')


OPS = {
    'bfdev_heap_insert': (op_insert, {}, 0), 'bfdev_heap_insert_node': (op_insert_node, {}, 0), 'bfdev_heap_fixup': (op_fixup, {}, 1), 'bfdev_heap_erase': (op_erase, {}, 1),
    'bfdev_heap_delete': (op_delete, {}, 1), 'bfdev_heap_remove': (op_remove, {}, 1), 'bfdev_heap_parent': (op_parent, {}, 0), 'bfdev_heap_find': (op_find, {}, 0),
    'bfdev_heap_first': (op_first, {}, 0), 'bfdev_heap_next': (op_next, {}, 0), 'bfdev_heap_post_first': (op_post_first, {}, 0), 'bfdev_heap_post_next': (op_post_next, {}, 0),
    'bfdev_heap_left_far': (op_far, dict(step=lambda i, c: 2 * i if 2 * i <= c else None), 1), 'bfdev_heap_right_far': (op_far, dict(step=lambda i, c: 2 * i + 1 if 2 * i + 1 <= c else None), 1),
    'bfdev_heap_left_deep': (op_far, dict(step=lambda i, c: 2 * i if 2 * i <= c else None), 1), 'bfdev_heap_right_deep': (op_far, dict(step=lambda i, c: 2 * i + 1 if 2 * i + 1 <= c else 2 * i if 2 * i <= c else None), 1),
}


def run(ctx, res):
    global MODS, LAY, COUNT
    top = 12 if ctx.tier == 'quick' else 20
    for dbg in ctx.configs:
        lib, hdr = ctx.lib(dbg), ctx.hdr(dbg)
        MODS = [hdr, lib]
        t = {n: o for n, o, _, _ in lib.types['bfdev_heap_node']['m']}
        r = {n: o for n, o, _, _ in lib.types['bfdev_heap_root']['m']}
        LAY = (t['left'], t['right'], t['parent'], None, r['node']); COUNT = r['count']
        for nm, (op, kw, lo) in OPS.items():
            f = hdr.fn(nm) if hdr.fn(nm) is not None and not hdr.fn(nm).decl else lib.fn(nm)
            if f is None: raise AnalysisBroken('function %s not found' % nm)
            n = 0; dec = True
            where0 = '%s:%d (%s)' % (relf(f.file), f.line, nm)
            for count in range(lo, top + 1):
                def case(oracle):
                    s = Heap(oracle, count)
                    try: op(s, f, **kw)
                    except Bad as e: return 'bad', e.text, e.ins.where if e.ins is not None else where0
                    except Bound: return 'bad', 'does not end', s.where.where
                    except Stuck as e: return 'stuck', str(e), ''
                    except RecursionError: return 'bad', 'links in a circle', where0
                    return 'ok', '', ''
                stop = False
                try:
                    for k, text, where in explore(case):
                        n += 1
                        if k == 'bad': res.bad('%s:%s' % (nm, text), where, 'heap shape', '%s with %d elements: %s' % (nm, count, text)); stop = True; break
                        if k == 'stuck': res.undecided(nm, text); stop = True; dec = False; break
                except Stuck as e: res.undecided(nm, str(e)); dec = False; stop = True
                if stop: break
            res.count('shapes', n)
            if dec: res.count('operations')
            res.sample('%s: %d shapes' % (nm, n))
    res.need('operations', 9)
    res.need('shapes', 300)
