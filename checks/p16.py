from common import *
from conc import *
from anf import Dom, ONE, ZERO, pnot
import anf
RULE = 'exactly one indivisible access gives the operation its effect: the value it stores and the result are the specified functions of the value it replaced; nothing else modifies the shared word'
EXPLANATION = 'Every atomic operation, compare-and-swap, atomic bit operation, reference count operation and lock-free list operation is instantiated and its LLVM IR followed under interference: each access to the shared word observes an arbitrary value and a compare-and-swap may fail. On every path the linearisation point is identified and the stored value and the result compared, as canonical bit polynomials under the path condition, with the specification.'
M = (1 << 64) - 1


def specs():
    """(name, C text, arguments after the word, spec(D, observed, args) -> dict(new, ret, oldp), plain store allowed)"""
    L = []
    A = 'bfdev_atomic_t *p'
    ops = {'add': lambda D, o, v: D.add(o, v), 'sub': lambda D, o, v: D.sub(o, v), 'and': lambda D, o, v: D.band(o, v), 'or': lambda D, o, v: D.bor(o, v), 'xor': lambda D, o, v: D.bxor(o, v)}
    L.append(('atomic_read', 'long w_atomic_read(const bfdev_atomic_t *p) { return bfdev_atomic_read(p); }', (), lambda D, o: dict(new=o, ret=o), 0))
    L.append(('atomic_write', 'void w_atomic_write(bfdev_atomic_t *p, long v) { bfdev_atomic_write(p, v); }', ('v',), lambda D, o, v: dict(new=v), 1))
    for n, f in ops.items():
        L.append(('atomic_' + n, 'void w_atomic_%s(bfdev_atomic_t *p, long v) { bfdev_atomic_%s(p, v); }' % (n, n), ('v',), lambda D, o, v, f=f: dict(new=f(D, o, v)), 0))
        L.append(('atomic_fetch_' + n, 'long w_atomic_fetch_%s(bfdev_atomic_t *p, long v) { return bfdev_atomic_fetch_%s(p, v); }' % (n, n), ('v',), lambda D, o, v, f=f: dict(new=f(D, o, v), ret=o), 0))
        L.append(('atomic_%s_fetch' % n, 'long w_atomic_%s_fetch(bfdev_atomic_t *p, long v) { return bfdev_atomic_%s_fetch(p, v); }' % (n, n), ('v',), lambda D, o, v, f=f: dict(new=f(D, o, v), ret=f(D, o, v)), 0))
    L.append(('xchg', 'long w_xchg(bfdev_atomic_t *p, long v) { return bfdev_xchg(p, v); }', ('v',), lambda D, o, v: dict(new=v, ret=o), 0))
    L.append(('cmpxchg', 'long w_cmpxchg(bfdev_atomic_t *p, long e, long v) { return bfdev_cmpxchg(p, e, v); }', ('e', 'v'),
              lambda D, o, e, v: dict(new=D.ite(D.cmp('eq', o, e), v, o), ret=o), 0))
    L.append(('try_cmpxchg', 'bool w_try_cmpxchg(bfdev_atomic_t *p, bfdev_atomic_t *e, long v) { return bfdev_try_cmpxchg(p, e, v); }', ('*e', 'v'),
              lambda D, o, e, v: dict(new=D.ite(D.cmp('eq', o, e), v, o), ret=(D.cmp('eq', o, e),), out=o), 0))
    for bit in (0, 5, 63, 64, 127):
        m = 1 << bit % 64; w = bit // 64 * 8; b = bit % 64
        set_ = lambda D, o, m=m: D.bor(o, D.const(m, 64)); clr = lambda D, o, m=m: D.band(o, D.const(M & ~m, 64)); flip = lambda D, o, m=m: D.bxor(o, D.const(m, 64))
        for n, f in (('set', set_), ('clr', clr), ('flip', flip)):
            L.append(('bit_atomic_%s.%d' % (n, bit), 'void w_bit_atomic_%s_%d(unsigned long *p) { bfdev_bit_atomic_%s(p, %d); }' % (n, bit, n, bit), (), lambda D, o, f=f: dict(new=f(D, o)), 0, w))
            L.append(('bit_atomic_test_%s.%d' % (n, bit), 'bool w_bit_atomic_test_%s_%d(unsigned long *p) { return bfdev_bit_atomic_test_%s(p, %d); }' % (n, bit, n, bit), (), lambda D, o, f=f, b=b: dict(new=f(D, o), ret=(o[b],)), 0, w))
        for v, f in ((0, clr), (1, set_)):
            L.append(('bit_atomic_change.%d.%d' % (bit, v), 'void w_bit_atomic_change_%d_%d(unsigned long *p) { bfdev_bit_atomic_change(p, %d, %d); }' % (bit, v, bit, v), (), lambda D, o, f=f: dict(new=f(D, o)), 0, w))
            L.append(('bit_atomic_test_change.%d.%d' % (bit, v), 'bool w_bit_atomic_test_change_%d_%d(unsigned long *p) { return bfdev_bit_atomic_test_change(p, %d, %d); }' % (bit, v, bit, v), (), lambda D, o, f=f, b=b: dict(new=f(D, o), ret=(o[b],)), 0, w))
        L.append(('bit_atomic_test.%d' % bit, 'bool w_bit_atomic_test_%d(unsigned long *p) { return bfdev_bit_atomic_test(p, %d); }' % (bit, bit), (), lambda D, o, b=b: dict(new=o, ret=(o[b],)), 0, w))
    R = 'bfdev_refcnt_t *p'
    one = lambda D: D.const(1, 64); zero = lambda D: D.const(0, 64)
    def sub(D, o, n): return dict(new=D.sub(o, n), ret=(D.cmp('eq', o, n),), out=o)
    def addnz(D, o, n): z = D.cmp('eq', o, zero(D)); return dict(new=D.ite(z, o, D.add(o, n)), ret=(z,), out=o)
    def add(D, o, n): return dict(new=D.add(o, n), out=o)
    L.append(('refcnt_get', 'long w_refcnt_get(%s) { return bfdev_refcnt_get(p); }' % R, (), lambda D, o: dict(new=o, ret=o), 0))
    L.append(('refcnt_set', 'void w_refcnt_set(%s, long v) { bfdev_refcnt_set(p, v); }' % R, ('v',), lambda D, o, v: dict(new=v), 1))
    def drop(f, *ks):
        def g(D, o, *a):
            d = f(D, o, *a)
            for k in ks: d.pop(k, None)
            return d
        return g
    for n1, f, test in (('add', add, 0), ('sub', sub, 1), ('addnz', addnz, 1)):
        i1 = {'add': 'inc', 'sub': 'dec', 'addnz': 'incnz'}[n1]
        F1 = lambda f: lambda D, o, *a: f(D, o, one(D), *a)
        L.append(('refcnt_' + n1, 'void w_refcnt_%s(%s, long n) { bfdev_refcnt_%s(p, n); }' % (n1, R, n1), ('n',), drop(f, 'ret', 'out'), 0))
        L.append(('refcnt_' + i1, 'void w_refcnt_%s(%s) { bfdev_refcnt_%s(p); }' % (i1, R, i1), (), F1(drop(f, 'ret', 'out')), 0))
        L.append(('refcnt_fetch_' + i1, 'void w_refcnt_fetch_%s(%s, long *e) { bfdev_refcnt_fetch_%s(p, e); }' % (i1, R, i1), ('*e',), lambda D, o, e, f=f: drop(f, 'ret')(D, o, one(D)), 0))
        if test:
            L.append(('refcnt_%s_test' % n1, 'bool w_refcnt_%s_test(%s, long n) { return bfdev_refcnt_%s_test(p, n); }' % (n1, R, n1), ('n',), drop(f, 'out'), 0))
            L.append(('refcnt_fetch_' + n1, 'void w_refcnt_fetch_%s(%s, long n, long *e) { bfdev_refcnt_fetch_%s(p, n, e); }' % (n1, R, n1), ('n', '*e'), lambda D, o, n, e, f=f: drop(f, 'ret')(D, o, n), 0))
            L.append(('refcnt_%s_test' % i1, 'bool w_refcnt_%s_test(%s) { return bfdev_refcnt_%s_test(p); }' % (i1, R, i1), (), F1(drop(f, 'out')), 0))
            L.append(('refcnt_fetch_%s_test' % i1, 'bool w_refcnt_fetch_%s_test(%s, long *e) { return bfdev_refcnt_fetch_%s_test(p, e); }' % (i1, R, i1), ('*e',), lambda D, o, e, f=f: f(D, o, one(D)), 0))
    return L


def cname(n): return 'w_' + n.replace('.', '_')


def run(ctx, res):
    L = specs(); quick = ctx.tier == 'quick'
    pre = '#include <stdbool.h>\n' + '\n'.join('#include <bfdev/%s.h>' % h for h in ('atomic', 'cmpxchg', 'bitops', 'refcount', 'llist'))
    lines = [(x[0].split('.')[0], x[1]) for x in L]
    for dbg in ctx.configs:
        m = ctx.instantiate('atomics%d' % dbg, pre, lines, res, debug=dbg)
        for e in L:
            nm, _, names, spec, plain = e[:5]; word = ('w', e[5] if len(e) > 5 else 0)
            f = m.fn(cname(nm))
            if f is None: continue
            api = 'bfdev_' + nm.split('.')[0]
            loc = where(f, api)
            n = 0; ok = True

            def case(oracle):
                s = Shared([m], oracle, ['w'], 2 if quick else 4)
                args = [P('w')]; vals = []
                for a in names:
                    if a[0] == '*': args.append(P('e')); s.mem[('e', 0)] = (('o', 'e0'), 8); vals.append(('o', 'e0'))
                    else: args.append(('o', a)); vals.append(('o', a))
                try:
                    r = s.run(f, args)
                    return judge(s, r, vals)
                except Bad as b: return 'bad', b.text, b.ins
                except Bound: return 'bad', 'does not end although nothing interferes', s.where
                except (Stuck, anf.Stuck, anf.Blowup) as b: return 'stuck', str(b), None

            def judge(s, r, vals):
                ev = s.ev
                for k, od, key, ob, new, ins in ev:
                    if key is not None and key != word: return 'bad', 'accesses another word', ins
                    if k == 'narrow': return 'bad', 'reads only a part of the shared word', ins
                    if k == 'plainwrite' or k == 'write' and not plain: return 'bad', 'stores to the shared word with a plain store, losing concurrent updates', ins
                    if k == 'rmw' and od not in ('seq_cst', 'acq_rel'): return 'bad', 'the read-modify-write has only %s ordering' % od, ins
                mods = [x for x in ev if x[0] in ('rmw', 'write')]
                if len(mods) > 1: return 'bad', 'modifies the shared word twice', mods[1][5]
                cand = mods or [x for x in ev if x[0] == 'read']
                if not cand: return 'bad', 'the shared word is not accessed atomically', ev[-1][5] if ev else None
                first = None
                for k, od, key, ob, new, ins in cand:
                    D = Dom()
                    cond = condition(D, s)
                    if cond == ZERO: raise Infeasible()
                    und = None if cond == ONE else cond
                    o = conv(D, ob) if ob is not None else D.atom(('ext', 'any'), 64)
                    sp = spec(D, o, *[conv(D, v) for v in vals])
                    bad = None

                    def same(g, w):
                        if und is not None:
                            g, w = (tuple(anf.mul(und, b) for b in q) for q in (g, w))
                        return D.differ(g, w)
                    try:
                        st = conv(D, new) if mods else o
                        if same(st, sp['new']): bad = 'the value stored is not the specified function of the value replaced' if mods else 'returns without the specified modification'
                        if not bad and 'ret' in sp:
                            if r is None: return 'stuck', 'no result', None
                            w = sp['ret']
                            if same(conv(D, s.force(r), len(w)), w): bad = 'the result is not the specified function of the value the operation replaced'
                        if not bad and 'out' in sp and ('e', 0) in s.mem:
                            if same(conv(D, s.force(s.mem[('e', 0)][0])), sp['out']): bad = 'the old value returned is not the value the operation replaced'
                    except (anf.Stuck, anf.Blowup) as b: first = ('stuck', str(b), ins); continue
                    if not bad: return 'ok', '', None
                    first = first or ('bad', bad, ins)
                return first
            try:
                for k, text, ins in explore(case, 2000):
                    n += 1
                    if k == 'bad':
                        ok = False
                        res.bad('%s:%s' % (api, text), ins.where if ins is not None else loc, 'linearisation', '%s: %s' % (api, text)); break
                    if k == 'stuck' and ok: ok = False; res.undecided(nm, text)
            except Stuck as b: ok = False; res.undecided(nm, str(b))
            res.count('paths', n)
            if ok: res.count('operations')
        lists(ctx, res, dbg, quick)
    res.need('operations', 60)


def where(f, api): return '%s:%d (%s)' % (relf(f.file), f.line, api)


def lists(ctx, res, dbg, quick):
    hdr, lib = ctx.hdr(dbg), ctx.lib(dbg)

    def get(n):
        for m in (hdr, lib):
            f = m.fn(n)
            if f is not None and not f.decl: return f
        raise AnalysisBroken('%s not found' % n)

    class LL(Shared):
        """head->next is shared and leads to any node; nodes in the list are not modified by others"""
        def split(s, key):
            if key[0][0] == 'n' and key[1] == 0: return ('o', ('next', key[0]))
            raise Stuck('cell %s' % (key,))

        def observe(s, key):
            s.nobs += 1
            c = s.choose([True, False])
            return P('n%d' % s.nobs) if c else 0

    def go(nm, args, judge):
        f = get(nm); n = 0

        def case(oracle):
            s = LL([hdr, lib], oracle, ['head'], 2 if quick else 4)
            try:
                r = s.run(f, args(s))
                for k, od, key, ob, new, ins in s.ev:
                    if key is not None and key != ('head', 0): return 'bad', 'accesses another part of the head', ins
                    if k in ('plainwrite', 'write'): return 'bad', 'stores to the head with a plain store, losing concurrent updates', ins
                    if k == 'rmw' and od not in ('seq_cst', 'acq_rel'): return 'bad', 'publishes with only %s ordering' % od, ins
                mods = [x for x in s.ev if x[0] == 'rmw']
                if len(mods) > 1: return 'bad', 'modifies the head twice', mods[1][5]
                t = judge(s, s.force(r), mods[0] if mods else None)
                return ('bad', t, mods[0][5] if mods else None) if t else ('ok', '', None)
            except Bad as b: return 'bad', b.text, b.ins
            except Bound: return 'bad', 'does not end although nothing interferes', s.where
            except (Stuck, anf.Stuck) as b: return 'stuck', str(b), None
        ok = True
        for k, text, ins in explore(case, 5000):
            n += 1
            if k == 'bad': ok = False; res.bad('%s:%s' % (nm, text), ins.where if ins is not None else where(f, nm), 'linearisation', '%s: %s' % (nm, text)); break
            if k == 'stuck': ok = False; res.undecided(nm, text); break
        res.count('paths', n)
        if ok: res.count('operations')

    def pushed(node, end):
        def judge(s, r, m):
            if m is None: return 'returns without having added the node'
            k, od, key, ob, new, ins = m
            if new != P(node): return 'publishes something else than the first new node'
            if s.force(s.read(end, 0)) != ob: return 'the last new node does not lead to the node the head led to'
            if bool(r) != (ob == 0): return 'the result does not say whether the list was empty'
            for (o, off), i in s.written.items():
                if o not in (end,) and not isinstance(o, tuple): return 'writes to something else'
            return None
        return judge
    go('bfdev_llist_add', lambda s: [P('head'), P('node')], pushed('node', 'node'))
    go('bfdev_llist_split', lambda s: [P('head'), P('node'), P('end')], pushed('node', 'end'))

    def popped(s, r, m):
        if m is None:
            if r != 0: return 'returns a node without having removed it'
            if not any(x[0] == 'read' and x[3] == 0 for x in s.ev): return 'reports an empty list without having seen it empty'
            return None
        k, od, key, ob, new, ins = m
        if ob == 0: return 'removes a node from an empty list'
        if r != ob: return 'the node returned is not the one removed'
        if new != s.force(s.read(ob[1], 0)): return 'the head does not lead to the node after the one removed'
        return None

    def taken(s, r, m):
        if m is None: return None if r == 0 and any(x[0] == 'read' and x[3] == 0 for x in s.ev) else 'returns without having emptied the list'
        if m[4] != 0: return 'the list is not empty afterwards'
        if r != m[3]: return 'the result is not the chain the list held'
        return None

    def dels(s): return [P('head')]
    go('bfdev_llist_del', dels, popped)
    go('bfdev_llist_destroy', dels, taken)
