from common import *
from anf import *
from run import Run
from par import par
RULE = 'every operation returns, stores and hands out exactly what a bounded queue (overwriting queue) of the same history does'
EXPLANATION = 'The FIFO and ring buffer macros are instantiated for element sizes 1, 2, 3, 4, 8 and 24, static and dynamic, plain and with one and two byte record lengths, and followed over LLVM IR with symbolic element contents for every fill level, position and length around the capacity, including counters about to wrap; the elements handed out are compared with the queue of the history.'
TYPES = [('c', 'char', 1), ('s', 'short', 2), ('t', 'struct e3', 3), ('i', 'int', 4), ('l', 'long', 8), ('g', 'struct e24', 24)]


def variants(quick):
    v = []
    for k in ('fifo', 'ringbuf'):
        for tn, t, e in TYPES:
            for n in ((2, 4) if e == 1 or not quick else (2,) if e in (2, 8) else (4,)): v.append((k, tn, t, e, n, 0, False))
        for tn, t, e in TYPES:
            if quick and e in (2, 8): continue
            v.append((k, tn, t, e, 4, 0, True))
        for r in (1, 2):
            for tn, t, e in TYPES:
                if quick and e not in (1, 3, 8): continue
                v.append((k, tn, t, e, 8, r, False))
            v.append((k, 'c', 'char', 1, 8, r, True))
        v.append((k, 'c', 'char', 1, 512, 2, False))
        v.append((k, 'l', 'long', 8, 8, 1, True))
    return v


def name(v): return '%s_%s%d_%d%s' % (v[0], v[1], v[4], v[5], 'd' if v[6] else '')


def source(vs):
    L = []
    for v in vs:
        k, tn, t, e, n, r, dyn = v; nm = name(v); S = 'struct s_' + nm; K = k.upper()
        if dyn: body = 'BFDEV_STRUCT_%s_DYNAMIC_RECORD(%s, %d)' % (K, t, r) if r else 'BFDEV_DECLARE_STRUCT_%s_DYNAMIC(%s)' % (K, t)
        else: body = 'BFDEV_STRUCT_%s_RECORD(%s, %d, %d)' % (K, t, n, r) if r else 'BFDEV_STRUCT_%s(%s, %d)' % (K, t, n)
        T = 't_' + nm
        L.append(('%s %s' % (k, body), 'typedef %s %s; unsigned long sz_%s(void) { return sizeof(%s); }' % (body, T, nm, T)))
        a = lambda api, text: L.append(('bfdev_%s_%s' % (k, api), text.replace('@', nm).replace('T_', T).replace('K_', 'bfdev_%s_' % k).replace('E_', t).replace('Q_', k)))
        a('init', 'void init_@(T_ *p) { *p = BFDEV_%s(p); }' % (K + '_DYNAMIC_INIT' if dyn else K + '_INIT'))
        a('setpos', 'void pos_@(T_ *p, unsigned long i) { p->Q_.in = p->Q_.out = i; }')
        for q in ('len', 'check_empty', 'check_full', 'size', 'esize', 'recsize'): a(q, 'unsigned long %s_@(T_ *p) { return K_%s(p); }' % (q, q))
        a('initialized', 'bool initialized_@(T_ *p) { return !!K_initialized(p); }')
        a('check_dynamic', 'bool dynamic_@(T_ *p) { return K_check_dynamic(p); }')
        a('check_dynamic', 'bool dynamic2_@(T_ *p) { return K_check_dynamic(&p[0]); }')
        a('reset', 'void reset_@(T_ *p) { K_reset(p); }')
        a('homing', 'void homing_@(T_ *p) { K_homing(p); }')
        a('put', 'unsigned long put_@(T_ *p, E_ *v) { return K_put(p, *v); }')
        a('get', 'unsigned long get_@(T_ *p, E_ *v) { return K_get(p, v); }')
        a('peek', 'unsigned long peek_@(T_ *p, E_ *v) { return K_peek(p, v); }')
        a('in', 'unsigned long in_@(T_ *p, const E_ *v, unsigned long n) { return K_in(p, v, n); }')
        a('out', 'unsigned long out_@(T_ *p, E_ *v, unsigned long n) { return K_out(p, v, n); }')
        a('out_peek', 'unsigned long out_peek_@(T_ *p, E_ *v, unsigned long n) { return K_out_peek(p, v, n); }')
        a('alloc', 'long alloc_@(T_ *p, unsigned long n) { return K_alloc(p, NULL, n); }')
        a('free', 'void free_@(T_ *p) { K_free(p); }')
    # the definition forms
    for k in ('fifo', 'ringbuf'):
        K = k.upper()
        for i, (d, ini) in enumerate((('BFDEV_DEFINE_%s(d0_%s, int, 4)', 0), ('BFDEV_DEFINE_%s_RECORD(d1_%s, char, 8, 1)', 0), ('BFDEV_DEFINE_%s_DYNAMIC(d2_%s, int)', 1), ('BFDEV_DEFINE_%s_DYNAMIC_RECORD(d3_%s, char, 1)', 1))):
            L.append((d % (K, k), '%s; unsigned long def%d_%s(void) { return sizeof(d%d_%s); }' % (d % (K, k), i, k, i, k)))
    return L


class Model:
    """the queue of the history: plain: elements; records: lists of elements"""
    def __init__(s, kind, n, r): s.kind = kind; s.n = n; s.r = r; s.q = []; s.used = 0

    def copy(s):
        m = Model(s.kind, s.n, s.r); m.q = list(s.q); m.used = s.used; return m

    def insert(s, els):
        """result count"""
        if not s.r:
            if s.kind == 'fifo': els = els[:s.n - len(s.q)]; s.q += els
            else: els = els[:s.n]; s.q = (s.q + els)[-s.n:]
            s.used = len(s.q); return len(els)
        if s.kind == 'fifo':
            if s.used + s.r + len(els) > s.n: return 0
        else:
            els = els[:s.n - s.r]
            while s.used + s.r + len(els) > s.n: s.used -= s.r + len(s.q.pop(0))
        s.q.append(els); s.used += s.r + len(els); return len(els)

    def front(s, n):
        if not s.r: return s.q[:n]
        return s.q[0][:n] if s.q else []

    def take(s, n):
        o = s.front(n)
        if not s.r: s.q = s.q[len(o):]; s.used = len(s.q)
        elif s.q: s.used -= s.r + len(s.q.pop(0))
        return o


class Sim:
    """one structure instance under analysis"""
    def __init__(s, chk, v, base):
        s.chk = chk; s.v = v; s.nm = name(v); s.R = Run([chk.m, chk.lib], chk.D); s.serial = 0; s.M = Model(v[0], v[4], v[5])
        n = s.R.const(s.R.call(chk.fn('sz', s), []))
        s.p = s.R.obj('the structure', n, None); s.R.call(chk.fn('init', s), [s.p])
        if v[6]:
            r = s.R.const(s.R.call(chk.fn('alloc', s), [s.p, v[4] - (1 if v[4] > 2 else 0)]))
            if r != 0: raise Wrong('alloc', 'the allocation fails although memory is available')
            if list(s.R.heap.values()) != [v[4] * v[3]]: raise Wrong('alloc', 'the buffer has not the size of the rounded up capacity')
        # where the two counters live, as observed by storing to them
        s.R.begin(); s.R.call(chk.fn('pos', s), [s.p, base])
        s.ctr = sorted({o for k, b, o, n in s.R.log if k == 'w' and b == s.p.base})

    def copy(s):
        c = Sim.__new__(Sim); c.__dict__.update(s.__dict__); c.R = s.R.copy(); c.M = s.M.copy(); return c

    def els(s, n):
        s.serial += 1
        return [('e', s.serial, i) for i in range(n)]

    def load(s, el): return [s.chk.D.atom(('m',) + el + (b,), 8) for b in range(s.v[3])]

    def q(s, api): s.R.begin(); return s.R.const(s.R.call(s.chk.fn(api, s), [s.p]))

    def io(s, api, n, ro=()):
        """run one operation; api in in/put (data given), out/get/out_peek/peek (data wanted)"""
        v = s.v; e = v[3]; D = s.chk.D; single = api in ('put', 'get', 'peek'); cnt = 1 if single else n
        ins = api in ('in', 'put')
        data = s.els(cnt) if ins else None
        buf = s.R.obj('the caller\'s buffer', cnt * e, None)
        if ins:
            for i, el in enumerate(data):
                for b, x in enumerate(s.load(el)): s.R.mem[(buf.base, i * e + b)] = x
        old = s.M.copy(); full = s.M.used >= s.M.n
        before = dict(s.R.mem)
        s.R.begin()
        r = s.R.const(s.R.call(s.chk.fn(api, s), [s.p, buf] + ([] if single else [n])))
        t = s.R.touched((buf.base,) if ins else ())
        if t: raise Wrong(api, t)
        if r is None: raise Wrong(api, 'the result is undefined')
        if ins:
            want = s.M.insert(data)
            if api == 'put' and v[0] == 'ringbuf' and not v[5]: want = int(full); r = int(bool(r))
        else:
            w = s.M.take(cnt) if 'peek' not in api else s.M.front(cnt)
            want = len(w)
        if r != want: raise Wrong(api, 'the result is %d instead of %d' % (r, want))
        if not ins:
            for i, el in enumerate(w):
                g = s.R.bytes(buf, e, i * e)
                if any(x is None for x in g) or list(g) != s.load(el): raise Wrong(api, 'element %d handed out is not element %d of the queue' % (i, i))
            for i in range(len(w) * e, cnt * e):
                if s.R.mem[(buf.base, i)] is not None: raise Wrong(api, 'writes beyond the elements it reports')
        # which counters change, and that the data was moved before
        obj = [(k, b, o, n2) for k, b, o, n2 in s.R.log if b == s.p.base or b in s.R.heap]
        chg = [o for o in s.ctr if any(s.R.mem[(s.p.base, o + i)] != before[(s.p.base, o + i)] for i in range(8))]
        if 'peek' in api and any(k == 'w' for k, b, o, n2 in obj): raise Wrong(api, 'changes the structure')
        if v[0] == 'fifo':
            if len(chg) > 1: raise Wrong(api, 'changes the counters of both sides')
            if 'peek' not in api:
                mv = [i for i, (k, b, o, n2) in enumerate(s.R.log) if k == 'w' and b == s.p.base and o in s.ctr]
                off = {o for k, b, o, n2 in s.R.log if k == 'w' and b == s.p.base and o in s.ctr}
                if len(off) > 1: raise Wrong(api, 'writes the counter of the other side')
                if off and s.side.setdefault(ins, off) != off: raise Wrong(api, 'writes the counter of the other side')
                if off and len(s.side) == 2 and s.side[True] == s.side[False]: raise Wrong(api, 'both sides write the same counter')
                if mv and want:
                    other = buf.base
                    for i, (k, b, o, n2) in enumerate(s.R.log):
                        if i > mv[0] and (b == other and k == ('r' if ins else 'w') or s.isdata(b, o) and k == ('w' if ins else 'r')): raise Wrong(api, 'moves its counter before the data is copied')
        s.R.drop(buf)
        n2 = s.q('len')
        if n2 != s.M.used: raise Wrong(api, 'the length afterwards is %s instead of %d' % (n2, s.M.used))
        return r

    side = {}

    def isdata(s, b, o):
        if b in s.R.heap: return True
        return b == s.p.base and isinstance(o, int) and any(k[0] == b and len(k) == 3 and isinstance(q, P) and q.base == b and o >= q.off for k, q in s.R.mem.items())

    def drain(s, api):
        """everything left, compared by the queue"""
        for _ in range(40):
            if not s.M.used: break
            s.io('out', s.M.n + 1)
        if s.M.used: raise Wrong(api, 'elements remain')
        s.io('out', s.M.n)


def quick_base(quick, base): return quick and base


class Wrong(Exception):
    def __init__(s, api, text): super().__init__(text); s.api = api; s.text = text


class Check:
    def __init__(s, ctx, res, m, lib, quick):
        s.res = res; s.m = m; s.lib = lib; s.quick = quick; s.dead = set(); s.D = Dom()

    def fn(s, api, sim):
        f = s.m.fn('%s_%s' % (api, sim.nm))
        if f is None: raise Stuck('no instantiation of %s' % api)
        return f

    def case(s, v, what, body):
        k, tn, t, e, n, r, dyn = v
        form = '%s%s%s' % (k, ', records' if r else '', ', dynamic' if dyn else '')
        if (form, e) in s.dead: return False
        R = [None]
        try:
            body(R); s.res.count('cases')
            if R[0] is not None: s.res.count('instructions', R[0].R.E.instrs)
            return True
        except Wrong as x: api, text = x.api, x.text
        except Undefined as x: api, text = 'operation', 'undefined: %s' % x
        except Endless as x:
            if not R[0].R.E.nofork: return s.stuck(form, e, x)
            api, text = 'operation', 'does not end'
        except (Stuck, Blowup, TypeError, KeyError, RecursionError, AttributeError) as x:
            t2 = R[0].R.touched() if R[0] is not None and R[0].R.E.nofork else None
            if not t2: return s.stuck(form, e, x)
            api, text = 'operation', t2
        s.res.count('cases')
        s.res.bad('%s:%s' % (form, api), 'include/bfdev/%s.h, src/%s.c' % (k, k), 'queue',
                  'bfdev_%s_%s (%s of %d byte elements%s, capacity %d): %s: %s' % (k, api, 'dynamic' if dyn else 'static', e, ', %d byte record length' % r if r else '', n, what, text))
        s.dead.add((form, e))
        return False

    def stuck(s, form, e, x):
        s.res.undecided('%s, %d byte elements' % (form, e), repr(x)[:200]); s.dead.add((form, e)); return False

    def all(s, vs):
        for v in vs:
            Sim.side = {}
            if v[5]: s.records(v)
            else: s.plain(v)
            s.state(v)

    def plain(s, v):
        k, tn, t, e, n, r, dyn = v
        bases = [0, (1 << 64) - n - 1] if s.quick else [0, (1 << 64) - n - 1, (1 << 63) - 2, (1 << 32) - 3]
        for base in bases:
            for o in (range(n) if not quick_base(s.quick, base) else (0, n - 1)):
                try: S0 = Sim(s, v, (base + o) & (1 << 64) - 1)
                except Wrong as x:
                    s.case(v, 'creation', lambda R: (_ for _ in ()).throw(x)); return
                except (Stuck, Blowup, TypeError, AttributeError) as x: s.stuck('%s%s' % (k, ', dynamic' if dyn else ''), e, x); return
                for u in range(n + 1):
                    def fill(R, S0=S0):
                        S = R[0] = S0.copy()
                        if u: S.io('in', u)
                        return S
                    pre = 'position %s%d, %d elements' % ('wrapping ' if base else '', o, u)
                    for api in ('put', 'get', 'peek'):
                        if not s.case(v, pre, lambda R: (fill(R).io(api, 1), R[0].io('put', 1), R[0].drain(api))): return
                    for api in ('in', 'out', 'out_peek'):
                        for c in ((0, 1, n - u, n, n + 1) if s.quick else range(n + 3)):
                            if not s.case(v, '%s, %d asked for' % (pre, c), lambda R: (fill(R).io(api, c), R[0].drain(api))): return

    def records(s, v):
        k, tn, t, e, n, r, dyn = v
        big = n > 64
        for base in ([0, (1 << 64) - 3] if not big else [0]):
            for o in (range(0, n, 1 if not s.quick else 3) if not big else (0, 200)):
                try: S0 = Sim(s, v, (base + o) & (1 << 64) - 1)
                except Wrong as x:
                    s.case(v, 'creation', lambda R: (_ for _ in ()).throw(x)); return
                except (Stuck, Blowup, TypeError, AttributeError) as x: s.stuck('%s, records%s' % (k, ', dynamic' if dyn else ''), e, x); return
                hist = [[], [0], [1], [2], [3], [1, 2], [2, 1], [0, 0], [n - r], [1, 1, 1]] if not big else [[], [300], [5, 258]]
                for h in hist:
                    def fill(R, S0=S0):
                        S = R[0] = S0.copy()
                        for c in h: S.io('in', c)
                        return S
                    pre = 'position %s%d, records of %s' % ('wrapping ' if base else '', o, h)
                    if not big:
                        for api in ('put', 'get', 'peek'):
                            if not s.case(v, pre, lambda R: (fill(R).io(api, 1), R[0].io('put', 1), R[0].drain(api))): return
                    for api in ('in', 'out', 'out_peek'):
                        cs = (0, 1, 2, 4, n - r, n, n + 1) if s.quick else range(n + 2)
                        if big: cs = (256, 511)
                        for c in cs:
                            if not s.case(v, '%s, %d asked for' % (pre, c), lambda R: (fill(R).io(api, c), R[0].io('in', 1), R[0].drain(api))): return

    def state(s, v):
        k, tn, t, e, n, r, dyn = v
        def q(S, api, want, at):
            g = S.q(api)
            if g is None or (g != want if want > 1 else bool(g) != bool(want)): raise Wrong(api, '%s gives %s instead of %s' % (at, g, want))
            if any(x[0] == 'w' and x[1] == S.p.base for x in S.R.log): raise Wrong(api, 'changes the structure')
        def body(R):
            S = R[0] = Sim(s, v, 5 + ((1 << 64) - 8 if not r else 0))
            for f in range(n // (r + 1) + 1):
                at = 'after %d insertions' % f
                q(S, 'check_empty', not S.M.used, at); q(S, 'check_full', S.M.used >= n, at)
                q(S, 'size', n, at); q(S, 'esize', e, at); q(S, 'recsize', r, at); q(S, 'initialized', 1, at); q(S, 'dynamic', dyn, at); q(S, 'dynamic2', dyn, at)
                S.io('put', 1)
            for api in ('reset', 'homing'):
                T = S.copy(); T.q(api); T.M = Model(k, n, r)
                q(T, 'check_empty', 1, 'after ' + api); q(T, 'len', 0, 'after ' + api)
                T.io('in', 1); T.drain(api)
            g = S.R
            g.begin()
            if dyn:
                g.call(s.fn('free', S), [S.p])
                if len(g.freed) != 1: raise Wrong('free', 'does not release the buffer')
                q(S, 'initialized', 0, 'after free')
            else:
                x = g.const(g.call(s.fn('alloc', S), [S.p, 8]))
                if not x or not x >> 63: raise Wrong('alloc', 'a static buffer can be allocated')
        s.case(v, 'state', body)
        if not dyn: return
        def sizes(R):
            for want, ask in ((None, 0), (None, 1), (2, 2), (4, 3), (4, 4), (8, 5), (64, 33)):
                S = R[0] = Sim(s, v, 0); g = S.R; g.heap = {}; S.q('init'); g.begin()
                x = g.const(g.call(s.fn('alloc', S), [S.p, ask]))
                if want is None:
                    if not x or not x >> 63: raise Wrong('alloc', 'a capacity of %d is accepted' % ask)
                else:
                    if x != 0: raise Wrong('alloc', 'a capacity of %d is refused' % ask)
                    if list(g.heap.values()) != [want * e]: raise Wrong('alloc', 'capacity %d: the buffer has not room for %d elements' % (ask, want))
                    q(S, 'size', want, 'capacity %d' % ask)
            S = R[0] = Sim(s, v, 0); g = S.R; S.q('init'); g.begin(); g.failalloc = True
            x = g.const(g.call(s.fn('alloc', S), [S.p, 4]))
            if not x or not x >> 63: raise Wrong('alloc', 'a failed allocation is not reported')
            q(S, 'initialized', 0, 'after a failed allocation')
        s.case(v, 'allocation', sizes)


def run(ctx, res):
    quick = ctx.tier == 'quick'
    vs = variants(quick)
    pre = '#include <stdbool.h>\n#include <bfdev/fifo.h>\n#include <bfdev/ringbuf.h>\nstruct e3 { char c[3]; };\nstruct e24 { long l[3]; };'
    m = ctx.instantiate('queues', pre, source(vs), res, debug=False)
    lib = ctx.lib(False)
    par(res, [lambda r, v=v: Check(ctx, r, m, lib, quick).all([v]) for v in vs])
    res.need('cases', 1000)
