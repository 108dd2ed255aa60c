from common import *
from anf import *
from par import par
RULE = 'the helper gives the defined value for every value of its operands, in the type of its operands'
EXPLANATION = 'Every helper macro is instantiated for the integer types and interpreted on open operands; the relation of two operands is split by their first differing bit, a value against an alignment by its lowest set bit and its trailing ones, a pointer by the bits that make it an error value; the double word division of a divisor whose top bit is set is split by the order of the words.'
TY = {'u8': ('uint8_t', 8, 0), 's8': ('int8_t', 8, 1), 'u16': ('uint16_t', 16, 0), 's16': ('int16_t', 16, 1), 'u32': ('uint32_t', 32, 0), 's32': ('int32_t', 32, 1), 'u64': ('uint64_t', 64, 0), 's64': ('int64_t', 64, 1)}
PRE = r'''
#include <bfdev.h>
#include <bfdev/align.h>
#include <bfdev/minmax.h>
#include <bfdev/math.h>
#include <bfdev/macro.h>
#include <bfdev/circle.h>
#include <bfdev/errptr.h>
#include <bfdev/dword.h>
const unsigned long off_eperm = BFDEV_EPERM, off_errmax = BFDEV_ERRNO_MAX;
'''
U = ('u8', 'u16', 'u32', 'u64')
LINES = []
for t, (c, w, sg) in TY.items():
    for m in ('min', 'max'):
        LINES += [('bfdev_' + m, '%s w_%s_%s(%s a, %s b) { return bfdev_%s(a, b); }' % (c, m, t, c, c, m)), ('bfdev_%s_adj' % m, '%s w_%s_adj_%s(%s a, %s b) { bfdev_%s_adj(a, b); return a; }' % (c, m, t, c, c, m))]
    LINES += [('bfdev_clamp', '%s w_clamp_%s(%s v, %s a, %s b) { return bfdev_clamp(v, a, b); }' % (c, t, c, c, c)), ('bfdev_clamp_adj', '%s w_clamp_adj_%s(%s v, %s a, %s b) { bfdev_clamp_adj(v, a, b); return v; }' % (c, t, c, c, c)),
              ('bfdev_swap', 'void w_swap_%s(%s *a, %s *b) { bfdev_swap(*a, *b); }' % (t, c, c))]
for t in U:
    c = TY[t][0]
    for a in U + ('s32',):
        if TY[a][1] > TY[t][1] and a != 's32': continue
        A = TY[a][0]
        for m in ('low', 'high'):
            LINES += [('bfdev_align_' + m, '%s w_align_%s_%s_%s(%s v, %s a) { return bfdev_align_%s(v, a); }' % (c, m, t, a, c, A, m)), ('bfdev_align_%s_adj' % m, '%s w_align_%s_adj_%s_%s(%s v, %s a) { bfdev_align_%s_adj(v, a); return v; }' % (c, m, t, a, c, A, m))]
        LINES += [('bfdev_align_check', '_Bool w_align_check_%s_%s(%s v, %s a) { return bfdev_align_check(v, a); }' % (t, a, c, A))]
        for m in ('round_up', 'round_down'): LINES.append(('bfdev_' + m, '%s w_%s_%s_%s(%s v, %s a) { return bfdev_%s(v, a); }' % (c, m, t, a, c, A, m)))
for a in ('u32', 'u64', 's32'):
    A = TY[a][0]
    for m in ('low', 'high'):
        LINES += [('bfdev_align_ptr_' + m, 'uintptr_t w_align_ptr_%s_u64_%s(uintptr_t v, %s a) { return (uintptr_t)bfdev_align_ptr_%s((char *)v, a); }' % (m, a, A, m)), ('bfdev_align_ptr_%s_adj' % m, 'uintptr_t w_align_ptr_%s_adj_u64_%s(uintptr_t v, %s a) { char *p = (char *)v; bfdev_align_ptr_%s_adj(p, a); return (uintptr_t)p; }' % (m, a, A, m))]
    LINES.append(('bfdev_align_ptr_check', '_Bool w_align_ptr_check_u64_%s(uintptr_t v, %s a) { return bfdev_align_ptr_check((char *)v, a); }' % (a, A)))
LINES += [('BFDEV_DIV_ROUND_UP', '%s w_divup_%s(%s n, %s d) { return BFDEV_DIV_ROUND_UP(n, d); }' % (TY[t][0], t, TY[t][0], TY[t][0])) for t in ('u32', 'u64')]
LINES += [('BFDEV_DIV_ROUND_CLOSEST', '%s w_divclose_%s(%s n, %s d) { return BFDEV_DIV_ROUND_CLOSEST(n, d); }' % (TY[t][0], t, TY[t][0], TY[t][0])) for t in ('u32', 's32', 'u64', 's64')]
LINES += [('BFDEV_CIRCLE_' + m, 'unsigned long w_circle_%s(unsigned long h, unsigned long t, unsigned long s) { return BFDEV_CIRCLE_%s(h, t, s); }' % (m, m)) for m in ('CNT', 'SPACE', 'CNT_END', 'SPACE_END')]
LINES += [('BFDEV_ERR_PTR', 'uintptr_t w_err_ptr(int e) { return (uintptr_t)BFDEV_ERR_PTR(e); }')]
LINES += [('BFDEV_' + m, '%s w_%s(uintptr_t p) { return BFDEV_%s((void *)p); }' % (r, m.lower(), m)) for m, r in (('PTR_ERR', 'int'), ('PTR_INVAL', 'int'), ('IS_ERR', '_Bool'), ('IS_INVAL', '_Bool'), ('PTR_ERR_ZERO', 'int'), ('PTR_INVAL_ZERO', 'int'))]
LINES += [('bfdev_cmp', 'int w_cmp(int c) { return bfdev_cmp(c); }'), ('BFDEV_REPEAT_BYTE', 'unsigned long w_repeat(unsigned char c) { return BFDEV_REPEAT_BYTE(c); }')]
OBJ = lambda n: ('obj', n)


def run(ctx, res):
    quick = ctx.tier == 'quick'
    mod = ctx.instantiate('w_p29', PRE, LINES, res); lib = ctx.lib(False)
    from sim import offsets
    K = offsets(mod)

    def go(r, name, file, cases):
        """cases: (label, job(E, D)) - the first difference is reported"""
        for case, job in cases:
            D = Dom(); E = Eval(mod, D)
            try: d = job(E, D)
            except Undefined as e: d = str(e)
            except Exception as e: return r.undecided(name, '%s: %s %s' % (case, type(e).__name__, str(e)[:120]))
            finally: r.count('instructions', E.instrs)
            r.count('obligations')
            if d: return r.bad(name, '%s (%s)' % (file, name), RULE, '%s: %s: %s' % (name, case, d))
        r.count('helpers')
    W = lambda n: need_fn(mod, 'w_' + n)

    def pair(D, w, sg, k, flip):
        """two numbers, the first smaller (k: the first differing bit), or equal (k None); flip exchanges them"""
        a = D.atom('a', w)
        if k is None: return a, a
        b = D.atom('b', w)[:k]; lo, hi = (ONE, ZERO) if sg and k == w - 1 else (ZERO, ONE)
        x, y = a[:k] + (lo,) + a[k + 1:], b + (hi,) + a[k + 1:]
        return (y, x) if flip else (x, y)

    def minmax(r, t):
        c, w, sg = TY[t]; F = 'include/bfdev/minmax.h'
        for m in ('min', 'max'):
            for adj in ('', '_adj'):
                def one(k, flip):
                    def job(E, D):
                        x, y = pair(D, w, sg, k, flip); small, big = (y, x) if flip else (x, y)
                        return D.differ(E.run(W('%s%s_%s' % (m, adj, t)), [x, y], {}), small if m == 'min' else big)
                    return 'operands %s' % ('equal' if k is None else '%s at bit %d' % ('greater' if flip else 'less', k)), job
                go(r, 'bfdev_%s%s' % (m, adj), F, [one(None, 0)] + [one(k, f) for k in range(w) for f in (0, 1)])
        ks = range(w) if w < 32 or not quick else [0, 1, w // 2, w - 3, w - 2, w - 1]
        for adj in ('', '_adj'):
            def one(k, j, side, f2):
                # lo and hi differ first at k (equal: None); v differs from `side` first at j
                def job(E, D):
                    lo, hi = pair(D, w, sg, k, 0); base = hi if side else lo
                    if j is None: v = base; want = v
                    else:
                        o = D.atom('v', w); p = base[j] if base[j] in (ZERO, ONE) else None
                        bit = ONE if f2 else ZERO
                        if p is None:
                            # fix the shared bit to the opposite value
                            q = pnot(bit); lo2 = lo[:j] + (q,) + lo[j + 1:]; hi2 = (hi[:j] + (q,) + hi[j + 1:]) if (k is None or j > k) else hi
                            if k is not None and j < k and side: lo2, hi2 = lo, hi[:j] + (q,) + hi[j + 1:]
                            lo, hi = lo2, hi2; base = hi if side else lo
                        elif p == bit: return None
                        v = o[:j] + (bit,) + base[j + 1:]
                        less = (bit == ZERO) != (sg and j == w - 1)
                        if k is None or j > k: want = lo if less else hi
                        elif j == k: return None
                        else: want = (v if less else hi) if side else (lo if less else v)
                    return D.differ(E.run(W('clamp%s_%s' % (adj, t)), [v, lo, hi], {}), want)
                return 'limits differ at %s, value and the %s limit at %s' % (k, 'upper' if side else 'lower', j), job
            go(r, 'bfdev_clamp' + adj, F, [one(k, j, s, f) for k in [None] + list(ks) for j in [None] + list(ks) for s in (0, 1) for f in ((0, 1) if j is not None else (0,))])

        def swap(E, D):
            mem = {}; n = w // 8; E.run(W('swap_' + t), [P(OBJ('a'), 0), P(OBJ('b'), 0)], mem)
            for x, y in (('a', 'b'), ('b', 'a')):
                for i in range(n):
                    d = D.differ(E.byte(mem, OBJ(x), i), D.atom(('m', OBJ(y), i), 8))
                    if d: return 'the values are not exchanged'
        go(r, 'bfdev_swap', 'include/bfdev/macro.h', [(c, swap)])

    def value(D, w, k, j, t):
        """lowest set bit j below bit k (None: none), t trailing ones from bit k"""
        a = D.atom('v', w); low = (ZERO,) * k if j is None else (ZERO,) * j + (ONE,) + a[j + 1:k]
        if j is None: hi = (ZERO,) * t + ((ONE,) + a[k + t + 1:] if k + t < w else ())
        else: hi = (ONE,) * t + ((ZERO,) + a[k + t + 1:] if k + t < w else ())
        return low + hi, hi

    def align(r, t, al, ptr=''):
        c, w, sg = TY[t]; wa = TY[al][1] - (al == 's32')
        def split(k):
            if w <= 8 or not quick and w <= 16: js, ts = [None] + list(range(k)), range(w - k + 1)
            else: js, ts = [None] + sorted({0, 1, k // 2, k - 1} & set(range(k))), sorted({0, 1, 2, (w - k) // 2, w - k - 1, w - k} & set(range(w - k + 1)))
            return [(j, x) for j in js for x in ts]
        names = [('align_%slow' % ptr, 0), ('align_%slow_adj' % ptr, 0), ('align_%shigh' % ptr, 1), ('align_%shigh_adj' % ptr, 1)] + ([] if ptr else [('round_up', 1), ('round_down', 0)])
        for nm, up in names:
            def one(k, j, x):
                def job(E, D):
                    if j == 'open': v = D.atom('v', w)
                    else: v, hi = value(D, w, k, j, x)
                    got = E.run(W('%s_%s_%s' % (nm, t, al)), [v, D.const(1 << k, TY[al][1])], {})
                    if not up: want = (ZERO,) * k + v[k:]
                    elif j is None: want = v
                    else: want = (ZERO,) * k + ((ZERO,) * x + ((ONE,) + v[k + x + 1:] if k + x < w else ()))
                    return D.differ(got, want)
                return 'alignment %d, low bits %s, high bits %s' % (1 << k, 'zero' if j is None else 'lowest %s' % j, x), job
            go(r, 'bfdev_' + nm, 'include/bfdev/%s' % ('math.h' if 'round' in nm else 'align.h'), [one(k, j, x) for k in range(min(w, wa)) for j, x in ([('open', 0)] if not up else split(k))])
        def chk(k, j):
            def job(E, D):
                v, hi = value(D, w, k, j, 0)
                if j is None: v = (ZERO,) * k + D.atom('v', w)[k:]
                else: v = v[:k] + D.atom('v', w)[k:]
                return D.differ(E.run(W('align_%scheck_%s_%s' % (ptr, t, al)), [v, D.const(1 << k, TY[al][1])], {})[:1], (ONE if j is None else ZERO,))
            return 'alignment %d, %s' % (1 << k, 'aligned' if j is None else 'bit %d set' % j), job
        go(r, 'bfdev_align_%scheck' % ptr, 'include/bfdev/align.h', [chk(k, j) for k in range(min(w, wa)) for j in [None] + list(range(k))])

    def small(r):
        s = lambda v, w: v & (1 << w) - 1
        for t in ('u32', 'u64'):
            w = TY[t][1]
            def one(n, d): return '%d / %d' % (n, d), lambda E, D: D.differ(E.run(W('divup_' + t), [D.const(n, w), D.const(d, w)], {}), D.const(-(-n // d), w))
            go(r, 'BFDEV_DIV_ROUND_UP', 'include/bfdev/math.h', [one(n, d) for n in range(26) for d in range(1, 10)] + [one(b * q + e, b) for b in (1 << 20, 12345, 4093) for q in (0, 1, 7) for e in (0, 1, b - 1)])
        for t in ('u32', 's32', 'u64', 's64'):
            w, sg = TY[t][1:]
            def close(n, d):
                q = (2 * abs(n) + abs(d)) // (2 * abs(d)) if abs(d) % 2 == 0 else (abs(n) + abs(d) // 2) // abs(d)
                return -q if (n < 0) != (d < 0) else q
            def one(n, d): return '%d / %d' % (n, d), lambda E, D: D.differ(E.run(W('divclose_' + t), [D.const(s(n, w), w), D.const(s(d, w), w)], {}), D.const(s(close(n, d), w), w))
            go(r, 'BFDEV_DIV_ROUND_CLOSEST', 'include/bfdev/math.h', [one(n, d) for n in range(-20 if sg else 0, 21) for d in range(-8 if sg else 1, 9) if d] + [one(b * q + e, b) for b in (1 << 20, 12345) for q in (0, 1, 7) for e in (0, 1, b // 2 - 1, b // 2, b // 2 + 1, b - 1)])
        for size in (1, 2, 4, 8, 16):
            C = lambda h, t: {'CNT': (h - t) % size, 'SPACE': size - 1 - (h - t) % size, 'CNT_END': min((h - t) % size, size - t), 'SPACE_END': min(size - 1 - (h - t) % size, size - h)}
            for m in ('CNT', 'SPACE', 'CNT_END', 'SPACE_END'):
                def one(h, t): return 'head %d, tail %d of %d' % (h, t, size), lambda E, D: D.differ(E.run(W('circle_' + m), [D.const(h, 64), D.const(t, 64), D.const(size, 64)], {}), D.const(C(h, t)[m], 64))
                go(r, 'BFDEV_CIRCLE_' + m, 'include/bfdev/circle.h', [one(h, t) for h in range(size) for t in range(size)])
        for k in range(64):
            # counters that run freely
            for m, f in (('CNT', lambda D, h, t: D.sub(h, t)), ('SPACE', lambda D, h, t: D.mksum([(1, t), (-1, h)], -1, 64))):
                def job(E, D):
                    h, t = D.atom('h', 64), D.atom('t', 64); return D.differ(E.run(W('circle_' + m), [h, t, D.const(1 << k, 64)], {}), D.band(f(D, h, t), D.const((1 << k) - 1, 64)))
                go(r, 'BFDEV_CIRCLE_' + m, 'include/bfdev/circle.h', [('any counters, size 2^%d' % k, job)])

    def errptr(r):
        F = 'include/bfdev/errptr.h'; EP = (-K['eperm']) & 0xffffffff
        go(r, 'BFDEV_ERR_PTR', F, [('every code', lambda E, D: D.differ(E.run(W('err_ptr'), [D.atom('e', 32)], {}), D.sext(D.atom('e', 32), 64)))])
        go(r, 'BFDEV_PTR_ERR', F, [('every pointer', lambda E, D: D.differ(E.run(W('ptr_err'), [D.atom('p', 64)], {}), D.atom('p', 64)[:32]))])
        go(r, 'bfdev_cmp', 'include/bfdev/macro.h', [('condition %d' % v, lambda E, D, v=v: D.differ(E.run(W('cmp'), [D.const(v, 32)], {}), D.const(1 if v else 0xffffffff, 32))) for v in (0, 1, 2)] + [('bit %d' % k, lambda E, D, k=k: D.differ(E.run(W('cmp'), [D.atom('c', 32)[:k] + (ONE,) + D.atom('c', 32)[k + 1:]], {}), D.const(1, 32))) for k in range(32)])
        go(r, 'BFDEV_REPEAT_BYTE', 'include/bfdev/macro.h', [('every byte', lambda E, D: D.differ(E.run(W('repeat'), [D.atom('c', 8)], {}), D.atom('c', 8) * 8))])
        B = (K['errmax'] - 1).bit_length()
        if K['errmax'] != 1 << B: raise Broken('the number of error values is no power of two')
        parts = [('null', 0, lambda a: (ZERO,) * 64)]
        # error values: the high bits are all ones
        parts += [('an error value', 1, lambda a: a[:B] + (ONE,) * (64 - B))]
        # others: a zero among the high bits (the highest at j), and one bit set (the lowest at i); the low 32 bits separately
        for j in range(B, 64):
            for i in range(64):
                if i != j: parts.append(('no error value: highest zero %d, lowest one %d' % (j, i), 2, lambda a, i=i, j=j: None if i > j and i != j + 1 else (ZERO,) * i + (ONE,) + a[i + 1:j] + (ZERO,) + (ONE,) * (63 - j) if i < j else (ZERO,) * i + (ONE,) * (64 - i)))
        def case(nm, lab, kind, mk):
            def job(E, D):
                v = mk(D.atom('p', 64))
                if v is None: return None
                got = E.run(W(nm), [v], {}); low = v[:32]; z = D.cval(low) == 0
                inval = D.const(EP, 32) if z else low
                if nm == 'is_err': return D.differ(got[:1], (ONE if kind == 1 else ZERO,))
                if nm == 'is_inval': return D.differ(got[:1], (ONE if kind < 2 else ZERO,))
                if nm == 'ptr_err_zero': return D.differ(got, low if kind == 1 else D.const(0, 32))
                if nm == 'ptr_inval_zero': want = inval if kind < 2 else D.const(0, 32)
                else: want = inval
                if kind == 1:
                    # the code is never zero
                    pass
                return D.differ(got, want)
            return lab, job
        for nm in ('is_err', 'is_inval', 'ptr_err_zero', 'ptr_inval_zero', 'ptr_inval'):
            go(r, 'BFDEV_' + nm.upper(), F, [case(nm, *p) for p in parts])

    def dword(r):
        F = 'src/dword.c'; f = need_fn(lib, 'bfdev_dword_generic_udivd')
        def words(D, rel, n, w, top):
            k, flip = rel
            x, y = pair(D, w, 0, k, flip); R = lambda v: tuple(v)
            return x, y
        def one(h, l):
            def job(E, D):
                E.mod = lib
                # the words of the dividend against those of the divisor; the top bit of the divisor is set
                a = D.atom('h', 64); b = D.atom('i', 64)
                def rel(k, flip, a, b):
                    if k is None: return a, a
                    x, y = a[:k] + (ZERO,) + a[k + 1:], b[:k] + (ONE,) + a[k + 1:]
                    return (y, x) if flip else (x, y)
                n1, d1 = rel(h[0], h[1], a, b); n0, d0 = rel(l[0], l[1], D.atom('l', 64), D.atom('m', 64))
                if d1[63] == ZERO: return None
                if d1[63] != ONE: n1, d1 = (n1[:63] + (ONE,), d1[:63] + (ONE,))
                less = h[0] is not None and not h[1] or h[0] is None and l[0] is not None and not l[1]
                mem = {}
                for o, v in (('src', (n0, n1)), ('div', (d0, d1))):
                    for i in range(16): mem[(OBJ(o), i)] = v[i // 8][8 * (i % 8):8 * (i % 8) + 8]
                E.run(f, [P(OBJ('quot'), 0), P(OBJ('rem'), 0), P(OBJ('src'), 0), P(OBJ('div'), 0)], mem)
                got = [D.cval(tuple(x for i in range(8) for x in E.byte(mem, OBJ('quot'), 8 * q + i))) for q in (0, 1)]
                if got != [int(not less), 0]: return 'the quotient is %s' % got
                if less:
                    for i in range(16):
                        d = D.differ(E.byte(mem, OBJ('rem'), i), mem[(OBJ('src'), i)])
                        if d: return 'the remainder of a smaller dividend is not the dividend'
            return 'high words %s, low words %s' % tuple('equal' if x[0] is None else '%s at bit %d' % ('greater' if x[1] else 'less', x[0]) for x in (h, l)), job
        R = [(None, 0)] + [(k, fl) for k in (range(64) if not quick else (0, 1, 17, 40, 62, 63)) for fl in (0, 1)]
        go(r, 'bfdev_dword_generic_udivd', F, [one(h, l) for h in R for l in R])
    jobs = [lambda r, t=t: minmax(r, t) for t in TY]
    jobs += [lambda r, t=t, a=a: align(r, t, a) for t in U for a in U + ('s32',) if TY[a][1] <= TY[t][1] or a == 's32']
    jobs += [lambda r, a=a: align(r, 'u64', a, 'ptr_') for a in ('u32', 'u64', 's32')]
    jobs += [small, errptr, dword]
    par(res, jobs, 8)
    res.need('helpers', 200)
