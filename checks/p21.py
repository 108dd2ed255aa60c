from common import *
from anf import *
from par import par
RULE = 'every bit below the size is the specified function of the operand bits, the result likewise; nothing outside the words of the bitmap is read or written'
EXPLANATION = 'Bitmap operations, range set and clear, bit searches, iteration macros, bit operations and mask macros are instantiated twice (size known to the compiler or not) and followed over LLVM IR with symbolic bitmap contents for sizes, shifts, starts and offsets around every word boundary. Search and predicate results are decided by a complete partition of the contents (position of the first differing or found bit); result bits are compared as canonical polynomials.'
W = 64
G = 8            # guard bytes are never touched
M64 = (1 << 64) - 1


def nw(bits): return -(-bits // W)


class Run:
    """one analysed call"""
    def __init__(s, ctx_mods, D):
        s.D = D; s.mods = ctx_mods; s.E = Eval(ctx_mods[0], D); s.E.MAXSTEP = 10000; s.mem = {}; s.size = {}; s.calls = []
        s.E.externals['*'] = s.outside
        s.E.externals['memcmp'] = s.memcmp

    def outside(s, E, x, c, args, mem):
        if isinstance(c, tuple) and c[0] == 'ind':
            s.calls.append(args); return s.D.const(0, 32)
        for m in s.mods[1:]:
            f = m.fn(c) if isinstance(c, str) else None
            if f is not None and not f.decl:
                old = E.mod; E.mod = m
                try: return E.run(f, args, mem)
                finally: E.mod = old
        raise Stuck('call of %s at %s' % (c, x.where))

    def memcmp(s, E, x, args, mem):
        n = s.D.cval(args[2]); a, b = args[:2]
        if n is None: raise Stuck('memcmp of unknown size')
        if n: E.reads.add((a.base, a.off, n)); E.reads.add((b.base, b.off, n))
        for i in range(n):
            u, v = E.byte(mem, a.base, a.off + i), E.byte(mem, b.base, b.off + i)
            d = [p ^ q for p, q in zip(u, v)]
            if any(p == ONE for p in d): return (ONE,) + s.D.atom(('memcmp',), 31)
            if any(d): raise Stuck('memcmp of undecided contents')
        return s.D.const(0, 32)

    def obj(s, name, bits, vals):
        """vals: polynomials of all bits of the words"""
        b = ('obj', name); n = nw(bits) * 8; s.size[b] = n; s.E.align[b] = 3
        for i in range(n): s.mem[(b, i)] = tuple(vals[8 * i:8 * i + 8])
        return P(b, 0)

    def fresh(s, name, bits): return [b for i in range(nw(bits)) for b in s.D.atom(('m', name, i), 64)]

    def get(s, p):
        out = []
        for i in range(s.size[p.base]):
            b = s.mem[(p.base, i)]
            if b is None: raise Stuck('undefined contents')
            out += b
        return out

    def touched(s, ro=()):
        for k, what in ((s.E.reads, 'reads'), (s.E.writes, 'writes')):
            for b, o, n in k:
                if b in s.size and not (isinstance(o, int) and 0 <= o and o + n <= s.size[b]): return '%s outside the words of the bitmap' % what
        for b, o, n in s.E.writes:
            if b in ro: return 'changes an operand it must not change'
        return None


def beyond(n, quick):
    """the bits between the size and the end of the word: position of the first hit, or none"""
    r = range(n, nw(n) * W)
    return [None] + [q for q in r if not quick or q in (n, n + 1, nw(n) * W - 1)]


def outside(v, n, q, miss, w=None):
    for i in range(n, nw(n) * W if q is None else q):
        v[i] = miss
    if q is not None:
        v[q] = pnot(miss)
        if w: w[q] = pnot(miss)


def near(*xs):
    return sorted({y for x in xs for y in (x - 1, x, x + 1)})


def run(ctx, res):
    quick = ctx.tier == 'quick'
    lib = ctx.lib(False)
    pre = '#include <stdbool.h>\n#include <limits.h>\n' + '\n'.join('#include <bfdev/%s.h>' % h for h in ('bits', 'bitops', 'bitops-endian', 'bitwalk', 'bitmap', 'bitflags', 'bitfield'))
    lines = source()
    jobs = []
    for const in (0, 1):
        m = ctx.instantiate('bitmap%d' % const, pre, lines, res, debug=False, extra=['-D__builtin_constant_p(x)=1'] if const else [])
        jobs += Check(ctx, res, m, lib, const, quick).jobs()
    par(res, jobs, 8)
    res.need('cases', 2000)


UL = 'unsigned long '
TWO = ('equal', 'intersects')
OPS2 = ('and', 'andnot', 'or', 'xor')
FIND = [(d, k) for d in ('first', 'last', 'next', 'prev') for k in ('bit', 'zero')] + [('next', 'and_bit'), ('prev', 'and_bit')]
BITS = ('clr', 'set', 'flip', 'change', 'test', 'test_clr', 'test_set', 'test_flip', 'test_change')


def source():
    L = []
    a = lambda nm, t: L.append((nm, t))
    for n in ('empty', 'full'): a('bfdev_bitmap_' + n, 'bool w_%s(const %s*a, unsigned n) { return bfdev_bitmap_%s(a, n); }' % (n, UL, n))
    for n in TWO: a('bfdev_bitmap_' + n, 'bool w_%s(const %s*a, const %s*b, unsigned n) { return bfdev_bitmap_%s(a, b, n); }' % (n, UL, UL, n))
    a('bfdev_bitmap_or_equal', 'bool w_or_equal(const %s*a, const %s*b, const %s*c, unsigned n) { return bfdev_bitmap_or_equal(a, b, c, n); }' % (UL, UL, UL))
    for n in OPS2: a('bfdev_bitmap_' + n, '%s w_%s(%s*d, const %s*a, const %s*b, unsigned n) { %s bfdev_bitmap_%s(d, a, b, n); }' % (('bool' if n[0] == 'a' else 'void'), n, UL, UL, UL, ('return' if n[0] == 'a' else ''), n))
    for n in ('shl', 'shr'): a('bfdev_bitmap_' + n, 'void w_%s(%s*d, const %s*a, unsigned k, unsigned n) { bfdev_bitmap_%s(d, a, k, n); }' % (n, UL, UL, n))
    a('bfdev_bitmap_complement', 'void w_complement(%s*d, const %s*a, unsigned n) { bfdev_bitmap_complement(d, a, n); }' % (UL, UL))
    a('bfdev_bitmap_comp_replace', 'void w_replace(%s*d, const %s*a, const %s*b, const %s*c, unsigned n) { bfdev_bitmap_comp_replace(d, a, b, c, n); }' % (UL, UL, UL, UL))
    for n in ('set', 'clr'): a('bfdev_bitmap_' + n, 'void w_range_%s(%s*d, unsigned k, unsigned n) { bfdev_bitmap_%s(d, k, n); }' % (n, UL, n))
    for n in ('zero', 'fill'): a('bfdev_bitmap_' + n, 'void w_%s(%s*d, unsigned n) { bfdev_bitmap_%s(d, n); }' % (n, UL, n))
    a('bfdev_bitmap_copy', 'void w_copy(%s*d, %s*a, unsigned n) { bfdev_bitmap_copy(d, a, n); }' % (UL, UL))
    for d, k in FIND:
        nm = 'bfdev_find_%s_%s' % (d, k)
        A = 'const %s*a' % UL + (', const %s*b' % UL if 'and' in k else '') + ', unsigned n' + (', unsigned o' if d in ('next', 'prev') else '')
        a(nm, 'unsigned w_find_%s_%s(%s) { return %s(a%s, n%s); }' % (d, k, A, nm, ', b' if 'and' in k else '', ', o' if d in ('next', 'prev') else ''))
    for d in ('first', 'last'): a('bfdev_comp_find_%s_bit' % d, 'unsigned w_comp_%s(const %s*a, unsigned n, unsigned long iv, bool sw) { return bfdev_comp_find_%s_bit(a, n, iv, sw); }' % (d, UL, d))
    for d in ('next', 'prev'): a('bfdev_comp_find_%s_bit' % d, 'unsigned w_comp_%s(const %s*a, const %s*b, unsigned n, unsigned o, unsigned long iv, bool sw) { return bfdev_comp_find_%s_bit(a, b, n, o, iv, sw); }' % (d, UL, UL, d))
    for k in ('bit', 'zero'):
        for r in ('', '_reverse'):
            for t in ('', '_form', '_continue'):
                nm = 'bfdev_for_each_%s%s%s' % (k, r, t)
                a(nm, 'void w_each_%s%s%s(const %s*a, unsigned n, unsigned i, void (*f)(unsigned)) { %s(i, a, n) f(i); }' % (k, r, t, UL, nm))
    for n in BITS:
        for s in ('', '_le'):
            if n == 'test_change' and s: continue
            nm = 'bfdev_bit_%s%s' % (n, s)
            a(nm, '%s w_bit_%s%s(%s*d, unsigned i%s) { %s %s(d, i%s); }' % ('bool' if 'test' in n else 'void', n, s, UL, ', bool v' if 'change' in n else '', 'return' if 'test' in n else '', nm, ', v' if 'change' in n else ''))
    a('BFDEV_BIT_LOW_MASK', UL + 'w_low(unsigned n) { return BFDEV_BIT_LOW_MASK(n); }')
    a('BFDEV_BIT_HIGH_MASK', UL + 'w_high(unsigned n) { return BFDEV_BIT_HIGH_MASK(n); }')
    a('BFDEV_BIT', UL + 'w_bit(unsigned n) { return BFDEV_BIT(n); }')
    a('BFDEV_BIT_ULL', UL + 'w_bitull(unsigned n) { return BFDEV_BIT_ULL(n); }')
    a('BFDEV_BIT_RANGE', UL + 'w_range(unsigned h, unsigned l) { return BFDEV_BIT_RANGE(h, l); }')
    a('BFDEV_BIT_RANGE_ULL', UL + 'w_rangeull(unsigned h, unsigned l) { return BFDEV_BIT_RANGE_ULL(h, l); }')
    a('BFDEV_BIT_SHIFT', UL + 'w_shift(unsigned n, unsigned long v) { return BFDEV_BIT_SHIFT(n, v); }')
    a('BFDEV_FIELD_GET', UL + 'w_fget(unsigned long m, unsigned long v) { return BFDEV_FIELD_GET(m, v); }')
    a('BFDEV_FIELD_PREP', UL + 'w_fprep(unsigned long m, unsigned long v) { return BFDEV_FIELD_PREP(m, v); }')
    a('BFDEV_FIELD_MAX', UL + 'w_fmax(unsigned long m) { return BFDEV_FIELD_MAX(m); }')
    a('BFDEV_FIELD_FIT', 'bool w_ffit(unsigned long m, unsigned long v) { return BFDEV_FIELD_FIT(m, v); }')
    for k, t in (('BITFLAGS', 'BFDEV_BITFLAGS(fl, 37)'), ('BITFLAGS_STRUCT', 'struct flst { long pad; unsigned long w[2]; }; BFDEV_BITFLAGS_STRUCT(fs, struct flst, w[0], 70)')):
        p = 'fl' if k == 'BITFLAGS' else 'fs'; ty = UL if p == 'fl' else 'struct flst '
        a('BFDEV_' + k, t + ''.join(' %s w_%s_%s(%s*p) { %s %s_%s(p); }' % ('bool' if 'test' in n else 'void', p, n, ty, 'return' if 'test' in n else '', p, n) for n in ('clr', 'set', 'flip', 'test', 'test_clr', 'test_set', 'test_flip')))
    return L


class Check:
    def __init__(s, ctx, res, m, lib, const, quick):
        s.res = res; s.m = m; s.lib = lib; s.const = const; s.quick = quick; s.stuck = set()

    def fn(s, w):
        return s.m.fn('w_' + w)

    def case(s, api, what, body):
        """body(R) -> violation text or None"""
        D = Dom(); R = Run([s.m, s.lib], D)
        if api in s.m.dead: return False
        try: t = body(R)
        except (Stuck, Blowup, TypeError, RecursionError) as e:
            t = R.touched() if R.E.nofork else None
            if not t and R.E.nofork and isinstance(e, Undefined): t = 'undefined: %s' % e
            if not t and R.E.nofork and isinstance(e, Endless): t = 'does not end within %d steps' % R.E.MAXSTEP
            if not t:
                if api not in s.stuck: s.res.undecided('%s %s' % (api, what), repr(e)[:200])
                s.stuck.add(api)
                return False
        s.res.count('cases'); s.res.count('instructions', R.E.instrs)
        if t:
            f = None
            for m in (s.m, s.lib): f = f or m.fn(api)
            s.res.bad('%s:%s' % (api, 'size known' if s.const else 'size unknown'), 'include/bfdev/bitmap.h, bitwalk.h, bitops.h (%s)' % api, 'exact', '%s%s: %s: %s' % (api, ' (size known when compiling)' if s.const else '', what, t))
            return False
        return True

    def result(s, R, w, args, ro=()):
        D = R.D; a = []
        for x in args: a.append(x if isinstance(x, (P, tuple)) else D.const(x & M64, 64))
        f = s.fn(w)
        # parameters narrower than 64 bits
        av = []
        for x, (_, t) in zip(a, f.args): av.append(x if isinstance(x, P) or t == 'ptr' else x[:width(t)] if len(x) >= width(t) else D.zext(x, width(t)))
        r = R.E.run(f, av, R.mem)
        t = R.touched(ro)
        return r, t

    def truth(s, R, r, want):
        if r is None: return 'the result is undefined'
        v = R.D.cval(r)
        if v is None:
            if R.D.differ(r[:1], (ONE if want else ZERO,)): return 'the result depends on bits it must not depend on'
            raise Stuck('the result is not decided')
        return None if bool(v & 1) == want else 'the result is %s' % ('false' if want else 'true')

    def bits(s, R, p, n, want):
        got = R.get(p)[:n]; want = want[:n]
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                d = R.D.differ((g,), (w,))
                if d: return 'bit %d of the result is not the specified one' % i
        return None

    def jobs(s):
        q = s.quick
        if s.const: sizes = [1, 2, 8, 31, 63, 64] + [65, 72, 128, 136, 192] if q else [x for x in near(2, 8, 17, 32, 48, 63, 64) + [72, 127, 128, 129, 136, 192, 193] if x < 65 or x > 65]
        else: sizes = [1, 8, 63, 64, 65, 127, 128, 129, 200] if q else near(2, 8, 32, 63, 65, 100, 127, 129, 160, 192)
        def part(f, *a):
            def go(r): s.res = r; f(*a)
            return go
        return [part(f, [n]) for f in (s.finds, s.preds, s.shifts) for n in reversed(sizes)] + [part(s.ranges), part(s.binary, sizes), part(s.each), part(s.bitops), part(s.masks)]

    # ---- predicates: complete partition by the first deciding bit
    def preds(s, sizes):
        for n in sizes:
            ps = range(n) if not s.quick else [p for p in near(0, 31, 63, 64, 127, 128, n - 1) if 0 <= p < n]
            for which, val in (('empty', ZERO), ('full', ONE)):
                for p, q in [(None, q) for q in beyond(n, s.quick)] + [(p, None) for p in ps]:
                    def body(R):
                        v = R.fresh('a', n)
                        for i in range(n if p is None else p): v[i] = val
                        if p is None: outside(v, n, q, val)
                        if p is not None: v[p] = pnot(val)
                        A = R.obj('a', n, v)
                        r, t = s.result(R, which, [A, n], [A.base])
                        return t or s.truth(R, r, p is None)
                    if not s.case('bfdev_bitmap_' + which, '%d bits, %s' % (n, 'all of them %d' % (val == ONE) if p is None else 'the first other one at %d' % p), body): break
            for p in [None] + list(ps):
                def body(R):
                    v = R.fresh('a', n); w = R.fresh('b', n)
                    for i in range(n if p is None else p): w[i] = v[i]
                    if p is not None: w[p] = pnot(v[p])
                    A = R.obj('a', n, v); B = R.obj('b', n, w)
                    r, t = s.result(R, 'equal', [A, B, n], [A.base, B.base])
                    return t or s.truth(R, r, p is None)
                if not s.case('bfdev_bitmap_equal', '%d bits, %s' % (n, 'equal' if p is None else 'different at bit %d' % p), body): break
            for p in [None] + list(ps):
                def body(R):
                    v = R.fresh('a', n); w = R.fresh('b', n); u = R.fresh('c', n)
                    for i in range(n if p is None else p + 1): u[i] = por(v[i], w[i])
                    if p is not None: u[p] = pnot(u[p])
                    A = R.obj('a', n, v); B = R.obj('b', n, w); C = R.obj('c', n, u)
                    r, t = s.result(R, 'or_equal', [A, B, C, n], [A.base, B.base, C.base])
                    return t or s.truth(R, r, p is None)
                if not s.case('bfdev_bitmap_or_equal', '%d bits, %s' % (n, 'equal' if p is None else 'different at bit %d' % p), body): break
            for p in [None] + list(ps):
                def body(R):
                    v = R.fresh('a', n); w = R.fresh('b', n)
                    for i in range(n if p is None else p): w[i] = mul(w[i], pnot(v[i]))
                    if p is not None: v[p] = w[p] = ONE
                    A = R.obj('a', n, v); B = R.obj('b', n, w)
                    r, t = s.result(R, 'intersects', [A, B, n], [A.base, B.base])
                    return t or s.truth(R, r, p is not None)
                if not s.case('bfdev_bitmap_intersects', '%d bits, %s' % (n, 'disjoint' if p is None else 'both have bit %d' % p), body): break
            for which, inv in (('and', 0), ('andnot', 1)):
                for p in [None] + list(ps):
                    def body(R):
                        v = R.fresh('a', n); w = R.fresh('b', n)
                        for i in range(n if p is None else p): w[i] = mul(w[i], pnot(v[i]))
                        if p is not None: v[p] = w[p] = ONE
                        if inv: w = [pnot(x) for x in w]
                        d = R.fresh('d', n)
                        A = R.obj('a', n, v); B = R.obj('b', n, w); C = R.obj('d', n, d)
                        r, t = s.result(R, which, [C, A, B, n], [A.base, B.base])
                        return t or s.truth(R, r, p is not None)
                    if not s.case('bfdev_bitmap_' + which, 'result for %d bits, %s' % (n, 'empty' if p is None else 'bit %d remains' % p), body): break

    def binary(s, sizes):
        f = {'and': mul, 'andnot': lambda a, b: mul(a, pnot(b)), 'or': por, 'xor': lambda a, b: a ^ b}
        for n in sizes:
            for k, g in f.items():
                for alias in (0, 1, 2):
                    def body(R):
                        v = R.fresh('a', n); w = R.fresh('b', n)
                        A = R.obj('a', n, v); B = R.obj('b', n, w); d = [R.obj('d', n, R.fresh('d', n)), A, B][0] if not alias else (A, B)[alias - 1]
                        r, t = s.result(R, k, [d, A, B, n], [x.base for x in (A, B) if x != d])
                        return t or s.bits(R, d, n, [g(x, y) for x, y in zip(v, w)])
                    if not s.case('bfdev_bitmap_' + k, '%d bits%s' % (n, ', in place' if alias else ''), body): break
            for k, g in (('complement', pnot), ('copy', lambda x: x)):
                for alias in (0, 1) if k == 'complement' else (0,):
                    def body(R):
                        v = R.fresh('a', n); A = R.obj('a', n, v); d = A if alias else R.obj('d', n, R.fresh('d', n))
                        r, t = s.result(R, k, [d, A, n], [] if alias else [A.base])
                        return t or s.bits(R, d, n, [g(x) for x in v])
                    s.case('bfdev_bitmap_' + k, '%d bits' % n, body)
            for k, val in (('zero', ZERO), ('fill', ONE)):
                def body(R):
                    d = R.obj('d', n, R.fresh('d', n))
                    r, t = s.result(R, k, [d, n])
                    return t or s.bits(R, d, n, [val] * n)
                s.case('bfdev_bitmap_' + k, '%d bits' % n, body)
            def body(R):
                v, w, u = R.fresh('a', n), R.fresh('b', n), R.fresh('c', n)
                A, B, C = R.obj('a', n, v), R.obj('b', n, w), R.obj('c', n, u); d = R.obj('d', n, R.fresh('d', n))
                r, t = s.result(R, 'replace', [d, A, B, C, n], [A.base, B.base, C.base])
                return t or s.bits(R, d, n, [mul(y, z) ^ mul(x, pnot(z)) for x, y, z in zip(v, w, u)])
            s.case('bfdev_bitmap_comp_replace', '%d bits' % n, body)

    def shifts(s, sizes):
        for n in sizes:
            ks = [k for k in (near(0, 64, 128, n) + [31, 200]) if k >= 0] if s.quick else sorted(set(near(0, 32, 64, 96, 128, n)) | set(range(0, n + 70, 3)))
            for k in sorted(k for k in set(ks) if k >= 0):
                if s.const and n <= 64 and k >= 64: continue
                for which in ('shl', 'shr'):
                    for alias in (0, 1):
                        def body(R):
                            v = R.fresh('a', n); A = R.obj('a', n, v); d = A if alias else R.obj('d', n, R.fresh('d', n))
                            r, t = s.result(R, which, [d, A, k, n], [] if alias else [A.base])
                            want = [(v[i - k] if i >= k else ZERO) if which == 'shl' else (v[i + k] if i + k < n else ZERO) for i in range(n)]
                            return t or s.bits(R, d, n, want)
                        if not s.case('bfdev_bitmap_' + which, '%d bits by %d%s' % (n, k, ', in place' if alias else ''), body): break

    def ranges(s):
        if s.quick: starts = [0, 1, 8, 61, 63, 64, 65, 120, 128]; lens = [0, 1, 2, 3, 8, 16, 56, 62, 63, 64, 65, 127, 128, 129]
        else: starts = near(1, 8, 16, 32, 62, 64, 100, 127, 129); lens = list(range(0, 20)) + near(24, 32, 48, 56, 63, 65, 100, 120, 127, 129, 192)
        for a in starts:
            for n in lens:
                for which, val in (('set', ONE), ('clr', ZERO)):
                    def body(R):
                        total = max(a + n, 1); v = R.fresh('d', total); d = R.obj('d', total, v)
                        r, t = s.result(R, 'range_' + which, [d, a, n])
                        return t or s.bits(R, d, len(v), [val if a <= i < a + n else v[i] for i in range(len(v))])
                    s.case('bfdev_bitmap_' + which, 'bits %d..%d' % (a, a + n - 1) if n else 'no bits from %d' % a, body)

    # ---- searches: partition by the position found
    def finds(s, sizes):
        todo = [(d, k, None) for d, k in FIND]
        if not s.const: todo += [(d, 'bit', (iv, sw)) for d in ('first', 'last', 'next', 'prev') for iv in (0, 1) for sw in (0, 1)]
        for d, k, comp in todo:
            api = 'bfdev_comp_find_%s_bit' % d if comp else 'bfdev_find_%s_%s' % (d, k)
            ok = True
            for n in sizes:
                if not ok: break
                for o in ([None] if d in ('first', 'last') else [o for o in (near(0, 32, 63, 64, 127, 128, n - 1) + [M64 >> 32] if s.quick else sorted(set(near(0, 16, 32, 63, 64, 100, 127, 128, n - 1)) | set(range(0, n, 9))) + [M64 >> 32]) if o >= 0]):
                    lo, hi = (0, n) if o is None else ((o, n) if d == 'next' else (0, o + 1)) if o < n else (0, 0)
                    cand = list(range(lo, hi)) if d in ('first', 'next') else list(range(hi - 1, lo - 1, -1))
                    ps = [None] + ([p for p in cand if p in (0, 1, 31, 62, 63, 64, 65, 127, 128, 129) or p in (lo, hi - 1)] if s.quick else cand)
                    for p, q in [(p, q) for p in ps for q in (beyond(n, s.quick) if p is None and d in ('first', 'next') else [None])]:
                        def body(R):
                            inv = k == 'zero' or comp and comp[0]
                            miss, hit = (ONE, ZERO) if inv else (ZERO, ONE)
                            v = R.fresh('a', n); w = R.fresh('b', n)
                            two = 'and' in k
                            for i in (cand if p is None else cand[:cand.index(p)]):
                                if two: w[i] = mul(w[i], pnot(v[i]))
                                else: v[i] = miss
                            if p is not None: v[p] = hit; w[p] = hit
                            elif d in ('first', 'next'):
                                if two: outside(v, n, q, miss, w)
                                else: outside(v, n, q, miss)
                            if comp and comp[1]:
                                v = [v[64 * j + (7 - b // 8) * 8 + b % 8] for j in range(len(v) // 64) for b in range(64)]
                            A = R.obj('a', n, v); B = R.obj('b', n, w) if two else None
                            if comp:
                                args = [A] + ([R.D.const(0, 64)] if d in ('next', 'prev') else []) + [n] + ([o] if o is not None else []) + [M64 if comp[0] else 0, comp[1]]
                                r, t = s.result(R, 'comp_' + d, args, [A.base])
                            else:
                                r, t = s.result(R, 'find_%s_%s' % (d, k), [A] + ([B] if two else []) + [n] + ([o] if o is not None else []), [x.base for x in (A, B) if x])
                            if t: return t
                            if r is None: return 'the result is undefined'
                            g = R.D.cval(r); want = n if p is None else p
                            if g is None:
                                if R.D.differ(r, R.D.const(want, len(r))): return 'the result is not %d' % want
                                raise Stuck('the position is not decided')
                            return None if g == want else 'the result is %d instead of %d' % (g, want)
                        ok = s.case(api, '%d bits%s, %s' % (n, '' if o is None else ' from %d' % o, 'nothing to find' if p is None else 'bit %d' % p), body)
                        if not ok: break
                    if not ok: break

    def each(s):
        pats = [(n, x) for n in range(1, 5) for x in range(1 << n)] + [(66, x << 62) for x in range(16)] + [(64, 1 << 63 | 1), (128, 1 << 127 | 1 << 64 | 1 << 63 | 1)]
        for k in ('bit', 'zero'):
            for rv in ('', '_reverse'):
                for t in ('', '_form', '_continue'):
                    api = 'bfdev_for_each_%s%s%s' % (k, rv, t)
                    for n, x in pats:
                        if s.const and n > 64 and s.quick: continue
                        xs = [i for i in range(n) if bool(x >> i & 1) == (k == 'bit')]
                        if k == 'zero' and n > 8: x ^= (1 << n) - 1; xs = [i for i in range(n) if not x >> i & 1]
                        ok = True
                        for i0, tail in [(i, z) for i in ([0] if not t else range(n) if n < 8 else (0, 62, 63, n - 1)) for z in (ZERO, ONE)]:
                            want = [i for i in xs if not t or (i > i0 if not rv else i < i0)]
                            if rv: want.reverse()
                            if t == '_form': want = [i0] + want
                            def body(R):
                                v = [ONE if x >> i & 1 else ZERO for i in range(nw(n) * 64)]
                                for i in range(n, len(v)): v[i] = tail
                                A = R.obj('a', n, v)
                                r, tt = s.result(R, 'each_%s%s%s' % (k, rv, t), [A, n, i0, P(('f', 'cb'), 0)], [A.base])
                                got = [R.D.cval(c[0]) for c in R.calls]
                                return tt or (None if got == want else 'visits %s instead of %s' % (got, want))
                            ok = s.case(api, 'bitmap %#x of %d bits from %d' % (x, n, i0), body)
                            if not ok: break
                        if not ok: break

    def bitops(s):
        for n in BITS:
            for le in ('', '_le'):
                if n == 'test_change' and le: continue
                for i in (0, 1, 7, 8, 31, 32, 63, 64, 65, 127) if s.quick else range(192):
                    for val in ((0, 1) if 'change' in n else (0,)):
                        def body(R):
                            v = R.fresh('d', 192); d = R.obj('d', 192, v)
                            r, t = s.result(R, 'bit_%s%s' % (n, le), [d, i] + ([val] if 'change' in n else []), [d.base] if n == 'test' else [])
                            if t: return t
                            w = list(v); o = n.replace('test_', '')
                            w[i] = {'clr': ZERO, 'set': ONE, 'flip': pnot(v[i]), 'change': ONE if val else ZERO, 'test': v[i]}[o]
                            b = s.bits(R, d, 192, w)
                            if b: return b
                            if 'test' in n and (r is None or R.D.differ(r[:1], (v[i],))): return 'the result is not the old bit'
                        s.case('bfdev_bit_%s%s' % (n, le), 'bit %d' % i, body)
        for p, i, off in (('fl', 37, 0), ('fs', 70, 64)):
            for n in ('clr', 'set', 'flip', 'test', 'test_clr', 'test_set', 'test_flip'):
                def body(R):
                    v = R.fresh('d', 192); d = R.obj('d', 192, v); j = i + off
                    r, t = s.result(R, '%s_%s' % (p, n), [d])
                    w = list(v); w[j] = {'clr': ZERO, 'set': ONE, 'flip': pnot(v[j]), 'test': v[j]}[n.replace('test_', '')]
                    t = t or s.bits(R, d, 192, w)
                    if t: return t
                    if 'test' in n and (r is None or R.D.differ(r[:1], (v[j],))): return 'the result is not the old bit'
                s.case('BFDEV_BITFLAGS' + ('_STRUCT' if p == 'fs' else ''), n, body)

    def masks(s):
        def val(api, w, args, want):
            def body(R):
                r, t = s.result(R, w, args)
                if r is None: return 'the value is undefined'
                g = R.D.cval(r)
                return None if g == want else 'the value is %s, not %#x' % (hex(g) if g is not None else g, want)
            return s.case(api, 'argument %s' % ','.join(map(str, args)), body)
        for n in range(1, 65): val('BFDEV_BIT_LOW_MASK', 'low', [n], (1 << n) - 1)
        for n in range(64): val('BFDEV_BIT_HIGH_MASK', 'high', [n], M64 & ~((1 << n) - 1))
        for n in range(64):
            val('BFDEV_BIT', 'bit', [n], 1 << n); val('BFDEV_BIT_ULL', 'bitull', [n], 1 << n)
        for l in range(64):
            for h in range(l, 64) if not s.quick or l in (0, 1, 31, 32, 62, 63) else (l, 62, 63):
                if h < l: continue
                w = (1 << h + 1) - (1 << l)
                val('BFDEV_BIT_RANGE', 'range', [h, l], w); val('BFDEV_BIT_RANGE_ULL', 'rangeull', [h, l], w)
            for h in ((l, 63) if s.quick else range(l, 64)):
                m = (1 << h + 1) - (1 << l); k = h - l + 1
                def field(R):
                    D = R.D; v = D.atom('v', 64)
                    g, _ = s.result(R, 'fget', [m, v])
                    if D.differ(g, v[l:h + 1] + (ZERO,) * (64 - k)): return 'field get is not the field'
                    g, _ = s.result(R, 'fprep', [m, v])
                    if D.differ(g, (ZERO,) * l + v[:k] + (ZERO,) * (63 - h)): return 'field prep is not the value shifted to the field'
                    g, _ = s.result(R, 'fmax', [m])
                    if D.cval(g) != (1 << k) - 1: return 'the maximum is wrong'
                s.case('BFDEV_FIELD_GET', 'mask %#x' % m, field)
                for x, fit in (((1 << k) - 1, 1), (0, 1)) + (((1 << k, 0),) if k + l < 64 else ()):
                    def fits(R):
                        g, _ = s.result(R, 'ffit', [m, x])
                        return s.truth(R, g, bool(fit))
                    s.case('BFDEV_FIELD_FIT', 'mask %#x value %#x' % (m, x), fits)
