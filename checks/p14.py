from common import *
from anf import *
RULE = 'each output bit is the specified input bit (or constant), and memory accessors touch exactly the specified bytes'
EXPLANATION = 'Every swap, byte order, bit reversal, half selection, population count and unaligned access macro or inline function (constant and run-time variants) is instantiated in a witness unit, compiled, and each bit of its result is computed as a polynomial of the input bits; the polynomial has to be the specified one.'


def swab(a): return tuple(p for k in range(len(a) // 8 - 1, -1, -1) for p in a[8 * k:8 * k + 8])
def blocks(a, g, n):
    """swap the n-bit halves inside every g-bit group"""
    r = ()
    for k in range(0, len(a), g): r += a[k + n:k + g] + a[k:k + n]
    return r
def ident(a): return a
def rev(a): return tuple(reversed(a))
HB = lambda a: blocks(a, 16, 8)
HW = lambda a: blocks(a, 32, 16)
HL = lambda a: blocks(a, 64, 32)


def unary():
    """(witness name, expression of x, input bits, output bits, spec)"""
    L = []
    for n in (16, 32, 64):
        for v in ('swab%d_const', 'fswab%d', 'swab%d'): L.append((v % n, 'bfdev_' + v % n + '(x)', n, n, swab))
    for nm, f, ns in (('swahb', HB, (32, 64)), ('swahw', HW, (32, 64)), ('swahl', HL, (64,))):
        for n in ns:
            for v in ('%s%d_const', 'f%s%d', '%s%d'): L.append((v % (nm, n), 'bfdev_' + v % (nm, n) + '(x)', n, n, f))
    L.append(('swab', 'bfdev_swab(x)', 64, 64, swab))
    for n in (8, 16, 32, 64):
        for v in ('', '_const', '_dynamic'): L.append(('bitrev%d%s' % (n, v), 'bfdev_bitrev%d%s(x)' % (n, v), n, n, rev))
    for n in (16, 32, 64):
        for v in ('', '_const'):
            for e, f in (('le', ident), ('be', swab)):
                for d in ('cpu_to_%s%d' % (e, n), '%s%d_to_cpu' % (e, n)):
                    L.append((d + v, 'bfdev_%s%s(x)' % (d, v), n, n, f))
    for nm, n in (('htons', 16), ('ntohs', 16), ('htonl', 32), ('ntohl', 32)):
        L.append((nm + '_const', 'bfdev_%s_const(x)' % nm, n, n, swab))
    for e, f in (('le', ident), ('be', swab)):
        for d in ('cpu_to_%s_long', '%s_long_to_cpu'): L.append((d % e, 'bfdev_%s(x)' % (d % e), 64, 64, f))
    L.append(('upper_32', 'bfdev_upper_32_bits(x)', 64, 32, lambda a: a[32:]))
    L.append(('lower_32', 'bfdev_lower_32_bits(x)', 64, 32, lambda a: a[:32]))
    L.append(('upper_16', 'bfdev_upper_16_bits(x)', 32, 16, lambda a: a[16:]))
    L.append(('lower_16', 'bfdev_lower_16_bits(x)', 32, 16, lambda a: a[:16]))
    for n in (8, 16, 32, 64):
        for v in ('', '_const', '_dynamic'):
            L.append(('popparity%d%s' % (n, v), 'bfdev_popparity%d%s(x)' % (n, v), n, 8, lambda a: (xorall(a),) + (ZERO,) * 7))
    for n in (8, 16, 32, 64):
        for v in ('_const', '_dynamic', ''):
            L.append(('popcount%d%s' % (n, v), 'bfdev_popcount%d%s(x)' % (n, v), n, 32, None))
    return L


def xorall(a):
    r = ZERO
    for p in a: r ^= p
    return r


def popcount(D, x, w):
    return D.mksum([(1, D.pointwise(lambda v: bin(v).count('1'), [x[i:i + 8]], w)) for i in range(0, len(x), 8)], 0, w)


def be_unary():
    """the same macros as seen by a big endian processor: little endian formats are swapped instead"""
    L = []
    for n in (16, 32, 64):
        for v in ('', '_const'):
            for e, f in (('le', swab), ('be', ident)):
                for d in ('cpu_to_%s%d' % (e, n), '%s%d_to_cpu' % (e, n)):
                    L.append(('B' + d + v, 'bfdev_%s%s(x)' % (d, v), n, n, f))
    for nm, n in (('htons', 16), ('ntohs', 16), ('htonl', 32), ('ntohl', 32)):
        L.append(('B' + nm + '_const', 'bfdev_%s_const(x)' % nm, n, n, ident))
    return L


def pointers(big=False):
    """(name, expression of p, bits, spec): loads through a pointer"""
    L = []
    le, be = (swab, ident) if big else (ident, swab)
    if not big:
        for n in (16, 32, 64): L.append(('swab%dp' % n, n, swab))
        for nm, f, ns in (('swahb', HB, (32, 64)), ('swahw', HW, (32, 64)), ('swahl', HL, (64,))):
            for n in ns: L.append(('%s%dp' % (nm, n), n, f))
        L.append(('swabp', 64, swab))
    for n in (16, 32, 64):
        L += [('cpu_to_le%dp' % n, n, le), ('le%d_to_cpup' % n, n, le), ('cpu_to_be%dp' % n, n, be), ('be%d_to_cpup' % n, n, be)]
    return L


def inplace(big=False):
    L = []
    le, be = (swab, ident) if big else (ident, swab)
    if not big:
        for n in (16, 32, 64): L.append(('swab%ds' % n, n, swab))
        for nm, f, ns in (('swahb', HB, (32, 64)), ('swahw', HW, (32, 64)), ('swahl', HL, (64,))):
            for n in ns: L.append(('%s%ds' % (nm, n), n, f))
        L.append(('swabs', 64, swab))
    for n in (16, 32, 64):
        L += [('cpu_to_le%ds' % n, n, le), ('le%d_to_cpus' % n, n, le), ('cpu_to_be%ds' % n, n, be), ('be%d_to_cpus' % n, n, be)]
    return L


def unaligned():
    L = []
    for n in (16, 32, 64): L += [('u%d' % n, n, ident), ('le%d' % n, n, ident), ('be%d' % n, n, swab)]
    return L + [('uint', 32, ident), ('ulong', 64, ident)]


def arrays():
    L = []
    for n in (16, 32, 64):
        for e, f in (('le', ident), ('be', swab)):
            L += [('cpu_to_%s%d_array' % (e, n), n, f), ('%s%d_to_cpu_array' % (e, n), n, f)]
    return L


def source(big, have):
    T = {8: 'uint8_t', 16: 'uint16_t', 32: 'uint32_t', 64: 'uint64_t'}
    o = []
    if big: pre = '#include <bfdev/byteorder/big-endian.h>'
    else: pre = '\n'.join('#include <bfdev/%s.h>' % h for h in ('swab', 'byteorder', 'bitrev', 'unaligned', 'uplower', 'popcount'))
    for nm, ex, wi, wo, _ in (be_unary() if big else unary()):
        o.append('%s w_%s(%s x) { return (%s)%s; }' % (T[wo], nm, T[wi], T[wo], ex))
    for nm, n, _ in pointers(big): o.append('%s w_%s(%s *p) { return (%s)bfdev_%s((void *)p); }' % (T[n], nm, T[n], T[n], nm))
    for nm, n, _ in inplace(big): o.append('void w_%s(%s *p) { bfdev_%s((void *)p); }' % (nm, T[n], nm))
    if not big:
        for nm, n, _ in unaligned():
            o.append('%s w_get_%s(void *p) { return bfdev_unaligned_get_%s(p); }' % (T[n], nm, nm))
            o.append('void w_set_%s(void *p, %s v) { bfdev_unaligned_set_%s(p, v); }' % (nm, T[n], nm))
        for nm, n, _ in arrays():
            if have(nm): o.append('void w_%s(void *d, const void *s, size_t n) { bfdev_%s(d, s, n); }' % (nm, nm))
        for n in (16, 32, 64): o.append('void w_swab%d_array(%s *p, unsigned int n) { bfdev_swab%d_array(p, n); }' % (n, T[n], n))
        o.append('void w_swab_array(unsigned long *p, unsigned int n) { bfdev_swab_array(p, n); }')
    return pre, [(re.search(r'w_(\w+)\(', x).group(1), x) for x in o]


def run(ctx, res):
    text = open(REPO + '/include/bfdev/asm-generic/byteorder.h').read() + open(REPO + '/include/bfdev/byteorder.h').read()
    for big in (False, True):
        m = ctx.instantiate('bits%d' % big, *source(big, lambda nm: 'bfdev_' + nm in text), res)
        names = {'w_' + x[0]: x for x in (be_unary() if big else unary())}
        D = Dom()

        def args(bits): return D.atom('x', bits)

        def decide(fname, wi, body):
            fn = m.fn(fname)
            if fn is None: return None
            E = Eval(m, Dom())
            try: r = body(E, fn)
            except Exception as e:
                res.undecided(fname, e); return None
            res.count('instances'); res.count('instructions', E.instrs)
            return r

        def bad(fname, what):
            n = 'bfdev_' + fname[2:].lstrip('B')
            res.bad('%s:bits%s' % (n, ':big' if big else ''), 'include/bfdev (%s)' % n, 'bit placement', '%s%s: %s' % (n, ' on a big endian processor' if big else '', what))

        def diff(got, want, E):
            if got is not None and any(b is None for b in got): return 'the result is undefined'
            return E.D.differ(got, want)
        for fname, (nm, ex, wi, wo, f) in names.items():
            def body(E, fn):
                x = E.D.atom('x', wi)
                want = f(x) if f else popcount(E.D, x, wo)
                return diff(E.run(fn, [x]), want, E)
            d = decide(fname, wi, body)
            if d: bad(fname, d)
            res.sample(fname)

        def memspec(E, base, n): return tuple(b for i in range(n // 8) for b in E.D.atom(('m', base, i), 8))
        A = ('obj', 'p')
        for nm, n, f in pointers(big) + ([] if big else [('get_' + a, b, c) for a, b, c in unaligned()]):
            def body(E, fn):
                r = E.run(fn, [P(A, 0)])
                if E.writes: return 'writes memory'
                return diff(r, f(memspec(E, A, n)), E)
            d = decide('w_' + nm, n, body)
            if d: bad('w_' + nm, d)

        def written(E, mem, base, n, want):
            for k in mem:
                if len(k) == 2 and k[0] == base and not 0 <= k[1] < n // 8: return 'writes outside the object'
            got = tuple(b for i in range(n // 8) for b in (E.byte(mem, base, i) or (None,) * 8))
            return diff(got, want, E)
        for nm, n, f in inplace(big):
            def body(E, fn):
                mem = {}; E.run(fn, [P(A, 0)], mem)
                return written(E, mem, A, n, f(memspec(E, A, n)))
            d = decide('w_' + nm, n, body)
            if d: bad('w_' + nm, d)
        if big: continue
        for nm, n, f in unaligned():
            def body(E, fn):
                mem = {}; x = E.D.atom('x', n)
                E.run(fn, [P(A, 0), x], mem)
                return written(E, mem, A, n, f(x))
            d = decide('w_set_' + nm, n, body)
            if d: bad('w_set_' + nm, d)
            if m.fn('w_set_' + nm) is None or m.fn('w_get_' + nm) is None: continue
            al = [x for x in need_fn(m, 'w_set_' + nm).instrs() if x.o == 'store'] + [x for x in need_fn(m, 'w_get_' + nm).instrs() if x.o == 'load']
            for x in al:
                if x.get('al', 1) > 1: bad('w_get_' + nm, 'assumes an aligned address')
        for nm, n, f in arrays():
            if m.fn('w_' + nm) is None: continue
            for cnt in (0, 1, 3):
                for same in (False, True):
                    def body(E, fn):
                        mem = {}; S = A if same else ('obj', 's')
                        src = memspec(E, S, n * cnt)
                        E.run(fn, [P(A, 0), P(S, 0), E.D.const(cnt, 64)], mem)
                        want = tuple(b for i in range(cnt) for b in f(src[i * n:i * n + n]))
                        return written(E, mem, A, n * cnt, want)
                    d = decide('w_' + nm, n, body)
                    if d: bad('w_' + nm, d)
        for n in (16, 32, 64, 0):
            nm = 'swab%s_array' % (n or ''); n = n or 64
            for cnt in (0, 1, 3):
                def body(E, fn):
                    mem = {}; src = memspec(E, A, n * cnt)
                    E.run(fn, [P(A, 0), E.D.const(cnt, 32)], mem)
                    return written(E, mem, A, n * cnt, tuple(b for i in range(cnt) for b in swab(src[i * n:i * n + n])))
                d = decide('w_' + nm, n, body)
                if d: bad('w_' + nm, d)
    res.need('instances', 200)
