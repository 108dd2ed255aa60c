import random
from common import *
from anf import *
from par import par
RULE = 'the result is the published function of the input bits, and nothing outside the input, the state and the output is touched'
EXPLANATION = 'jhash is analysed over canonical modular sums and bit polynomials for every length up to a bound with open bytes and start value and compared with the published mixing; the multiplicative hashes for every number of bits; the string hash for every string of a length whose bytes are ASCII, split by the bits that keep a byte from being the terminator; the random generator over GF(2) with open state and seed; ARC4 with open data for fixed keys of many lengths, and its key setup.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/hash.h>
#include <bfdev/jhash.h>
#include <bfdev/stringhash.h>
#include <bfdev/prandom.h>
#include <bfdev/arc4.h>
const unsigned long off_box = __builtin_offsetof(bfdev_arc4_ctx_t, box), off_a = __builtin_offsetof(bfdev_arc4_ctx_t, proa), off_b = __builtin_offsetof(bfdev_arc4_ctx_t, prob), off_csize = sizeof(bfdev_arc4_ctx_t);
const unsigned long off_s1 = __builtin_offsetof(bfdev_prandom_t, s1), off_s2 = __builtin_offsetof(bfdev_prandom_t, s2), off_s3 = __builtin_offsetof(bfdev_prandom_t, s3), off_s4 = __builtin_offsetof(bfdev_prandom_t, s4), off_psize = sizeof(bfdev_prandom_t), off_warm = BFDEV_PRANDOM_WARMUP, off_start = BFDEV_PRANDOM_SEED;
'''
LINES = [('bfdev_hash32', 'uint32_t w_hash32(uint32_t v, unsigned b) { return bfdev_hash32(v, b); }'), ('bfdev_hash64', 'uint64_t w_hash64(uint64_t v, unsigned b) { return bfdev_hash64(v, b); }'),
    ('bfdev_hashl', 'unsigned long w_hashl(unsigned long v, unsigned b) { return bfdev_hashl(v, b); }'), ('bfdev_hashv32', 'uint32_t w_v32(uint32_t v) { return bfdev_hashv32(v); }'), ('bfdev_hashv64', 'uint64_t w_v64(uint64_t v) { return bfdev_hashv64(v); }'),
    ('bfdev_hashvl', 'unsigned long w_vl(unsigned long v) { return bfdev_hashvl(v); }'),
    ('bfdev_prandom_init', 'void w_pinit(bfdev_prandom_t *p) { bfdev_prandom_init(p); }'), ('BFDEV_DEFINE_PRANDOM', 'void w_pdef(bfdev_prandom_t *p) { BFDEV_DEFINE_PRANDOM(x); *p = x; }')]
# these call into the library and are analysed as sequences of draws
DRAW = [('bfdev_prandom_u64', 'uint64_t w_u64(bfdev_prandom_t *p) { return bfdev_prandom_u64(p); }'), ('bfdev_prandom_long', 'unsigned long w_long(bfdev_prandom_t *p) { return bfdev_prandom_long(p); }')]
OBJ = lambda n: ('obj', n)
G32, G64 = 0x61c88647, 0x61c8864680b583eb


def rc4(key):
    S = list(range(256)); j = 0
    for i in range(256): j = (j + S[i] + key[i % len(key)]) & 255; S[i], S[j] = S[j], S[i]
    return S


def stream(S, i, j, n):
    out = []
    for _ in range(n): i = (i + 1) & 255; j = (j + S[i]) & 255; S[i], S[j] = S[j], S[i]; out.append(S[(S[i] + S[j]) & 255])
    return out, i, j


def run(ctx, res):
    quick = ctx.tier == 'quick'
    mod = ctx.instantiate('w_p30', PRE, LINES + DRAW, res); lib = ctx.lib(False)
    from sim import offsets
    K = offsets(mod)

    def go(r, name, file, case, job, D=None):
        D = D or Dom(); E = Eval(lib, D); E.MAXSTEP = 200000
        try: d = job(E, D)
        except Exception as e:
            # what the code touched before it stopped
            return r.undecided(name, '%s: %s %s' % (case, type(e).__name__, str(e)[:120]))
        finally: r.count('instructions', E.instrs)
        r.count('obligations'); r.count(name)
        if d: r.bad(name, '%s (bfdev_%s)' % (file, name), RULE, 'bfdev_%s: %s: %s' % (name, case, d))

    def outside(E, lim):
        for w, acc in ((0, E.reads), (1, E.writes)):
            for b, o, n in acc:
                if b[0] == 'obj' and b[1] in lim:
                    if not 0 <= o or o + n > lim[b[1]][0]: return '%s outside the %s' % ('writes' if w else 'reads', b[1])
                    if w and not lim[b[1]][1]: return 'writes the %s' % b[1]

    def jhash(r, lengths):
        for n in lengths:
            def job(E, D):
                iv = D.atom('init', 32); got = E.run(need_fn(lib, 'bfdev_jhash'), [P(OBJ('data'), 0), D.const(n, 64), iv], {})
                by = [D.atom(('m', OBJ('data'), i), 8) for i in range(n)]
                S = lambda *t: D.mksum(list(t), 0, 32); X = D.bxor; R = D.rotl
                a = D.mksum([(1, iv)], 0xdeadbeef + n, 32); b = c = a; k = 0
                word = lambda i: tuple(x for q in range(4) for x in (by[i + q] if i + q < n else (ZERO,) * 8))
                while n - k > 12:
                    a = D.add(a, word(k)); b = D.add(b, word(k + 4)); c = D.add(c, word(k + 8)); k += 12
                    for rot in ((4, 6, 8), (16, 19, 4)):
                        a = D.sub(a, c); a = X(a, R(c, rot[0])); c = D.add(c, b)
                        b = D.sub(b, a); b = X(b, R(a, rot[1])); a = D.add(a, c)
                        c = D.sub(c, b); c = X(c, R(b, rot[2])); b = D.add(b, a)
                if n - k:
                    a = D.add(a, word(k)); b = D.add(b, word(k + 4)); c = D.add(c, word(k + 8))
                    c = D.sub(X(c, b), R(b, 14)); a = D.sub(X(a, c), R(c, 11)); b = D.sub(X(b, a), R(a, 25)); c = D.sub(X(c, b), R(b, 16))
                    a = D.sub(X(a, c), R(c, 4)); b = D.sub(X(b, a), R(a, 14)); c = D.sub(X(c, b), R(b, 24))
                d = D.differ(got, c)
                return ('the hash is another function: %s' % d) if d else outside(E, {'data': (n, False)})
            for D in (ConstDom(), Dom()): go(r, 'jhash', 'src/jhash.c', '%d bytes' % n, job, D)

    def golden(r):
        for nm, w, g in (('hash32', 32, G32), ('hash64', 64, G64), ('hashl', 64, G64)):
            for bits in range(w + 1):
                def job(E, D):
                    E.mod = mod; v = D.atom('v', w); got = E.run(need_fn(mod, 'w_' + nm), [v, D.const(bits, 32)], {})
                    m = D.mulw(v, D.const(g, w)); return D.differ(got, D.lshr(m, w - bits) if bits else D.const(0, w))
                go(r, nm, 'include/bfdev/hash.h', '%d bits' % bits, job)
        for nm, w, g in (('v32', 32, G32), ('v64', 64, G64), ('vl', 64, G64)):
            def job(E, D):
                E.mod = mod; v = D.atom('v', w); return D.differ(E.run(need_fn(mod, 'w_' + nm), [v], {}), D.mulw(v, D.const(g, w)))
            go(r, 'hash' + nm, 'include/bfdev/hash.h', 'every value', job)

    def pjw(r, n, choice):
        """ASCII bytes; bit `choice[i]` of byte i is set and the lower ones are clear, so the cases cover all strings"""
        def job(E, D):
            mem = {}; by = []
            for i in range(n):
                k = choice[i]; a = D.atom(('c', i), 8); by.append((ZERO,) * k + (ONE,) + a[k + 1:7] + (ZERO,)); mem[(OBJ('string'), i)] = by[-1]
            mem[(OBJ('string'), n)] = D.const(0, 8); h = D.const(0, 64)
            got = E.run(need_fn(lib, 'bfdev_pjwhash'), [P(OBJ('string'), 0)], mem)
            for b in by:
                h = D.add(D.shl(h, 4), D.zext(b, 64)); t = (ZERO,) * 28 + h[28:32] + (ZERO,) * 32
                h = D.bxor(D.bxor(h, D.lshr(t, 24)), t)
            d = D.differ(got, h)
            return ('the hash is another function: %s' % d) if d else outside(E, {'string': (n + 1, False)})
        go(r, 'pjwhash', 'src/stringhash.c', '%d characters, lowest bits %s' % (n, choice), job)
    TA = ((6, 13, 4294967294, 18), (2, 27, 4294967288, 2), (13, 21, 4294967280, 7), (3, 12, 4294967168, 13))

    def taus(D, st): return [D.bxor(D.shl(D.band(x, D.const(c, 32)), d), D.lshr(D.bxor(D.shl(x, a), x), b)) for x, (a, b, c, d) in zip(st, TA)]
    def word(D, v): return [v[8 * i:8 * i + 8] for i in range(4)]

    def random_(r):
        PR = OBJ('state'); F = 'src/prandom.c'
        def state(D): return [tuple(x for k in range(4) for x in D.atom(('m', PR, K[n] + k), 8)) for n in ('s1', 's2', 's3', 's4')]
        def cmp_state(E, D, mem, want, what):
            for n, w in zip(('s1', 's2', 's3', 's4'), want):
                got = tuple(x for k in range(4) for x in E.byte(mem, PR, K[n] + k)); d = D.differ(got, w)
                if d: return '%s: %s: %s' % (what, n, d)
            return outside(E, {'state': (K['psize'], True)})
        def value(E, D):
            mem = {}; got = E.run(need_fn(lib, 'bfdev_prandom_value'), [P(PR, 0)], mem); st = taus(D, state(D)); v = st[0]
            for x in st[1:]: v = D.bxor(v, x)
            return D.differ(got, v) or cmp_state(E, D, mem, st, 'state after a value')
        go(r, 'prandom_value', F, 'every state', value)
        for nm in ('w_pinit', 'w_pdef'):
            def init(E, D):
                E.mod = mod; mem = {}; E.run(need_fn(mod, nm), [P(PR, 0)], mem); return cmp_state(E, D, mem, [D.const(K['start'], 32)] * 4, 'state')
            go(r, 'prandom_init', 'include/bfdev/prandom.h', nm, init)
        def seeding(top):
            """seeds whose folded value is at least 128 (a bit above is set), or equal to one of the small values"""
            def job(E, D):
                mem = {}; lo = D.atom('lo', 32); hi = D.atom('hi', 32)
                f = D.bxor(lo, D.shl(lo, 10))      # the low half of seed ^ seed << 10; the high half is chosen to give the wanted folded value
                if isinstance(top, tuple): want = D.const(top[1], 32)
                else: a = D.atom('fold', 32); want = a[:top] + (ONE,) + a[top + 1:]
                hi = D.bxor(f, want); seed = lo + hi
                E.run(need_fn(lib, 'bfdev_prandom_seed'), [P(PR, 0), seed], mem)
                st = []
                for m in (2, 8, 16, 128): st.append(D.const(top[1] + m, 32) if isinstance(top, tuple) and top[1] < m else want)
                for _ in range(K['warm']): st = taus(D, st)
                return cmp_state(E, D, mem, st, 'state after seeding')
            go(r, 'prandom_seed', F, 'folded seed %s' % ('%d' % top[1] if isinstance(top, tuple) else 'with bit %d' % top), job)
        for t in list(range(7, 32)) + [('v', v) for v in range(128)]: seeding(t)
        for nm in ('u64', 'long'):
            def wide(E, D):
                E.mod = mod; mem = {}; calls = []
                E.externals = {'bfdev_prandom_value': lambda *a: calls.append(a) or D.atom(('draw', len(calls)), 32)}
                try: got = E.run(need_fn(mod, 'w_' + nm), [P(PR, 0)], mem)
                except Stuck:
                    E.mod = lib; raise
                return D.differ(got, D.atom(('draw', 2), 32) + D.atom(('draw', 1), 32))
            go(r, 'prandom_' + nm, 'include/bfdev/prandom.h', 'every state', wide)

    def arc4(r, keys):
        A = OBJ('context')
        for key in keys:
            want = rc4(key)
            def setup(E, D):
                mem = {(OBJ('key'), i): D.const(b, 8) for i, b in enumerate(key)}
                E.run(need_fn(lib, 'bfdev_arc4_setkey'), [P(A, 0), P(OBJ('key'), 0), D.const(len(key), 32)], mem)
                for i in range(256):
                    if D.cval(E.byte(mem, A, K['box'] + i)) != want[i]: return 'the box is wrong at %d' % i
                lim = {'context': (K['csize'], True), 'key': (len(key), False)}
                for n in range(3):
                    chunks = [[40], [1, 2, 37], [17, 1, 22, 0]][n]; m = dict(mem); S = list(want); i = j = 0; base = 0
                    for c in chunks:
                        o, q = OBJ('data%d_%d' % (n, base)), OBJ(('data%d_%d' if n == 1 else 'out%d_%d') % (n, base)); ks, i, j = stream(S, i, j, c)
                        E.run(need_fn(lib, 'bfdev_arc4_trans'), [P(A, 0), P(q, 0), P(o, 0), D.const(c, 64)], m)
                        for k in range(c):
                            d = D.differ(E.byte(m, q, k), D.bxor(D.atom(('m', o, k), 8), D.const(ks[k], 8)))
                            if d: return 'byte %d of the stream is wrong' % (base + k)
                        lim.setdefault(o[1], (c, n == 1)); lim.setdefault(q[1], (c, True))
                        w = outside(E, lim)
                        if w: return w
                        base += c
            go(r, 'arc4_trans', 'src/crypto/arc4.c', 'key of %d bytes %s' % (len(key), bytes(key[:6]).hex()), setup)
    rnd = random.Random(4); top = 42 if quick else 110
    keys = [[rnd.randrange(256) for _ in range(n)] for n in ([1, 2, 5, 8, 13, 16, 16, 24, 32, 64, 255, 256] if quick else list(range(1, 65)) + [128, 255, 256])] + [[0], [255], [1, 2, 3, 4, 5], list(range(256)), [0] * 16]
    jobs = [lambda r: golden(r), lambda r: random_(r)]
    jobs += [lambda r, i=i: jhash(r, [n for n in range(i, top, 8)]) for i in range(8)]
    ch = [(0, ())] + [(1, (k,)) for k in range(7)] + [(2, (k, l)) for k in range(7) for l in range(7)] + [(n, tuple(rnd.randrange(7) for _ in range(n))) for n in range(3, 9) for _ in range(4 if quick else 40)] + [(n, (0,) * n) for n in range(3, 9 if quick else 12)]
    jobs += [lambda r, i=i: [pjw(r, n, c) for n, c in ch[i::4]] for i in range(4)]
    jobs += [lambda r, i=i: arc4(r, keys[i::4]) for i in range(4)]
    par(res, jobs, 8)
    res.need('obligations', 300)
