import math, resource, signal, time
import multiprocessing, concurrent.futures as cf
from common import *
from anf import *
RULE = 'the chaining value, buffered bytes, length field and digest bytes are the specified functions of the message bits'
EXPLANATION = 'Initialisation, update and finish of MD5, SHA-1, SHA-224 and SHA-256 are analysed over canonical bit polynomials and modular sums of the message, state and count bits and compared with the published algorithms written in the same domain: a full compression of 512 arbitrary message bits from an arbitrary state; padding for each of the 64 buffer fill levels with an arbitrary total length; buffering for fill levels and sizes around every block boundary.'


def root(n, k, bits):
    """first bits of the fractional part of the k-th root of n"""
    x = n << (bits * k); lo, hi = 0, 1 << (bits + 8)
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** k <= x: lo = m
        else: hi = m
    return lo & (1 << bits) - 1


PR = [p for p in range(2, 320) if all(p % q for q in range(2, p))]
K2 = [root(p, 3, 32) for p in PR[:64]]
I256 = [root(p, 2, 32) for p in PR[:8]]
I224 = [root(p, 2, 64) & 0xffffffff for p in PR[8:16]]
I1 = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
KM = [int(abs(math.sin(i + 1)) * 2 ** 32) for i in range(64)]
SM = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]


class Ref:
    def __init__(s, D): s.D = D
    def be(s, b): return tuple(x for i in (3, 2, 1, 0) for x in b[i])
    def le(s, b): return tuple(x for i in range(4) for x in b[i])
    def c(s, v): return s.D.const(v, 32)
    def add(s, *a): return s.D.mksum([(1, x) for x in a], 0, 32)
    def ror(s, a, n): return s.D.rotl(a, 32 - n)

    def md5(s, st, blk):
        D = s.D; w = [s.le(blk[4 * i:4 * i + 4]) for i in range(16)]
        a, b, c, d = st
        for i in range(64):
            r = i // 16
            if r == 0: f = D.bxor(d, D.band(b, D.bxor(c, d))); g = i
            elif r == 1: f = D.bxor(c, D.band(d, D.bxor(b, c))); g = (5 * i + 1) % 16
            elif r == 2: f = D.bxor(b, D.bxor(c, d)); g = (3 * i + 5) % 16
            else: f = D.bxor(c, D.bor(b, D.bnot(d))); g = 7 * i % 16
            x = s.add(a, f, s.c(KM[i]), w[g])
            a, d, c, b = d, c, b, s.add(b, D.rotl(x, SM[r][i % 4]))
        return [s.add(x, y) for x, y in zip(st, (a, b, c, d))]

    def sha1(s, st, blk):
        D = s.D; w = [s.be(blk[4 * i:4 * i + 4]) for i in range(16)]
        for i in range(16, 80): w.append(D.rotl(D.bxor(D.bxor(w[i - 3], w[i - 8]), D.bxor(w[i - 14], w[i - 16])), 1))
        a, b, c, d, e = st
        for i in range(80):
            if i < 20: f, k = D.bxor(d, D.band(b, D.bxor(c, d))), 0x5a827999
            elif i < 40: f, k = D.bxor(b, D.bxor(c, d)), 0x6ed9eba1
            elif i < 60: f, k = D.bxor(D.bxor(D.band(b, c), D.band(b, d)), D.band(c, d)), 0x8f1bbcdc
            else: f, k = D.bxor(b, D.bxor(c, d)), 0xca62c1d6
            t = s.add(D.rotl(a, 5), f, e, s.c(k), w[i])
            e, d, c, b, a = d, c, D.rotl(b, 30), a, t
        return [s.add(x, y) for x, y in zip(st, (a, b, c, d, e))]

    def sha2(s, st, blk):
        D = s.D; w = [s.be(blk[4 * i:4 * i + 4]) for i in range(16)]
        x3 = lambda p, q, r: D.bxor(D.bxor(p, q), r)
        for i in range(16, 64):
            s0 = x3(s.ror(w[i - 15], 7), s.ror(w[i - 15], 18), D.lshr(w[i - 15], 3))
            s1 = x3(s.ror(w[i - 2], 17), s.ror(w[i - 2], 19), D.lshr(w[i - 2], 10))
            w.append(s.add(s1, w[i - 7], s0, w[i - 16]))
        v = list(st)
        for i in range(64):
            a, b, c, d, e, f, g, h = v
            t1 = s.add(h, x3(s.ror(e, 6), s.ror(e, 11), s.ror(e, 25)), D.bxor(g, D.band(e, D.bxor(f, g))), s.c(K2[i]), w[i])
            t2 = s.add(x3(s.ror(a, 2), s.ror(a, 13), s.ror(a, 22)), x3(D.band(a, b), D.band(a, c), D.band(b, c)))
            v = [s.add(t1, t2), a, b, c, s.add(d, t1), e, f, g]
        return [s.add(x, y) for x, y in zip(st, v)]


ALG = {  # name: (context struct, state words, compression, length and digest order)
    'md5': ('bfdev_md5_ctx', 4, 'md5', 'le'), 'sha1': ('bfdev_sha1_ctx', 5, 'sha1', 'be'),
    'sha2': ('bfdev_sha2_ctx', 8, 'sha2', 'be'),
}
INIT = {'bfdev_md5_init': ('md5', I1[:4]), 'bfdev_sha1_init': ('sha1', I1), 'bfdev_sha224_init': ('sha2', I224), 'bfdev_sha256_init': ('sha2', I256)}
FINISH = {'bfdev_md5_finish': ('md5', 4), 'bfdev_sha1_finish': ('sha1', 5), 'bfdev_sha224_finish': ('sha2', 7), 'bfdev_sha256_finish': ('sha2', 8)}
C = ('obj', 'ctx'); DATA = ('obj', 'data'); OUT = ('obj', 'hash')
MOD = None


def layout(alg):
    m = MOD.types[ALG[alg][0]]
    st = buf = cnt = None
    for n, o, t, sz in m['m']:
        if t.startswith('arr') and sz == 64: buf = o
        elif t.startswith('arr') and sz == 4 * ALG[alg][1]: st = o
        elif sz == 8: cnt = o
    if None in (st, buf, cnt): raise AnalysisBroken('layout of struct %s' % ALG[alg][0])
    return st, buf, cnt, m['size']


def words(D, st, n): return [tuple(b for k in range(4) for b in D.atom(('m', C, st + 4 * i + k), 8)) for i in range(n)]
def bytes_of(words, order):
    r = []
    for w in words:
        q = [w[8 * k:8 * k + 8] for k in range(4)]
        r += q if order == 'le' else q[::-1]
    return r


def task(t):
    """one obligation; returns (task, None | (key, text), instructions, undecided)"""
    kind = t[0]
    r = attempt(t, ConstDom())
    if r[1]: return r
    signal.signal(signal.SIGALRM, expired); signal.alarm(90)
    try: return attempt(t, Dom())
    finally: signal.alarm(0)


def expired(*a): raise TimeoutError('time limit of one obligation')


def attempt(t, D):
    kind = t[0]; E = Eval(MOD, D); E.MAXSTEP = 6000; mem = {}
    try:
        if kind == 'init': r = t_init(t, D, E, mem)
        elif kind == 'finish': r = t_finish(t, D, E, mem)
        elif kind == 'length': r = t_length(t, D, E, mem)
        else: r = t_update(t, D, E, mem)
        return t, r, E.instrs, None
    except Exception as e:
        reach = [x for x in E.reads | E.writes if x[0] in (C, DATA, OUT) and not (x[0] == C and 0 <= x[1] and x[1] + x[2] <= layout(alg_of(t))[3])]
        if any(x[0] == C for x in reach): return t, ('reach', 'reaches outside the context'), E.instrs, None
        if kind == 'update' and any(x[0] == DATA and not (0 <= x[1] and x[1] + x[2] <= t[3]) for x in reach): return t, ('read', 'reads outside the data'), E.instrs, None
        if isinstance(e, (MemoryError, TimeoutError)): return t, None, 0, 'resources'
        return t, None, E.instrs, '%s %s' % (type(e).__name__, e)


def rd(E, mem, base, off): return E.byte(mem, base, off)


def same(E, mem, base, off, want, what):
    for i, b in enumerate(want):
        g = rd(E, mem, base, off + i)
        d = E.D.differ(g, b)
        if d: return '%s: byte %d: %s' % (what, i, d)
    return None


def alg_of(t): return t[1] if t[0] in ('update', 'length') else (INIT if t[0] == 'init' else FINISH)[t[1]][0]


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def t_init(t, D, E, mem):
    f = t[1]; alg, iv = INIT[f]; st, buf, cnt, size = layout(alg)
    E.run(need_fn(MOD, f), [P(C, 0)], mem)
    d = same(E, mem, C, st, bytes_of([D.const(v, 32) for v in iv], 'le'), 'initial chaining value')
    d = d or same(E, mem, C, cnt, [(ZERO,) * 8] * 8, 'initial length')
    return ('init', d) if d else None


def fill(D, mem, cnt, p):
    """total length with a known fill level and otherwise arbitrary"""
    c = D.const(p, 6) + D.atom('total', 58)
    for i in range(8): mem[(C, cnt + i)] = c[8 * i:8 * i + 8]
    return c


def t_finish(t, D, E, mem):
    f, p = t[1:]; alg, nw = FINISH[f]; st, buf, cnt, size = layout(alg); order = ALG[alg][3]
    c = fill(D, mem, cnt, p)
    E.run(need_fn(MOD, f), [P(C, 0), P(OUT, 0)], mem)
    R = Ref(D); comp = getattr(R, ALG[alg][2])
    state = words(D, st, ALG[alg][1])
    msg = [D.atom(('m', C, buf + i), 8) for i in range(p)] + [D.const(0x80, 8)]
    while len(msg) % 64 != 56: msg.append(D.const(0, 8))
    L = D.shl(c, 3); L = [L[8 * i:8 * i + 8] for i in range(8)]
    msg += L if order == 'le' else L[::-1]
    for i in range(0, len(msg), 64): state = comp(state, msg[i:i + 64])
    d = same(E, mem, OUT, 0, bytes_of(state[:nw], order), 'digest with %d bytes buffered' % p)
    if d: return ('digest', d)
    for b, o, n in E.writes:
        if b == OUT and not (0 <= o and o + n <= 4 * nw): return ('digest', 'writes outside the digest')
        if b == C and not (0 <= o and o + n <= size): return ('digest', 'writes outside the context')
    return None


def t_length(t, D, E, mem):
    """the length counter after an update of any size, up to the first decision that depends on the size"""
    alg = t[1]; st, buf, cnt, size = layout(alg)
    c = D.atom('total', 64); n = D.atom('n', 64)
    for i in range(8): mem[(C, cnt + i)] = c[8 * i:8 * i + 8]
    try: E.run(need_fn(MOD, 'bfdev_%s_update' % alg), [P(C, 0), P(DATA, 0), n], mem)
    except Exception: pass
    got = tuple(x for i in range(8) for x in mem[(C, cnt + i)])
    if got == c: return None     # written later: the bounded sizes decide
    d = D.differ(got, D.add(c, n))
    return ('length', 'the length after an update of any size: ' + d) if d else None


def t_update(t, D, E, mem):
    alg, p, n = t[1:]; st, buf, cnt, size = layout(alg)
    c = fill(D, mem, cnt, p)
    E.run(need_fn(MOD, 'bfdev_%s_update' % alg), [P(C, 0), P(DATA, 0), D.const(n, 64)], mem)
    R = Ref(D); comp = getattr(R, ALG[alg][2])
    state = words(D, st, ALG[alg][1])
    msg = [D.atom(('m', C, buf + i), 8) for i in range(p)] + [D.atom(('m', DATA, i), 8) for i in range(n)]
    k = len(msg) // 64
    for i in range(k): state = comp(state, msg[64 * i:64 * i + 64])
    what = 'adding %d bytes to %d buffered ones' % (n, p)
    d = same(E, mem, C, st, bytes_of(state, 'le'), what + ': chaining value')
    if d: return ('update', d)
    d = same(E, mem, C, buf, msg[64 * k:], what + ': buffered bytes')
    if d: return ('update', d)
    w = D.add(c, D.const(n, 64))
    d = same(E, mem, C, cnt, [w[8 * i:8 * i + 8] for i in range(8)], what + ': length')
    if d: return ('update', d)
    for b, o, q in E.reads | E.writes:
        if b == DATA and not (0 <= o and o + q <= n): return ('update', what + ': reads outside the data')
        if b == C and not (0 <= o and o + q <= size): return ('update', what + ': reaches outside the context')
    return None


def run(ctx, res):
    global MOD
    MOD = ctx.lib(True)
    tasks = [('init', f) for f in INIT] + [('length', a) for a in ALG]
    for f, (alg, _) in FINISH.items():
        some = {0, 3, 55, 56, 63} if f == 'bfdev_sha224_finish' else set(range(64)) if alg != 'sha2' else {0, 1, 2, 3, 8, 15, 16, 31, 32, 33, 47, 48, *range(52, 64)}
        tasks += [('finish', f, p) for p in (range(64) if ctx.tier != 'quick' else sorted(some))]
    for alg in ALG:
        quick = {(0, 0), (0, 1), (0, 63), (0, 64), (0, 65), (0, 128), (1, 62), (1, 63), (1, 64), (31, 33), (31, 100), (63, 0), (63, 1), (63, 2), (63, 65), (33, 30), (55, 9)}
        full = {(p, n) for p in range(0, 64, 3) for n in (0, 1, 2, 63 - p, 64 - p, 65 - p, 127 - p, 128 - p, 129 - p, 64, 192) if n >= 0}
        tasks += [('update', alg, p, n) for p, n in sorted(quick | (full if ctx.tier != 'quick' else set()))]
    tasks.sort(key=lambda t: -(t[0] == 'finish') - ('sha2' in t[1]))
    end = time.time() + (500 if ctx.tier == 'quick' else 7200); out = []
    with cf.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork'), initializer=limit) as pool:
        fs = {pool.submit(task, t): t for t in tasks}
        try:
            for f in cf.as_completed(fs, timeout=max(1, end - time.time())): out.append(f.result())
        except (cf.TimeoutError, cf.process.BrokenProcessPool) as e:
            done = {o[0] for o in out}
            out += [(t, None, 0, 'resources') for t in tasks if t not in done]
            for p in list(pool._processes.values()): p.kill()
            pool.shutdown(wait=False, cancel_futures=True)
    order = {t: i for i, t in enumerate(tasks)}; out.sort(key=lambda o: order[o[0]])
    for t, r, ins, und in out:
        res.count('instructions', ins)
        f = t[1] if t[0] not in ('update', 'length') else 'bfdev_%s_update' % t[1]
        if und: res.undecided(' '.join(map(str, t)), und); continue
        res.count('obligations'); res.count(t[0] + '_cases')
        fn = MOD.fn(f)
        if r: res.bad('%s:%s' % (f, r[0]), '%s:%d (%s)' % (relf(fn.file), fn.line, f), 'published algorithm', '%s: %s' % (f, r[1]))
        res.sample(' '.join(map(str, t)))
    res.need('obligations', 120)
