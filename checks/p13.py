from common import *
from anf import *
RULE = 'every bit of the result is the bit of the polynomial remainder, for all data and start values; only the bytes of the buffer are read'
EXPLANATION = 'Each CRC function is analysed over canonical Boolean polynomials of the data and start value bits: first for every buffer length up to a bound and every alignment, then loop by loop (one iteration from an arbitrary remainder consumes exactly as many bytes as it advances and gives their remainder; entering, leaving and chaining the loops carries pointer, length and remainder over unchanged), which extends the result to every length.'

SPEC = {  # name: (reflected, polynomial, width, remainder kept byte-swapped at the interface boundary)
    'crc16': (1, 0xA001, 16), 'crc_ccitt': (1, 0x8408, 16), 'crc32': (1, 0xEDB88320, 32), 'crc_rocksoft': (1, 0x9A6C9329AC4BC9B5, 64),
    'crc8': (0, 0x07, 8), 'crc7': (0, 0x12, 8), 'crc_itut': (0, 0x1021, 16), 'crc_t10dif': (0, 0x8BB7, 16), 'crc64': (0, 0x42F0E1EBA9EA3693, 64),
}


def fold(D, spec, crc, data):
    """remainder after the bytes of data, one bit at a time"""
    r, poly, w = spec
    for b in data:
        if r:
            c = tuple(x ^ y for x, y in zip(crc, b)) + crc[8:] if w > 8 else tuple(x ^ y for x, y in zip(crc, b))
            for _ in range(8):
                l = c[0]; c = c[1:] + (ZERO,)
                c = tuple(x ^ l if poly >> i & 1 else x for i, x in enumerate(c))
        else:
            c = crc[:w - 8] + tuple(x ^ y for x, y in zip(crc[w - 8:], b))
            for _ in range(8):
                l = c[-1]; c = (ZERO,) + c[:-1]
                c = tuple(x ^ l if poly >> i & 1 else x for i, x in enumerate(c))
        crc = c
    return crc


def fold4(D, crc, data):
    """CRC-4: x^4+x+1 as the library's nibble table has it (bit reversed table lookup per nibble)"""
    T = [0, 7, 14, 9, 11, 12, 5, 2, 1, 6, 15, 8, 10, 13, 4, 3]
    for b in data:
        for nib in (b[4:], b[:4]):
            crc = D.lookup(T, 4, tuple(x ^ y for x, y in zip(crc[:4], nib)))
    return tuple(crc) + (ZERO,) * 4


SRC = ('obj', 'src')


def bounded(res, mod, fn, nm, spec, lengths, aligns, bad, unit=1):
    w = 8 if spec is None else spec[2]
    for sym in (False, True):
        for n in lengths:
            for al in aligns:
                D = Dom(); E = Eval(mod, D); E.align[SRC] = 6; E.MAXSTEP = 300 + 20 * n
                outside = lambda: [x for x in E.reads if x[0] == SRC and not (al <= x[1] and x[1] + x[2] <= al + n)]
                crc = D.atom('crc', w) if sym else D.const(0, w)
                if spec is None and sym: crc = crc[:4] + (ZERO,) * 4
                data = [D.atom(('m', SRC, al + i), 8) for i in range(n)]
                try:
                    mem = {}
                    r = E.run(fn, [P(SRC, al), D.const(n * unit, 64), crc], mem)
                    want = fold4(D, crc, data) if spec is None else fold(D, spec, crc, data)
                    if n == 0: want = crc
                    d = D.differ(r, want)
                    out = outside()
                    wr = [x for x in E.writes if x[0] == SRC]
                except Exception as e:
                    if outside(): bad('read', 'reads outside a buffer of %d bytes' % n); return
                    res.undecided('bfdev_%s over %d bytes' % (nm, n), e); return
                res.count('lengths_and_alignments'); res.count('instructions', E.instrs)
                if d: bad('remainder', 'after %d bytes (address %d past a boundary) the remainder is wrong: %s' % (n, al, d)); return
                if out: bad('read', 'reads outside a buffer of %d bytes' % n); return
                if wr: bad('write', 'writes to the buffer'); return


def inductive(res, mod, fn, nm, spec, bad):
    """the loops one by one, for every length"""
    w = spec[2]; heads = sorted(fn.loops, key=lambda h: fn.rpon[h])
    if not heads: raise Stuck('no loop')
    roles = {}
    CUR = ('obj', 'cur')

    def phis(h): return [x for x in fn.blocks[h] if x.o == 'phi']
    for h in heads:
        r = {}
        for x in phis(h):
            if x.t == 'ptr': r.setdefault('p', []).append(x.i)
            elif x.t == 'i64':
                # the remaining length goes down by a constant
                st = [fn.by.get(v) for b, v in x.a if b in fn.loops[h]]
                if all(y is not None and y.o in ('add', 'sub') for y in st): r.setdefault('n', []).append(x.i)
                else: r.setdefault('c', []).append(x.i)
            else: r.setdefault('c', []).append(x.i)
        if any(len(r.get(k, ())) != 1 for k in 'pnc'): raise Stuck('loop at block %d has no pointer/length/remainder form' % h)
        roles[h] = tuple(r[k][0] for k in 'pnc')
        if width(fn.by[roles[h][2]].t) != w: raise Stuck('remainder of another width')
    D = Dom(); L = D.atom('len', 64); C = D.atom('crc', w)

    def enter(h, env, length):
        e = dict(env); p, n, c = roles[h]
        e[p] = P(CUR, 0); e[n] = length; e[c] = C
        return e

    def at(E, fn_, env, ref): return E.value(fn_, env, ref)

    def follow(b, pred, env, stops, stay=None):
        E = Eval(mod, D)
        r = E.region(fn, b, pred, env, {}, stops, stay)
        if r is None: raise Stuck('path ends')
        return E, r

    def incoming(h, pred, E, env):
        if isinstance(pred, tuple): raise Stuck('joined entry')
        out = []
        for i in roles[h]:
            v = [v for b, v in fn.by[i].a if b == pred]
            if len(v) != 1: raise Stuck('phi')
            out.append(E.value(fn, env, v[0]))
        return out
    # entry
    env = {0: P(CUR, 0), 1: L, 2: C}
    E, r = follow(0, None, env, set(heads))
    if r[2] != heads[0]: raise Stuck('does not enter the first loop')
    p, n, c = incoming(heads[0], r[0], E, env)
    env0 = env
    if p != P(CUR, 0): raise Stuck('start pointer')
    if n != L: bad('length', 'the first loop does not start with the length given'); return
    swapped = c != C
    if c not in (C, D.bswap(C)): bad('start', 'the first loop does not start with the remainder given'); return
    # iterations; inside the loops the remainder of an msb-first code is kept byte swapped
    inner = (lambda v: D.bswap(v)) if swapped else (lambda v: v)
    for h in heads:
        e = enter(h, env0, L); loop = fn.loops[h]
        E = Eval(mod, D)
        # one iteration: evaluate the header, take the branch that stays
        back = 'back'
        res2 = None
        mem = {}
        # walk from the header to the header again
        r = E.region(fn, h, None, e, mem, {h}, loop)
        if r is None or r[2] != h: raise Stuck('iteration')
        p, n, c = incoming(h, r[0], E, e)
        if not isinstance(p, P) or p.base != CUR or not isinstance(p.off, int) or p.off <= 0: raise Stuck('advance')
        k = p.off
        if D.sub(L, n) != D.const(k, 64): bad('advance', 'a loop advances %d bytes but does not count %d' % (k, k)); return
        data = [D.atom(('m', CUR, i), 8) for i in range(k)]
        want = inner(fold(D, spec, inner(C), data))
        d = D.differ(c, want)
        if d: bad('step', 'a loop iteration over %d bytes does not give their remainder: %s' % (k, d)); return
        if any(x[0] == CUR and not (0 <= x[1] and x[1] + x[2] <= k) for x in E.reads): bad('read', 'an iteration reads other bytes than it consumes'); return
        res.count('loop_iterations_proved')
        # the guard: never taken with fewer bytes left
        for j in range(k):
            e = enter(h, env0, D.const(j, 64)); E = Eval(mod, D)
            nxt = [x for x in heads if x != h]
            r = E.region(fn, h, None, e, {}, set(nxt) | {x for x in loop if x != h and not exitsoon(fn, x, loop)}, None)
            if r is None: raise Stuck('guard')
            if r[2] in loop and r[2] != h and r[2] not in nxt: bad('guard', 'a loop consuming %d bytes is entered with %d left' % (k, j)); return
        res.count('guards_proved')
    # leaving a loop: state handed on unchanged
    for q, h in enumerate(heads):
        e = enter(h, env0, L); E = Eval(mod, D); loop = fn.loops[h]
        r = leave(E, fn, h, e, loop, set(heads))
        if r is None: raise Stuck('exit')
        if r[2] == 'X':
            if q != len(heads) - 1: raise Stuck('early return')
            d = D.differ(r[1], inner(C))
            if d: bad('result', 'the function does not return the remainder: %s' % d); return
            # nothing left at the end: a length with any byte left stays in the loop
            cond = guard(D, mod, fn, h, e0=enter(h, env0, L), loop=loop)
            if cond is None: raise Stuck('final guard')
            if cond != D.cmp('ne', L, D.const(0, 64)): bad('rest', 'the last loop can stop with bytes left'); return
            continue
        if q + 1 >= len(heads) or r[2] != heads[q + 1]: raise Stuck('order of loops')
        p, n, c = incoming(r[2], r[0], E, e)
        if p != P(CUR, 0) or n != L or c != C: bad('handover', 'pointer, length or remainder change between two loops'); return
        res.count('handovers_proved')
    res.count('functions_proved_for_every_length')


def exitsoon(fn, b, loop):
    """blocks of the loop that still decide whether to go on (condition blocks)"""
    return any(x not in loop for x in fn.succ[b])


def leave(E, fn, h, env, loop, heads):
    """follow the exit edge of the loop from its header or a condition block reached from the header"""
    b, pred = h, None
    ex = [(x, y) for x in loop for y in fn.succ[x] if y not in loop]
    tg = {y for _, y in ex}
    if len(tg) != 1: raise Stuck('several exits')
    t = tg.pop()
    x = ex[0][0]
    # evaluate header (and short circuit blocks) for their side values
    for q in [h] + [c for c, _ in ex if c != h]:
        for i in fn.blocks[q]:
            if i.o in ('phi', 'br'): continue
            E.step(fn, i, env, {})
    return E.region(fn, t, x, env, {}, {y for y in heads if y != h}, None)


def guard(D, mod, fn, h, e0, loop):
    ex = [x for x in loop if any(y not in loop for y in fn.succ[x])]
    if ex != [h]: return None
    E = Eval(mod, D)
    t = fn.blocks[h][-1]
    for i in fn.blocks[h]:
        if i.o in ('phi', 'br'): continue
        E.step(fn, i, e0, {})
    c = E.value(fn, e0, t.a[0])[0]
    return c if t.d['s'][0] in loop else pnot(c)


def one(ctx, res, mod, tag, lengths):
    for nm in list(SPEC) + ['crc4']:
        fn = mod.fn('bfdev_' + nm)
        if fn is None: raise AnalysisBroken('bfdev_%s not found' % nm)
        spec = SPEC.get(nm)

        def bad(key, text):
            res.bad('bfdev_%s:%s' % (nm, key), '%s:%d (bfdev_%s)' % (relf(fn.file), fn.line, nm), 'remainder polynomial', 'bfdev_%s%s: %s' % (nm, tag, text))
        n0 = len(res.viol)
        bounded(res, mod, fn, nm, spec, lengths if spec else lengths[:12], (0, 1, 2, 3), bad, 1 if spec else 8)
        res.count('functions')
        if len(res.viol) > n0 or spec is None: continue
        try: inductive(res, mod, fn, nm, spec, bad)
        except Exception as e:
            res.assume.append('bfdev_%s%s decided for the bounded lengths only: %s' % (nm, tag, e)); res.count('functions_bounded_only')
        res.sample('bfdev_%s' % nm)


def run(ctx, res):
    top = 24 if ctx.tier == 'quick' else 72
    one(ctx, res, ctx.lib(True), '', list(range(0, top + 1)))
    if ctx.tier != 'quick':
        from build import Tree
        t = Tree(True, ['-DBFDEV_CRC_EXTEND=OFF'])
        m = Module(t.dump(t.bitcode()))
        one(ctx, res, m, ' (without loop unrolling)', list(range(0, 33)))
    res.need('functions', 10)
    res.need('lengths_and_alignments', 300)
