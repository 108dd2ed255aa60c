from common import *
from anf import *
from par import par
RULE = 'the result has the shape and the elements of the operation on the operands as they were, and the operands stay as they were'
EXPLANATION = 'Matrices of every shape up to a bound with open elements are imported, combined and read back; every element is compared with the defined sum of products in a canonical modular form; the results go into fresh matrices, into larger or smaller old ones and into their own operands; every allocation is made to fail once.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/matrix.h>
const unsigned long off_size = sizeof(bfdev_matrix_t), off_row = __builtin_offsetof(bfdev_matrix_t, row), off_col = __builtin_offsetof(bfdev_matrix_t, col), off_einval = BFDEV_EINVAL, off_enomem = BFDEV_ENOMEM, off_cell = sizeof(BFDEV_MATRIX_TYPE);
'''
LINES = [('bfdev_matrix_init', 'void w_init(bfdev_matrix_t *m) { bfdev_matrix_init(m, 0); }')]
OBJ = lambda n: ('obj', n)
F = 'src/matrix.c'


class Wrong(Exception):
    def __init__(s, api, text): super().__init__(text); s.api = api


class Mat:
    def __init__(s, mod, lib, K, failat=None):
        s.mod, s.lib, s.K = mod, lib, K; s.D = Dom(); s.E = Eval(lib, s.D); s.mem = {}; s.n = 0; s.calls = 0; s.failat = failat; s.heap = {}; s.failed = 0
        s.E.externals = {'bfdev_realloc': s.realloc, 'bfdev_malloc': lambda E, x, a, m: s.realloc(E, x, [a[0], None, a[1]], m), 'bfdev_zalloc': s.zalloc, 'bfdev_free': s.free, '*': s.outside}

    def outside(s, E, x, c, a, m): raise Stuck('call of %s' % c)

    def zalloc(s, E, x, a, m):
        p = s.realloc(E, x, [a[0], None, a[1]], m)
        if isinstance(p, P):
            for i in range(s.heap[p.base][0]): m[(p.base, i)] = s.D.const(0, 8)
        return p

    def realloc(s, E, x, a, m):
        s.calls += 1; size = s.D.cval(a[2])
        if s.calls == s.failat: s.failed += 1; return s.D.const(0, 64)
        b = OBJ('heap%d' % s.n); s.n += 1; s.heap[b] = (size, True)
        if isinstance(a[1], P):
            old, live = s.heap.get(a[1].base, (0, False))
            if a[1].off or not live: raise Wrong('matrix', 'reallocates a block that is not owned')
            for i in range(min(old, size)):
                if (a[1].base, i) in m: m[(b, i)] = m[(a[1].base, i)]
            s.heap[a[1].base] = (old, False)
        return P(b, 0)

    def free(s, E, x, a, m):
        if not isinstance(a[1], P): return None
        size, live = s.heap.get(a[1].base, (0, False))
        if a[1].off or not live: raise Wrong('matrix', 'frees a block that is not owned')
        s.heap[a[1].base] = (size, False)

    def run(s, api, *args):
        D = s.D; s.E.reads.clear(); s.E.writes.clear()
        av = [P(OBJ(a), 0) if isinstance(a, str) else D.const(a, 32) if isinstance(a, int) else a for a in args]
        dead = {b for b, (n, l) in s.heap.items() if not l}
        v = s.E.run(need_fn(s.lib, 'bfdev_matrix_' + api), av, s.mem)
        for acc, what in ((s.E.reads, 'reads'), (s.E.writes, 'writes')):
            for b, o, n in acc:
                if b in dead: raise Wrong(api, '%s a block that was released' % what)
                lim = s.heap[b][0] if b in s.heap else s.K['size'] if b[0] == 'obj' and not b[1].startswith('buf') else None
                if lim is not None and not (0 <= o and o + n <= lim): raise Wrong(api, '%s outside the block' % what)
                if b[0] == 'obj' and b[1].startswith('buf') and what == 'writes': raise Wrong(api, 'writes the imported buffer')
        return v

    def init(s, n):
        s.E.mod = s.mod; s.E.run(need_fn(s.mod, 'w_init'), [P(OBJ(n), 0)], s.mem); s.E.mod = s.lib

    def load(s, n, r, c, buf):
        """import a matrix; gives its elements"""
        v = s.num(s.run('import', n, buf, r, c))
        want = [[tuple(x for i in range(8) for x in s.D.atom(('m', OBJ(buf), 8 * (y * c + z) + i), 8)) for z in range(c)] for y in range(r)]
        if v == 0: s.check('import', n, want, r, c)
        elif not s.failed: raise Wrong('import', 'refuses with %s' % v)
        return v, want

    def num(s, v):
        x = s.D.cval(v) if isinstance(v, tuple) else None
        if x is None: raise Wrong('matrix', 'the result depends on the elements')
        return x - (1 << 32) if x >> 31 else x

    def field(s, n, o):
        v = tuple(x for i in range(4) for x in s.E.byte(s.mem, OBJ(n), o + i)); return s.D.cval(v)

    def check(s, api, n, want, r, c):
        if (s.field(n, s.K['row']), s.field(n, s.K['col'])) != (r, c): raise Wrong(api, 'the shape is %sx%s, not %dx%d' % (s.field(n, s.K['row']), s.field(n, s.K['col']), r, c))
        for y in range(r + 2):
            for z in range(c + 2):
                p = s.run('data', n, y, z)
                if y >= r or z >= c:
                    if isinstance(p, P) or s.D.cval(p) != 0: raise Wrong('data', 'element (%d, %d) of a %dx%d matrix is given' % (y, z, r, c))
                    continue
                if not isinstance(p, P): raise Wrong('data', 'element (%d, %d) of a %dx%d matrix is refused' % (y, z, r, c))
                got = []
                for i in range(8):
                    b = s.E.byte(s.mem, p.base, p.off + i)
                    if b is None: raise Wrong(api, 'element (%d, %d) is undefined' % (y, z))
                    got += b
                d = s.D.differ(tuple(got), want[y][z])
                if d: raise Wrong(api, 'element (%d, %d) is wrong: %s' % (y, z, d))


def run(ctx, res):
    quick = ctx.tier == 'quick'; N = 3 if quick else 5
    mod = ctx.instantiate('w_p39', PRE, LINES, res); lib = ctx.lib(False)
    from sim import offsets
    K = offsets(mod)
    if K['cell'] != 8: raise Broken('elements are not 64 bits wide')

    def guarded(r, case, job):
        m = None
        try: job()
        except Wrong as e: r.bad('matrix ' + e.api, '%s (bfdev_matrix_%s)' % (F, e.api), RULE, 'bfdev_matrix_%s: %s: %s' % (e.api, case, e))
        except Undefined as e: r.bad('matrix', F, RULE, '%s: %s' % (case, e))
        except Exception as e: return r.undecided('matrix', '%s: %s %s' % (case, type(e).__name__, str(e)[:120]))
        r.count('cases')

    def want(D, op, A, B):
        if op in ('add', 'sub'): return [[(D.add if op == 'add' else D.sub)(x, y) for x, y in zip(p, q)] for p, q in zip(A, B)]
        if op == 'mul': return [[D.mksum([(1, D.mulw(A[y][k], B[k][z])) for k in range(len(B))], 0, 64) for z in range(len(B[0]))] for y in range(len(A))]
        if op == 'trans': return [[A[y][z] for y in range(len(A))] for z in range(len(A[0]))]
        return A

    def case(r, op, ra, ca, rb, cb, dest, failat=None):
        label = '%s of %dx%d%s into %s%s' % (op, ra, ca, '' if op in ('trans', 'set') else ' and %dx%d' % (rb, cb), dest, ', allocation %d fails' % failat if failat else '')
        box = []
        def job():
            m = Mat(mod, lib, K, failat); box.append(m); D = m.D
            for n in 'abd': m.init(n)
            v, A = m.load('a', ra, ca, 'bufa')
            if v: return failed(m, v, 'import')
            two = op in ('add', 'sub', 'mul'); B = None
            if two:
                v, B = m.load('b', rb, cb, 'bufb')
                if v: return failed(m, v, 'import')
            if dest in ('larger', 'smaller'):
                q = (N + 2, N + 2) if dest == 'larger' else (1, 1); v, old = m.load('d', q[0], q[1], 'bufd')
                if v: return failed(m, v, 'import')
            y = 'a' if dest in 'ac' and dest == 'both' else 'b'
            a, b, d = 'a', 'b', 'd'
            if dest == 'first': d = 'a'
            elif dest == 'second': d = 'b'
            elif dest == 'both': b = d = 'a'; B = A
            elif dest == 'squared': b = 'a'; B = A
            rb_, cb_ = (ra, ca) if b == 'a' else (rb, cb)
            ok = op in ('trans', 'set') or ((ra, ca) == (rb_, cb_) if op != 'mul' else ca == rb_)
            keep = {k: v for k, v in m.mem.items() if k[0] == OBJ(d)}
            v = m.num(m.run(op, d, a, b) if two else m.run(op, d, a))
            if not ok:
                if v != -K['einval']: raise Wrong(op, 'answers %d to shapes that do not fit' % v)
                if keep != {k: v for k, v in m.mem.items() if k[0] == OBJ(d)}: raise Wrong(op, 'refuses and changes its destination')
                W = None
            elif v:
                return failed(m, v, op, [(n, X, rr, cc) for n, X, rr, cc in (('a', A, ra, ca), ('b', B, rb, cb)) if n != d and X is not None and (n != 'b' or b == 'b')])
            else:
                W = want(D, op, A, B); m.check(op, d, W, len(W), len(W[0]))
            if d != 'a': m.check(op, 'a', A, ra, ca)
            if two and b == 'b' and d != 'b': m.check(op, 'b', B, rb, cb)
            for n in 'abd':
                m.run('release', n)
                if (m.field(n, K['row']), m.field(n, K['col'])) != (0, 0): raise Wrong('release', 'leaves a shape')
            if any(l for _, l in m.heap.values()): raise Wrong(op, 'a block is never released')

        def failed(m, v, op, rest=()):
            if not m.failed: raise Wrong(op, 'fails with %d' % v)
            if v != -K['enomem']: raise Wrong(op, 'answers %d when memory is exhausted' % v)
            for n, X, rr, cc in rest: m.check(op, n, X, rr, cc)
        guarded(r, label, job)
        if box: r.count('instructions', box[0].E.instrs); r.count('allocations', box[0].calls)
        return box[0].calls if box else 0
    R = range(1, N + 1)
    def shapes(op):
        for a in R:
            for b in R:
                if op in ('trans', 'set'): yield (a, b, 1, 1); continue
                for c in R:
                    for d in ([b, b % N + 1] if op == 'mul' else [a]):
                        if op == 'mul': yield (a, b, d, c)
                        elif c == b: yield (a, b, a, b)
                        elif a == 1: yield (a, b, c, b); yield (a, b, b, c)
    def job(r, op, i):
        for k, s in enumerate(shapes(op)):
            if k % 3 != i: continue
            for dest in (['fresh', 'larger', 'smaller'] + ([] if op in ('trans', 'set') else ['first', 'second', 'both', 'squared'])):
                if dest in ('both', 'squared') and s[0] != s[1]: continue
                n = case(r, op, *s, dest)
                for f in range(1, n + 1): case(r, op, *s, dest, f)
    par(res, [lambda r, op=op, i=i: job(r, op, i) for op in ('add', 'sub', 'mul', 'trans', 'set') for i in range(3)], 8)
    res.need('cases', 200)
