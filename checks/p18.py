import itertools
from common import *
from sim import *
from par import par
RULE = 'after every history the array holds exactly the elements pushed and not popped, in their order, within its block'
EXPLANATION = 'The array operations are followed over the compiled IR for every element size and every short history of push, pop, peek, resize, reserve, reset and release with counts around the growing points, with allocations succeeding and failing, and with counts whose byte size overflows; after each operation count, capacity, block and contents are compared with a list.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/array.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(capacity, bfdev_array_t, capacity) O(index, bfdev_array_t, index) O(cells, bfdev_array_t, cells) O(data, bfdev_array_t, data)
const unsigned long off_size = sizeof(bfdev_array_t), off_ENOMEM = BFDEV_ENOMEM;
'''
LINES = [
    ('bfdev_array_init', 'void w_init(bfdev_array_t *a, const bfdev_alloc_t *l, unsigned long c) { bfdev_array_init(a, l, c); }'),
    ('BFDEV_ARRAY_INIT', 'void w_macro(bfdev_array_t *a, const bfdev_alloc_t *l, unsigned long c) { *a = BFDEV_ARRAY_INIT(l, c); }'),
    ('bfdev_array_push', 'void *w_push(bfdev_array_t *a, unsigned long n) { return bfdev_array_push(a, n); }'),
    ('bfdev_array_pop', 'void *w_pop(bfdev_array_t *a, unsigned long n) { return bfdev_array_pop(a, n); }'),
    ('bfdev_array_peek', 'void *w_peek(bfdev_array_t *a, unsigned long n) { return bfdev_array_peek(a, n); }'),
    ('bfdev_array_resize', 'int w_resize(bfdev_array_t *a, unsigned long n) { return bfdev_array_resize(a, n); }'),
    ('bfdev_array_reserve', 'int w_reserve(bfdev_array_t *a, unsigned long n) { return bfdev_array_reserve(a, n); }'),
    ('bfdev_array_reset', 'void w_reset(bfdev_array_t *a, unsigned long n) { bfdev_array_reset(a); }'),
    ('bfdev_array_release', 'void w_release(bfdev_array_t *a, unsigned long n) { bfdev_array_release(a); }'),
    ('bfdev_array_data', 'void *w_data(bfdev_array_t *a, unsigned long n) { return bfdev_array_data(a, n); }'),
    ('bfdev_array_index', 'unsigned long w_index(bfdev_array_t *a) { return bfdev_array_index(a); }'),
    ('bfdev_array_size', 'unsigned long w_size(bfdev_array_t *a) { return bfdev_array_size(a); }'),
    ('bfdev_array_offset', 'unsigned long w_offset(bfdev_array_t *a, unsigned long n) { return bfdev_array_offset(a, n); }'),
]
M64 = 1 << 64


class Wrong(Exception): pass


class Arr(Sim):
    """contents: a mark at both ends of every element; None where the user has not written"""
    def setup(s, K, c, init):
        s.K = K; s.c = c; s.n = 0; s.marks = {}; s.serial = 0
        s.new('array', K['size'], False)
        s.do('w_' + init, P('array'), 0, c)

    def ends(s, i):
        w = min(s.c, 8); w = 1 << w.bit_length() - 1
        return [(i * s.c, w)] + ([(i * s.c + s.c - 1, 1)] if s.c > 8 else [])

    def blk(s):
        d = s.cell('array', s.K['data'])
        if isp(d) and d[1] in s.heap and d[2] == 0: return d[1]
        if d == 0: return None
        raise Wrong('the data pointer is not the block')

    def mark(s, i):
        b = s.blk(); s.serial += 1
        for off, w in s.ends(i): s.mem[(b, off)] = (('o', 'element %d.%d' % (s.serial, off % s.c)), w)
        s.marks[i] = s.serial

    def state(s): return (s.n, s.cell('array', s.K['capacity']), s.cell('array', s.K['data']))

    def room(s):
        cap = s.cell('array', s.K['capacity']); b = s.blk()
        if not isinstance(cap, int): raise Wrong('the capacity is unknown')
        if cap * s.c > (s.size[b] if b else 0): raise Wrong('the capacity %d exceeds the block of %d bytes' % (cap, s.size[b] if b else 0))
        return cap

    def act(s, op, n):
        before = s.state(); fails = s.nfail; na = s.nalloc
        r = s.do('w_' + op, P('array'), n)
        failed = s.nfail > fails; K = s.K
        want = {'push': s.n + n, 'pop': s.n - n, 'peek': s.n, 'resize': n, 'reserve': s.n, 'reset': 0, 'release': 0}[op]
        refuse = op in ('push', 'reserve', 'resize') and (s.n if op != 'resize' else 0) + n > before[1] and ((s.n if op != 'resize' else 0) + n) * s.c >= M64
        if op in ('push', 'reserve', 'resize') and ((s.n if op != 'resize' else 0) + n) * s.c > 1 << 62 and (r == 0 if op == 'push' else r != 0): refuse = True
        if op in ('push', 'pop', 'peek'):
            bad = failed or refuse or op != 'push' and n > s.n
            if bad:
                if r != 0: raise Wrong('gives a pointer although it had to fail')
            else:
                b = s.blk(); at = s.n if op == 'push' else s.n - n
                if r != (P(b, at * s.c) if b else 0): raise Wrong('does not give the address of element %d' % at)
        elif op in ('resize', 'reserve'):
            r = signed(r, 32); bad = failed or refuse
            if failed and r != -K['ENOMEM']: raise Wrong('returns %s when memory runs out' % r)
            if refuse and not (isinstance(r, int) and r < 0): raise Wrong('returns %s for a size that overflows' % r)
            if not bad and r != 0: raise Wrong('returns %s' % r)
        else: bad = False
        if not bad:
            s.n = want
            for i in [i for i in s.marks if i >= s.n]: del s.marks[i]
        elif s.state() != before: raise Wrong('changes the array although it fails')
        cap = s.room()
        if cap < s.n: raise Wrong('the capacity %d is below the count %d' % (cap, s.n))
        if op == 'reserve' and not bad and cap < s.n + n: raise Wrong('reserves room for %d instead of %d' % (cap, s.n + n))
        if op in ('pop', 'peek', 'reset') and s.state()[1:] != before[1:]: raise Wrong('changes the block')
        if op in ('pop', 'peek', 'reset', 'release') and s.nalloc > na: raise Wrong('allocates')
        b = s.blk()
        if s.heap - {b}: raise Wrong('leaks a block')
        if op == 'release' and (b or cap): raise Wrong('keeps a block')
        if s.cell('array', K['cells']) != s.c: raise Wrong('changes the element size')
        if s.cell('array', K['index']) != s.n: raise Wrong('the count is %s instead of %s' % (s.cell('array', K['index']), s.n))
        for i, m in s.marks.items():
            for off, w in s.ends(i):
                if s.mem.get((b, off), (None,))[0] != ('o', 'element %d.%d' % (m, off % s.c)): raise Wrong('element %d has lost its contents' % i)
        if not bad and op in ('push', 'resize') and s.n < 4096:
            for i in range(s.n):
                if i not in s.marks: s.mark(i)

    def look(s):
        if s.do('w_index', P('array')) != s.n: raise Wrong('index is not the count')
        if s.do('w_size', P('array')) != s.n * s.c % M64: raise Wrong('size is not the bytes in use')
        b = s.blk()
        for i in {0, 1, s.n // 2, s.n - 1, s.n, s.n + 1, M64 - 1}:
            if i < 0: continue
            r = s.do('w_data', P('array'), i)
            if r != (P(b, i * s.c) if i < s.n else 0): raise Wrong('data(%d) with %d elements is wrong' % (i, s.n))
        if any(w for w, *_ in s.log): raise Wrong('a query writes')
        if s.do('w_offset', P('array'), 5) != 5 * s.c: raise Wrong('offset is wrong')


def run(ctx, res):
    mod = ctx.instantiate('w_p18', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]; K = offsets(mod)
    quick = ctx.tier == 'quick'

    def text(ops): return ' '.join('%s(%s)' % o for o in ops)

    def history(r, ops, c, failat=None, init='init', big=1 << 20, look=True):
        i = 0; ops = list(ops)
        try:
            a = Arr(mods); a.setup(K, c, init); a.failat = failat; a.big = big
            for i, (op, n) in enumerate(ops): a.act(op, n)
            if look: a.look()
            a.failat = None; ops.append(('release', 0)); i = len(ops) - 1; a.act('release', 0)
            if a.heap: raise Wrong('leaks a block')
        except Wrong as e: say(r, ops[i][0], '%s, elements of %d bytes%s: %s' % (text(ops[:i + 1]), c, ', failing allocation' if failat else '', e)); return True
        except Bad as e: say(r, ops[i][0], '%s, elements of %d bytes: %s%s' % (text(ops[:i + 1]), c, e.text, ' at %s' % relf(e.ins.where) if e.ins else '')); return True
        except Bound: say(r, ops[i][0], '%s: does not end' % text(ops[:i + 1])); return True
        except Stuck as e: r.undecided('array, %s' % text(ops[:2]), str(e)); return False
        r.count('histories'); r.count('operations', len(ops)); return True

    def say(r, op, t): r.bad('array:%s' % op, 'src/array.c (bfdev_array_%s)' % op, RULE, 'bfdev_array_%s: after %s' % (op, t))

    alpha = [('push', 0), ('push', 1), ('push', 33), ('pop', 0), ('pop', 1), ('pop', 32), ('peek', 1), ('peek', 40), ('resize', 0), ('resize', 5), ('resize', 70), ('reserve', 1), ('reserve', 64), ('reset', 0), ('release', 0)]
    cells = (1, 3, 8, 24)
    jobs = []
    def short(a, c):
        def job(r):
            for b in alpha:
                for d in alpha:
                    if not history(r, [a, b, d], c, look=d[0] in ('push', 'resize', 'pop')): return
                if not quick:
                    for d, e in itertools.product(alpha, repeat=2): history(r, [a, b, d, e], c, look=False)
                for f in ({1}, {2}, {1, 2}): history(r, [a, b, ('push', 2), ('push', 300)], c, failat=f)
            history(r, [a], c, init='macro')
        return job
    for c in cells:
        for a in alpha: jobs.append(short(a, c))
    def long(c):
        def job(r):
            N = 200 if quick else 600
            history(r, [('push', 1)] * N + [('pop', 1)] * (N // 2) + [('push', i) for i in range(12)] + [('pop', i) for i in range(12)], c)
            for k in (30, 31, 32, 33, 41, 42, 43, 63, 64, 65, 127, 128, 129, 341, 342):
                for k2 in (0, 1, 2, 31, 33):
                    history(r, [('push', k), ('peek', 0), ('pop', 0), ('pop', k), ('pop', 0), ('peek', 0)], c); history(r, [('push', k), ('push', k2), ('reserve', k2), ('push', k2)], c); history(r, [('reserve', k), ('push', k), ('resize', k + k2), ('pop', k)], c)
        return job
    def over(c):
        def job(r):
            nums = sorted({x + d for x in (1 << 31, 1 << 32, 1 << 59, 1 << 60, 1 << 61, 1 << 62, 1 << 63, M64 // c, M64 // (2 * c), M64 - 32, M64 - 6) for d in (-1, 0, 1, 5) if 0 <= x + d < M64})
            for big in (1 << 20, 1 << 62):
                for pre in ([], [('push', 5)], [('push', 40)]):
                    for op in ('push', 'resize', 'reserve', 'pop', 'peek'):
                        for n in nums:
                            if not history(r, pre + [(op, n)] + [('push', 1)], c, big=big, look=False): return
        return job
    for c in cells: jobs += [long(c), over(c)]
    par(res, jobs)
    res.need('histories', 2000)
