import itertools
from common import *
from sim import *
from par import par
RULE = 'sorting gives the sorted permutation of the elements (the list sort in a stable one), touching nothing else; the binary search finds an element exactly when the sorted array holds one'
EXPLANATION = 'The sorts and searches are followed over the compiled IR for every order of the keys (all weak orders, equal keys included) up to a bound, for longer patterned inputs and for every sort of element size, with comparison results of every magnitude; the search also over arrays too large to enumerate, in which the comparison is answered by the address probed.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/list.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(next, bfdev_list_head_t, next) O(prev, bfdev_list_head_t, prev)
const unsigned long off_lsize = sizeof(bfdev_list_head_t);
'''
LINES = [
    ('bfdev_sort', 'int w_sort(void *b, unsigned long n, unsigned long c, bfdev_cmp_t f, void *p) { return bfdev_sort(b, n, c, f, p); }'),
    ('bfdev_bsearch', 'void *w_bsearch(void *b, unsigned long n, unsigned long c, bfdev_find_t f, void *p) { return bfdev_bsearch(b, n, c, f, p); }'),
    ('bfdev_bsearch_inline', 'void *w_inline(void *b, unsigned long n, unsigned long c, bfdev_find_t f, void *p) { return bfdev_bsearch_inline(b, n, c, f, p); }'),
    ('bfdev_list_sort', 'void w_list(bfdev_list_head_t *h, bfdev_list_cmp_t c, void *p) { bfdev_list_sort(h, c, p); }'),
]
M64 = 1 << 64


class Wrong(Exception): pass


def sign(d, big): return 0 if d == 0 else (big if d > 0 else -big) % M64


class Srt(Sim):
    def array(s, ranks, c, big):
        s.c = c; s.ranks = ranks; n = len(ranks)
        s.new('array', n * c)
        s.bytes = [bytes((k + 37 * j) & 255 if k < 128 else (k * 3 + 101 * j) & 255 for j in range(c)) for k in range(n)]
        if c > 1: s.bytes = [bytes([k & 255]) + b[1:] for k, b in enumerate(s.bytes)]
        s.byval = {b: k for k, b in enumerate(s.bytes)}
        if len(s.byval) != n: raise Stuck('elements are not distinct')
        for k, b in enumerate(s.bytes):
            for j, x in enumerate(b): s.put('array', k * c + j, x, 1)
        def cmp(a, ins):
            if a[2] != ('o', 'pdata'): raise Bad('the comparison is not given the private data', ins)
            return sign(s.ranks[s.at(a[0], ins)] - s.ranks[s.at(a[1], ins)], big)
        s.handlers['cb_cmp'] = cmp

    def raw(s, off): return bytes(s.cell('array', off + j, 1) for j in range(s.c))

    def at(s, p, ins):
        if not isp(p) or p[1] != 'array' or not isinstance(p[2], int) or p[2] < 0 or p[2] % s.c or p[2] >= s.c * len(s.ranks): raise Bad('the comparison is given what is no element', ins)
        b = s.raw(p[2])
        if b not in s.byval: raise Bad('the comparison is given a mixed element', ins)
        return s.byval[b]

    def sort(s, sure):
        n = len(s.ranks)
        r = signed(s.do('w_sort', P('array'), n, s.c, P(('f', 'cb_cmp')), ('o', 'pdata')), 32)
        for w, o, off, z in s.log:
            if o == 'array' and (off < 0 or off + z > n * s.c): raise Wrong('touches memory outside the array')
        if sure and r != 0: raise Wrong('returns %d' % r)
        got = [s.byval.get(s.raw(i * s.c)) for i in range(n)]
        if None in got or sorted(got) != list(range(n)): raise Wrong('does not keep the elements')
        if not sure and r != 0 and got != list(range(n)): raise Wrong('changes the array it refuses')
        ks = [s.ranks[k] for k in got]
        if (sure or r == 0) and ks != sorted(ks): raise Wrong('leaves the order %s' % ks)

    def lists(s, K, ranks, big):
        s.ranks = ranks; n = len(ranks)
        names = ['head'] + ['node %d' % i for i in range(n)]
        for x in names: s.new(x, K['lsize'], False)
        for i, x in enumerate(names):
            y = names[(i + 1) % (n + 1)]; s.put(x, K['next'], P(y), 8); s.put(y, K['prev'], P(x), 8)
        def num(p, ins):
            if not isp(p) or not str(p[1]).startswith('node ') or p[2] != 0: raise Bad('the comparison is given what is no node', ins)
            return int(p[1][5:])
        def cmp(a, ins):
            if a[2] != ('o', 'pdata'): raise Bad('the comparison is not given the private data', ins)
            return sign(ranks[num(a[0], ins)] - ranks[num(a[1], ins)], big)
        s.handlers['cb_cmp'] = cmp
        s.do('w_list', P('head'), P(('f', 'cb_cmp')), ('o', 'pdata'))
        got = []; at = 'head'
        for _ in range(n + 2):
            p = s.cell(at, K['next'])
            if not isp(p) or p[2] != 0 or p[1] not in names: raise Wrong('a link leads nowhere')
            if s.cell(p[1], K['prev']) != P(at): raise Wrong('a back reference is wrong')
            if p[1] == 'head': break
            at = p[1]; got.append(int(at[5:]))
        want = sorted(range(n), key=lambda i: (ranks[i], i))
        if got != want: raise Wrong('%s: gives %s instead of %s' % ('loses nodes' if sorted(got) != sorted(want) else 'not sorted' if [ranks[i] for i in got] != sorted(ranks) else 'not stable', got, want))

    def search(s, fn, n, c, lo, hi, big):
        """elements [0, lo) are below the target, [lo, hi) equal it, the others are above"""
        s.new('array', n * c); s.probes = 0
        def find(a, ins):
            p = a[0]
            if a[1] != ('o', 'pdata'): raise Bad('the search is not given the private data', ins)
            if not isp(p) or p[1] != 'array' or not isinstance(p[2], int) or p[2] % c or not 0 <= p[2] < n * c: raise Bad('the search probes what is no element', ins)
            i = p[2] // c
            return sign(-1 if i < lo else 0 if i < hi else 1, big)
        s.handlers['cb_find'] = find
        r = s.do('w_' + fn, P('array'), n, c, P(('f', 'cb_find')), ('o', 'pdata'))
        if any(o == 'array' for _, o, *_ in s.log): raise Wrong('touches the elements')
        if lo == hi:
            if r != 0: raise Wrong('finds an element that is not there')
        elif r == 0: raise Wrong('misses an element that is there')
        elif not isp(r) or r[1] != 'array' or r[2] % c or not lo <= r[2] // c < hi: raise Wrong('finds another element')


def weak(n): return [t for t in itertools.product(range(n), repeat=n) if set(t) == set(range(len(set(t))))]


def patterns(n):
    """longer inputs of different shapes"""
    out = [list(range(n)), list(range(n))[::-1], [0] * n, [i % 2 for i in range(n)], [i // 2 for i in range(n)], [min(i, n - i) for i in range(n)], [max(i, n - i) for i in range(n)], [i * n // 2 % n for i in range(n)]]
    x = 12345 + n
    for m in (n, n, 4, 2):
        t = []
        for i in range(n): x = (x * 1103515245 + 12345) & 0x7fffffff; t.append((x >> 16) % m)
        out.append(t)
    return [tuple(t) for t in out]


def run(ctx, res):
    mod = ctx.instantiate('w_p23', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]; K = offsets(mod)
    quick = ctx.tier == 'quick'
    BIG = (1, 1 << 40, (1 << 63) - 1)

    def attempt(r, api, where, what, f):
        try: f(Srt(mods))
        except Wrong as e: r.bad(api, where, RULE, 'bfdev_%s: %s: %s' % (api, what, e))
        except Bad as e: r.bad(api, where, RULE, 'bfdev_%s: %s: %s%s' % (api, what, e.text, ' at %s' % relf(e.ins.where) if e.ins else ''))
        except Bound: r.bad(api, where, RULE, 'bfdev_%s: %s: does not end' % (api, what))
        except Stuck as e: r.undecided(api, str(e))
        else: r.count('%s inputs' % api)

    def sorts(c, inputs, big):
        def job(r):
            for t in inputs:
                def f(a): a.array(t, c, big); a.sort(len(t) > 1)
                attempt(r, 'sort', 'src/sort.c (bfdev_sort)', 'keys %s of %d bytes' % (list(t), c), f)
        return job

    def lsorts(inputs, big):
        def job(r):
            for t in inputs: attempt(r, 'list_sort', 'src/list-sort.c (bfdev_list_sort)', 'keys %s' % (list(t),), lambda a: a.lists(K, t, big))
        return job

    def searches(n, c, cases):
        def job(r):
            for fn in ('bsearch', 'inline'):
                for lo, hi in cases:
                    attempt(r, 'bsearch', 'include/bfdev/bsearch.h (bfdev_%s)' % {'inline': 'bsearch_inline'}.get(fn, fn), '%d elements of %d bytes of which [%d, %d) match' % (n, c, lo, hi),
                            lambda a: a.search(fn, n, c, lo, hi, BIG[(lo + hi) % 3]))
        return job

    N = 5 if quick else 6
    jobs = []
    chunk = lambda x, k: [x[i::k] for i in range(k) if x[i::k]]
    for c in (1, 2, 3, 4, 8, 12, 24) + (() if quick else (5, 6, 7, 16, 100)):
        small = [t for n in range(0, 5 if c in (1, 3, 8) else 4) for t in weak(n)]
        jobs.append(sorts(c, small, BIG[c % 3]))
        jobs.append(sorts(c, [t for n in ((7, 12, 17) if quick else (7, 8, 9, 12, 17, 31, 33)) for t in patterns(n)], BIG[(c + 1) % 3]))
    for x in chunk(weak(N), 8 if quick else 32): jobs.append(sorts(4, x, 1)); jobs.append(lsorts(x, BIG[2]))
    if not quick: jobs += [sorts(8, x, BIG[1]) for x in chunk(weak(5), 4)] + [sorts(1, patterns(200), 1), lsorts(patterns(300), 1)]
    jobs.append(lsorts([t for n in range(0, N) for t in weak(n)], 1))
    jobs += [lsorts(patterns(n), BIG[n % 3]) for n in (list(range(6, 36)) + [63, 64, 65, 100] if quick else range(6, 140))]
    for n in range(0, 14 if quick else 26): jobs.append(searches(n, (1, 8, 3)[n % 3], [(lo, hi) for lo in range(n + 1) for hi in range(lo, n + 1)]))
    for n in ((1 << 31) - 1, 1 << 31, (1 << 32) + 5, (1 << 40) + 1, (1 << 60) - 1):
        for c in (1, 4, 7): jobs.append(searches(n, c, [(a, min(b, n)) for a in (0, 1, n // 2, n // 2 + 1, n // 3, n - 1, n) for b in (a, a + 1, a + 2)]))

    def refused(r):
        def null(a):
            a.array((1, 0), 4, 1)
            if signed(a.do('w_sort', 0, 2, 4, P(('f', 'cb_cmp')), ('o', 'pdata')), 32) >= 0: raise Wrong('accepts no array')
            if signed(a.do('w_sort', P('array'), 2, 4, 0, ('o', 'pdata')), 32) >= 0: raise Wrong('accepts no comparison')
            if any(o == 'array' for _, o, *_ in a.log): raise Wrong('touches the array')
        attempt(r, 'sort', 'src/sort.c (bfdev_sort)', 'without array or comparison', null)
    jobs.append(refused)
    par(res, jobs)
    for k in ('sort', 'list_sort', 'bsearch'): res.need('%s inputs' % k, 100)
