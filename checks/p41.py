import random
from common import *
from sim import *
from par import par
RULE = 'every block handed out lies inside the region, belongs to one user and is as large and aligned as requested; what is free can be handed out'
EXPLANATION = 'Initialisation, allocation, reallocation and release of the memory allocator (every fit policy, with and without the debug checks) and of the allocation pool are followed over the compiled IR: the states reachable by histories of odd sizes breadth first, longer histories after that.  After each operation the chunks are read back from the region: they must tile it, agree with both lists and the free total, and no byte of a block in use may have been written.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/memalloc.h>
#include <bfdev/allocpool.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(blocks, bfdev_memalloc_head_t, block_list) O(frees, bfdev_memalloc_head_t, free_list) O(avail, bfdev_memalloc_head_t, avail)
O(block, bfdev_memalloc_chunk_t, block) O(free, bfdev_memalloc_chunk_t, free) O(usize, bfdev_memalloc_chunk_t, usize) O(data, bfdev_memalloc_chunk_t, data)
O(lnext, bfdev_list_head_t, next) O(lprev, bfdev_list_head_t, prev)
const unsigned long off_hsize = sizeof(bfdev_memalloc_head_t), off_csize = sizeof(bfdev_memalloc_chunk_t), off_align = BFDEV_MEMALLOC_ALIGN, off_psize = sizeof(bfdev_allocpool_t);
O(pblock, bfdev_allocpool_t, block) O(pcount, bfdev_allocpool_t, count) O(plast, bfdev_allocpool_t, last)
'''
LINES = [('bfdev_memalloc_init', 'void w_init_%s(bfdev_memalloc_head_t *h, void *m, unsigned long n) { bfdev_memalloc_init(h, bfdev_memalloc_%s_fit, m, n); }' % (k, k)) for k in ('first', 'best', 'worst')] + [
    ('bfdev_memalloc_alloc', 'void *w_alloc(bfdev_memalloc_head_t *h, unsigned long n) { return bfdev_memalloc_alloc(h, n); }'),
    ('bfdev_memalloc_realloc', 'void *w_realloc(bfdev_memalloc_head_t *h, void *p, unsigned long n) { return bfdev_memalloc_realloc(h, p, n); }'),
    ('bfdev_memalloc_free', 'void w_free(bfdev_memalloc_head_t *h, void *p) { bfdev_memalloc_free(h, p); }'),
    ('bfdev_allocpool_init', 'void w_pinit(bfdev_allocpool_t *p, void *m, unsigned long n) { bfdev_allocpool_init(p, m, n); }'),
    ('BFDEV_ALLOCPOOL_INIT', 'void w_pinit2(bfdev_allocpool_t *p, void *m, unsigned long n) { *p = BFDEV_ALLOCPOOL_INIT(m, n); }'),
    ('BFDEV_DEFINE_ALLOCPOOL', 'void w_pinit3(bfdev_allocpool_t *p, void *m, unsigned long n) { BFDEV_DEFINE_ALLOCPOOL(q, m, n); *p = q; }'),
    ('bfdev_allocpool_alloc', 'void *w_palloc(bfdev_allocpool_t *p, unsigned long n, unsigned long a) { return bfdev_allocpool_alloc(p, n, a); }'),
    ('bfdev_allocpool_free', 'void w_pfree(bfdev_allocpool_t *p, void *b) { bfdev_allocpool_free(p, b); }'),
    ('bfdev_allocpool_reset', 'void w_preset(bfdev_allocpool_t *p) { bfdev_allocpool_reset(p); }'),
]
M64 = (1 << 64) - 1


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class Mem(Sim):
    def setup(s, K, fit, n):
        s.K = K; s.fit = fit; s.n = n; s.used = {}; s.serial = 0
        s.new('head', K['hsize'], False); s.new('region', n, False)
        s.do('w_init_' + fit, P('head'), P('region'), n)

    def ring(s, api, o, off, inner):
        """the chunks on a list, as offsets in the region"""
        K = s.K; out = []; head = P(o, off); p = head
        while True:
            try: q = s.cell(p[1], p[2] + K['lnext']); r = s.cell(q[1], q[2] + K['lprev']) if isp(q) else None
            except Bad: raise Wrong(api, 'a list runs into what was never set')
            if not isp(q) or r != p: raise Wrong(api, 'a list is inconsistent')
            if q == head: return out
            if q[1] != 'region' or q[2] - inner in out: raise Wrong(api, 'a list leaves the region')
            out.append(q[2] - inner); p = q

    def chunks(s, api):
        K = s.K; b = s.ring(api, 'head', K['blocks'], K['block']); f = s.ring(api, 'head', K['frees'], K['free']); at = 0; out = []
        for o in b:
            if o != at: raise Wrong(api, 'the chunk at %d does not begin where the one before ends (%d)' % (o, at))
            z = s.cell('region', o + K['usize'])
            if not isinstance(z, int): raise Wrong(api, 'the size of the chunk at %d is unknown' % o)
            out.append((o, z & ~1, z & 1)); at = o + K['csize'] + (z & ~1)
        if at > s.n or at < s.n - 1: raise Wrong(api, 'the chunks end at %d, the region at %d' % (at, s.n))
        free = {o for o, z, u in out if not u}
        if set(f) != free: raise Wrong(api, 'the free list holds %s, free are %s' % (sorted(f), sorted(free)))
        total = sum(z for o, z, u in out if not u); av = s.cell('head', K['avail'])
        if not isinstance(av, int) or not total <= av <= total + 1: raise Wrong(api, 'the free total is %s, free are %d' % (av, total))
        return out

    def audit(s, api):
        K = s.K; c = s.chunks(api); data = {o + K['data']: z for o, z, u in c if u}
        if set(data) != set(s.used): raise Wrong(api, 'chunks in use are at %s, handed out were %s' % (sorted(data), sorted(s.used)))
        for a, (want, mark) in s.used.items():
            if data[a] < want: raise Wrong(api, 'the block at %d has %d bytes, %d were requested' % (a, data[a], want))
            for i in range(0, want - 7, 8):
                if s.mem.get(('region', a + i)) != (('o', ('mark', mark, i)), 8): raise Wrong(api, 'the contents of the block at %d changed' % a)
        for (u, _, _), (v, _, w) in zip([(x[2], 0, 0) for x in c], [(0, 0, x[2]) for x in c[1:]]):
            if not u and not w: raise Wrong(api, 'two free chunks are neighbours')

    def fits(s, api, size):
        al = s.K['align']; need = -(-size // al) * al
        return need, [(z, o) for o, z, u in s.chunks(api) if not u and z >= need]

    def mark(s, a, size):
        s.serial += 1
        for i in range(0, size - 7, 8): s.put('region', a + i, ('o', ('mark', s.serial, i)), 8)
        s.used[a] = (size, s.serial)

    def touched(s, api, except_=()):
        for w, o, off, z in s.log:
            if o == 'region' and w and isinstance(z, int):
                for a, (n, _) in s.used.items():
                    if a not in except_ and off < a + n and off + z > a: raise Wrong(api, 'writes into the block at %d' % a)

    def alloc(s, size):
        need, f = s.fits('alloc', size); r = s.do('w_alloc', P('head'), size); s.touched('alloc')
        if r == 0:
            if f and size: raise Wrong('alloc', 'of %d fails although a chunk of %d is free' % (size, f[0][0]))
            return
        if not isp(r) or r[1] != 'region': raise Wrong('alloc', 'gives what is not in the region')
        if not f: raise Wrong('alloc', 'of %d succeeds although no free chunk is that large' % size)
        o = r[2] - s.K['data']
        if o not in [x[1] for x in f]: raise Wrong('alloc', 'gives the chunk at %d, which was not free or too small' % o)
        z = [x[0] for x in f if x[1] == o][0]
        if s.fit == 'best' and z != min(f)[0]: raise Wrong('alloc', 'best fit takes a chunk of %d, one of %d fits' % (z, min(f)[0]))
        if s.fit == 'worst' and z != max(f)[0]: raise Wrong('alloc', 'worst fit takes a chunk of %d, one of %d is free' % (z, max(f)[0]))
        s.mark(r[2], size)

    def free(s, a):
        s.do('w_free', P('head'), P('region', a)); s.used.pop(a); s.touched('free')

    def realloc(s, a, size):
        K = s.K; n, old = s.used[a]; need, f = s.fits('realloc', size); c = s.chunks('realloc')
        i = [x[0] for x in c].index(a - K['data']); have = c[i][1]
        room = have + (K['csize'] + c[i + 1][1] if i + 1 < len(c) and not c[i + 1][2] else 0)
        r = s.do('w_realloc', P('head'), P('region', a), size)
        if r == 0:
            s.touched('realloc')
            if need <= room or size <= have or f: raise Wrong('realloc', 'to %d fails although there is room' % size)
            return
        if not isp(r) or r[1] != 'region': raise Wrong('realloc', 'gives what is not in the region')
        if r[2] != a and r[2] in s.used: raise Wrong('realloc', 'gives a block in use')
        if r[2] == a and size > room or r[2] != a and not f: raise Wrong('realloc', 'gives a block that is too small')
        s.used.pop(a); s.touched('realloc')
        for k in range(0, min(n, size) - 7, 8):
            if s.mem.get(('region', r[2] + k)) != (('o', ('mark', old, k)), 8): raise Wrong('realloc', 'loses the contents')
        s.mark(r[2], size)

    def shape(s): return tuple(s.chunks('')), tuple(s.ring('', 'head', s.K['frees'], s.K['free']))


def run(ctx, res):
    quick = ctx.tier == 'quick'

    def both(r, dbg, mods, K, job):
        job(r, mods, K, '' if not dbg else ', with debug checks')

    def say(r, api, case, t, f='memalloc'): r.bad('%s:%s' % (f, api), 'src/%s.c (bfdev_%s_%s)' % (f, f, api), RULE, 'bfdev_%s_%s: %s: %s' % (f, api, case, t))

    def attempt(r, a, op, case):
        api = op[0]
        try: getattr(a, api)(*op[1:]); a.audit(api); return True
        except Wrong as e: say(r, e.api, case, str(e))
        except Bad as e: say(r, api, case, e.text + (' at %s' % relf(e.ins.where) if e.ins else ''))
        except (Stuck, Bound) as e: r.undecided('memalloc', str(e) or 'does not end')
        return False

    def start(r, mods, K, fit, n):
        a = Mem(mods)
        try: a.setup(K, fit, n); a.audit('init'); return a
        except Wrong as e: say(r, 'init', '%d bytes' % n, str(e))
        except Bad as e: say(r, 'init', '%d bytes' % n, e.text)
        except (Stuck, Bound) as e: r.undecided('memalloc', str(e) or 'does not end')

    def breadth(r, mods, K, note, fit, n, sizes, limit):
        a = start(r, mods, K, fit, n)
        if a is None: return
        todo = [(a, ())]; seen = {a.shape()}
        for a, h in todo:
            ops = [('alloc', z) for z in sizes] + [('free', b) for b in sorted(a.used)] + [('realloc', b, z) for b in sorted(a.used) for z in sizes]
            for op in ops:
                b = a.clone(); r.count('operations')
                if not attempt(r, b, op, '%s fit, %d bytes%s, after %s' % (fit, n, note, h + (op,))): return
                k = b.shape()
                if k not in seen and len(seen) < limit: seen.add(k); todo.append((b, h + (op,)))
        r.count('states', len(todo))

    def walk(r, mods, K, note, fit, n, steps, seed):
        rnd = random.Random(seed); a = start(r, mods, K, fit, n); h = []
        if a is None: return
        for _ in range(steps):
            x = rnd.random(); z = rnd.choice([0, 1, 8, 31, 32, 33, 40, 64, 72, 100, 104, 160, 200, 300, n - K['csize'], n])
            op = ('alloc', z) if x < .45 or not a.used else ('free', rnd.choice(sorted(a.used))) if x < .75 else ('realloc', rnd.choice(sorted(a.used)), z)
            h.append(op); r.count('operations')
            if not attempt(r, a, op, '%s fit, %d bytes%s, after ... %s' % (fit, n, note, h[-6:])): return
        for b in sorted(a.used, key=lambda _: rnd.random()):
            if not attempt(r, a, ('free', b), '%s fit, %d bytes, all released' % (fit, n)): return

    def huge(r, mods, K, note):
        for fit in ('first', 'best', 'worst'):
            for z in (1 << 63, (1 << 63) - 1, M64, M64 - 1, M64 - 31, M64 - 32, M64 - 40, M64 - 72, 1 << 32):
                a = start(r, mods, K, fit, 500)
                if a is None or not attempt(r, a, ('alloc', z), 'request of %d%s' % (z, note)) or not attempt(r, a, ('alloc', 32), '') or not attempt(r, a, ('realloc', next(iter(a.used)), z), 'request of %d%s' % (z, note)): return
                r.count('sizes')
    # ---- allocation pool: addresses are numbers
    def pool(r, mods, K, note):
        rnd = random.Random(1)
        for base in (0x10000, 0x10004, 0x10001, 0x1fff8):
            for init in ('w_pinit', 'w_pinit2', 'w_pinit3'):
                for seed in range(4 if quick else 40):
                    a = Sim(mods); n = rnd.choice([0, 1, 64, 100, 1000]); live = []; api = 'init'; h = []
                    try:
                        a.new('pool', K['psize'], False); a.do(init, P('pool'), base, n)
                        if a.cell('pool', K['pcount']) != 0: raise Wrong(api, 'leaves the pool in use')
                        for _ in range(25):
                            x = rnd.random(); r.count('operations')
                            if x < .7 or not live:
                                api = 'alloc'; z = rnd.choice([0, 1, 3, 8, 9, 24, n, n // 2, 1 << 63, M64, M64 - 7, M64 - 63, M64 - base]); al = rnd.choice([0, 1, 2, 4, 8, 16, 64, 4096])
                                before = a.cell('pool', K['plast']), a.cell('pool', K['pcount'])
                                h.append((z, al)); p = a.do('w_palloc', P('pool'), z, al)
                                if p == 0:
                                    if (a.cell('pool', K['plast']), a.cell('pool', K['pcount'])) != before: raise Wrong(api, 'fails and changes the pool')
                                    top = max([e for _, e in live] or [base]); q = -(-top // max(al, 8)) * max(al, 8)
                                    if z and not live and q + z <= base + n: raise Wrong(api, 'of %d fails in an empty pool of %d' % (z, n))
                                    continue
                                if not isinstance(p, int): raise Wrong(api, 'gives no address')
                                if z == 0: raise Wrong(api, 'gives a block of no bytes')
                                if p < base or p + z > base + n: raise Wrong(api, 'gives [%#x, +%d), outside [%#x, +%d)' % (p, z, base, n))
                                if p % max(al, 1): raise Wrong(api, 'gives %#x for alignment %d' % (p, al))
                                if any(p < e and p + z > b for b, e in live): raise Wrong(api, 'gives a block that overlaps another')
                                live.append((p, p + z))
                            elif x < .97: api = 'free'; b = live.pop(rnd.randrange(len(live))); h.append('free'); a.do('w_pfree', P('pool'), b[0])
                            else: api = 'reset'; a.do('w_preset', P('pool')); live = []; h.append('reset')
                            if a.cell('pool', K['pcount']) != len(live): raise Wrong(api, 'the count is wrong')
                            if not live and api != 'alloc' and a.cell('pool', K['plast']) != 0: raise Wrong(api, 'an empty pool does not start anew')
                    except Wrong as e: return say(r, e.api, 'pool of %d at %#x after %s' % (n, base, h[-4:]), str(e), 'allocpool')
                    except Bad as e: return say(r, api, 'pool of %d after %s' % (n, h[-4:]), e.text, 'allocpool')
                    except (Stuck, Bound) as e: return r.undecided('allocpool', str(e) or 'does not end')
                    r.count('pools')
    jobs = []
    for dbg in (False, True):
        mod = ctx.instantiate('w_p41%s' % ('d' if dbg else ''), PRE, LINES, res, debug=dbg)
        mods = [mod, ctx.lib(dbg)]; K = offsets(mod); note = ', with debug checks' if dbg else ''
        jobs.append(lambda r, m=mods, K=K, t=note: huge(r, m, K, t))
        if not dbg: jobs.append(lambda r, m=mods, K=K, t=note: pool(r, m, K, t))
        for fit in ('first', 'best', 'worst'):
            for n, sizes in ((300, [1, 33, 100]), (424, [32, 65, 104, 360]), (333, [0, 40, 96])):
                jobs.append(lambda r, m=mods, K=K, t=note, fit=fit, n=n, z=sizes: breadth(r, m, K, t, fit, n, z, (150 if dbg else 500) if quick else 3000))
            for seed in range(3 if quick else 12): jobs.append(lambda r, m=mods, K=K, t=note, fit=fit, s=seed: walk(r, m, K, t, fit, [1500, 900, 3001][s % 3], 250 if quick else 1000, s))
    par(res, jobs, 8)
    res.need('operations', 3000); res.need('pools', 20)
