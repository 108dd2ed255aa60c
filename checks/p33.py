from common import *
from sim import *
from par import par
RULE = 'a request whose size in bytes cannot be represented is refused; a block handed out is large enough for the count asked for'
EXPLANATION = 'Every allocation helper and container constructor that takes a count or an element size is followed over the compiled IR with values at every power of two, at every quotient of the address range and around them; the true (unbounded) size is compared with the block that was obtained.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <bfdev/bitmap.h>
#include <bfdev/log2.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(fmask, bfdev_fifo_t, mask) O(fdata, bfdev_fifo_t, data) O(rmask, bfdev_ringbuf_t, mask) O(rdata, bfdev_ringbuf_t, data)
const unsigned long off_fsize = sizeof(bfdev_fifo_t), off_rsize = sizeof(bfdev_ringbuf_t), off_msz = sizeof(((bfdev_fifo_t *)0)->mask), off_rmsz = sizeof(((bfdev_ringbuf_t *)0)->mask);
'''
LINES = [
    ('bfdev_malloc_array', 'void *w_malloc(void *b, unsigned long n, unsigned long c) { return bfdev_malloc_array(0, n, c); }'),
    ('bfdev_zalloc_array', 'void *w_zalloc(void *b, unsigned long n, unsigned long c) { return bfdev_zalloc_array(0, n, c); }'),
    ('bfdev_realloc_array', 'void *w_realloc(void *b, unsigned long n, unsigned long c) { return bfdev_realloc_array(0, b, n, c); }'),
    ('bfdev_fifo_dynamic_alloc', 'int w_fifo(bfdev_fifo_t *f, unsigned long n, unsigned long c) { return bfdev_fifo_dynamic_alloc(f, 0, c, n); }'),
    ('bfdev_ringbuf_dynamic_alloc', 'int w_ringbuf(bfdev_ringbuf_t *f, unsigned long n, unsigned long c) { return bfdev_ringbuf_dynamic_alloc(f, 0, c, n); }'),
    ('bfdev_bitmap_alloc', 'void *w_bitmap(void *b, unsigned int n) { return bfdev_bitmap_alloc(0, n); }'),
    ('bfdev_bitmap_zalloc', 'void *w_bitmapz(void *b, unsigned int n) { return bfdev_bitmap_zalloc(0, n); }'),
]
M64 = 1 << 64
WHERE = dict(malloc='include/bfdev/allocator.h (bfdev_malloc_array)', zalloc='include/bfdev/allocator.h (bfdev_zalloc_array)', realloc='include/bfdev/allocator.h (bfdev_realloc_array)',
             fifo='src/fifo.c (bfdev_fifo_dynamic_alloc)', ringbuf='src/ringbuf.c (bfdev_ringbuf_dynamic_alloc)', bitmap='src/bitmap.c (bfdev_bitmap_alloc)', bitmapz='src/bitmap.c (bfdev_bitmap_zalloc)')


class Wrong(Exception): pass


def run(ctx, res):
    mod = ctx.instantiate('w_p33', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]; K = offsets(mod)
    quick = ctx.tier == 'quick'
    counts = {0, 1, 2, 3, 5, 7, 100}
    for k in range(4, 64): counts |= {1 << k, (1 << k) + 1, (1 << k) - 1} if k > 28 or not quick else {1 << k, (1 << k) + 1}
    cells = [1, 2, 3, 4, 8, 12, 16, 24, 4096, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, M64 - 1]
    for c in cells: counts |= {x for x in (M64 // c - 1, M64 // c, M64 // c + 1, M64 - 1) if 0 <= x < M64}
    counts = sorted(counts)

    def one(r, name, n, c):
        try:
            a = Sim(mods); a.big = 1 << 62
            obj = 0
            if name == 'realloc':
                a.block(16, False); obj = P('block 1')
            if name == 'fifo': obj = a.new('fifo', K['fsize'], False)
            if name == 'ringbuf': obj = a.new('ringbuf', K['rsize'], False)
            got = a.do('w_' + name, obj, n, c) if c is not None else a.do('w_' + name, obj, n)
            if name in ('fifo', 'ringbuf'):
                got = signed(got, 32)
                if got != 0:
                    if a.heap: raise Wrong('keeps a block although it fails')
                    if n <= 1 << 40 and c <= 1 << 20 and n > 1: raise Wrong('refuses with %s' % got)
                    r.count('requests'); return True
                m = a.cell(name, K[name[0] + 'mask'], K['msz' if name == 'fifo' else 'rmsz']); d = a.cell(name, K[name[0] + 'data'])
                if not isinstance(m, int) or m + 1 & m or m + 1 < n: raise Wrong('is given a capacity of %s' % (m + 1))
                need = (m + 1) * c
            else:
                d = got; need = n * c if c is not None else -(-n // 8)
                if d == 0:
                    if need <= 1 << 61 and a.nfail == 0: raise Wrong('is refused')
                    if name == 'realloc' and not a.heap: raise Wrong('fails and has released the old block')
                    r.count('requests'); return True
            if not isp(d) or d[1] not in a.heap or d[2] != 0: raise Wrong('does not give the block')
            if a.size[d[1]] < need: raise Wrong('gets a block of %d bytes' % a.size[d[1]])
        except Wrong as e: r.bad('size:%s' % name, WHERE[name], RULE, '%s: a request for %d%s %s' % (name, n, '' if c is None else ' elements of %d bytes' % c, e)); return True
        except Bad as e: r.bad('size:%s' % name, WHERE[name], RULE, '%s: with %d%s: %s%s' % (name, n, '' if c is None else ' elements of %d bytes' % c, e.text, ' at %s' % relf(e.ins.where) if e.ins else '')); return True
        except (Stuck, Bound) as e: r.undecided('%s with %d' % (name, n), str(e) or 'does not end'); return False
        r.count('requests'); return True

    jobs = []
    for name in WHERE:
        def job(r, name=name):
            if name.startswith('bitmap'):
                for n in sorted({x for x in counts if x < 1 << 32} | {(1 << 32) - k for k in range(1, 70)}):
                    if not one(r, name, n, None): return
                return
            for n in counts:
                for c in cells:
                    if not one(r, name, n, c): return
        jobs.append(job)
    par(res, jobs)
    res.need('requests', 3000)
