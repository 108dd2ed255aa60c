from common import *
from sim import *
from par import par
RULE = 'a key that was pushed is reported until the filter is flushed; the answers are those of the set of bits the hash functions select'
EXPLANATION = 'Creation, push, peek, flush and destruction of the Bloom filter are followed over the compiled IR for capacities around the word size and arbitrary hash values (each key a tuple of values over the whole range); the position a hash value stands for is taken from a filter with one hash function, and every answer is compared with the set of positions.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/bloom.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(bitmap, bfdev_bloom_t, bitmap) O(capacity, bfdev_bloom_t, capacity)
'''
LINES = [
    ('bfdev_bloom_create', 'bfdev_bloom_t *w_create(unsigned int c, bfdev_bloom_hash_t h, unsigned int n, void *p) { return bfdev_bloom_create(0, c, h, n, p); }'),
    ('bfdev_bloom_push', 'int w_push(bfdev_bloom_t *b, void *k) { return !!bfdev_bloom_push(b, k); }'),
    ('bfdev_bloom_peek', 'int w_peek(bfdev_bloom_t *b, void *k) { return !!bfdev_bloom_peek(b, k); }'),
    ('bfdev_bloom_flush', 'void w_flush(bfdev_bloom_t *b) { bfdev_bloom_flush(b); }'),
    ('bfdev_bloom_destroy', 'void w_destroy(bfdev_bloom_t *b) { bfdev_bloom_destroy(b); }'),
]
M32 = (1 << 32) - 1


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class Bloom(Sim):
    def make(s, K, cap, funcs, keys):
        s.K = K; s.cap = cap; s.keys = keys; s.funcs = funcs; s.called = []
        def h(a, ins):
            f, k, pd = a
            if pd != ('o', 'pdata'): raise Bad('the hash function is not given the private data', ins)
            if not isp(k) or k[1][:4] != 'key ': raise Bad('the hash function is given what is no key', ins)
            if not isinstance(f, int) or f >= s.funcs: raise Bad('hash function %s is called of %d' % (f, s.funcs), ins)
            s.called.append(f)
            return s.keys[int(k[1][4:])][f]
        s.handlers['cb_h'] = h
        r = s.do('w_create', cap, P(('f', 'cb_h')), funcs, ('o', 'pdata'))
        if r == 0: return False
        if not isp(r) or r[1] not in s.heap: raise Wrong('create', 'does not give the filter')
        s.b = r; return True

    def bits(s):
        o = s.b[1]; n = s.size[o]; out = set()
        for a in range(s.K['bitmap'], n):
            v = s.cell(o, a, 1)
            for k in range(8):
                if v >> k & 1: out.add((a - s.K['bitmap']) * 8 + k)
        return out

    def ask(s, w, k):
        s.called = []
        return s.do('w_' + w, s.b, P('key %d' % k))


def run(ctx, res):
    mod = ctx.instantiate('w_p36', PRE, LINES, res)
    mods = [mod, ctx.lib(True)]; K = offsets(mod)
    quick = ctx.tier == 'quick'
    vals = [0, 1, 2, 3, 5, 100, 0x7fffffff, 0x80000000, 0x80000001, M32, M32 - 1] + [i * 0x9e3779b1 + 12345 & M32 for i in range(20 if quick else 80)]

    def case(r, cap):
        api = 'create'
        try:
            place = {}
            for v in vals:
                api = 'create'; a = Bloom(mods)
                if not a.make(K, cap, 1, [[v]]): raise Wrong('create', 'is refused')
                if (a.size[a.b[1]] - K['bitmap']) * 8 < cap: raise Wrong('create', 'gives a bitmap of %d bytes' % (a.size[a.b[1]] - K['bitmap']))
                if a.bits(): raise Wrong('create', 'gives a filter that is not empty')
                api = 'peek'
                if a.ask('peek', 0) != 0: raise Wrong('peek', 'reports a key in an empty filter')
                api = 'push'
                if a.ask('push', 0) != 0: raise Wrong('push', 'reports the first key as present')
                b = a.bits()
                if len(b) != 1: raise Wrong('push', 'sets %d positions for one hash value' % len(b))
                place[v] = min(b)
                if a.ask('push', 0) != 1 or a.ask('peek', 0) != 1: raise Wrong('peek', 'loses the key just pushed')
                api = 'flush'; a.do('w_flush', a.b)
                if a.bits() or a.ask('peek', 0) != 0: raise Wrong('flush', 'leaves a key in the filter')
                api = 'destroy'; a.do('w_destroy', a.b)
                if a.heap: raise Wrong('destroy', 'leaks')
                r.count('positions')
            for funcs in (0, 1, 2, 3, 5):
                keys = [[vals[(i * 7 + f * (i % 5 + 1)) % len(vals)] for f in range(funcs)] for i in range(12)]
                a = Bloom(mods); api = 'create'; a.make(K, cap, funcs, keys); have = set()
                for rnd in range(2):
                    for i in range(12):
                        want = {place[v] for v in keys[i]}
                        for w in ('peek', 'push'):
                            api = w; x = a.ask(w, i)
                            if x != int(want <= have): raise Wrong(w, 'answers %s for a key whose positions are %sall set' % (x, '' if want <= have else 'not '))
                            if w == 'peek' and any(q[0] and q[1] == a.b[1] for q in a.log): raise Wrong(w, 'writes to the filter')
                        have |= want
                        if a.bits() != have: raise Wrong('push', 'sets other positions than the hash functions give')
                        if set(a.called) != set(range(funcs)): raise Wrong('push', 'does not use every hash function')
                    for i in range(12):
                        if a.ask('peek', i) != 1: raise Wrong('peek', 'forgets a key')
                    api = 'flush'; a.do('w_flush', a.b); have = set()
                    if a.bits(): raise Wrong('flush', 'leaves a position set')
                    r.count('filters')
        except Wrong as e: say(r, e.api, cap, str(e)); return
        except Bad as e: say(r, api, cap, e.text + (' at %s' % relf(e.ins.where) if e.ins else '')); return
        except (Stuck, Bound) as e: r.undecided('filter of %d' % cap, str(e) or 'does not end'); return

    def say(r, api, cap, t): r.bad('bloom:%s' % api, 'src/bloom.c (bfdev_bloom_%s)' % api, RULE, 'bfdev_bloom_%s: capacity %d: %s' % (api, cap, t))

    def sizes(r):
        for cap in [0, 1, 63, 64, 65, 1 << 31, (1 << 31) + 1, M32 - 64, M32 - 63, M32 - 62, M32 - 1, M32]:
            try:
                a = Bloom(mods); a.big = 1 << 62
                if not a.make(K, cap, 1, [[vals[-1]]]): r.count('sizes'); continue
                c = a.cell(a.b[1], K['capacity'], 4)
                room = (a.size[a.b[1]] - K['bitmap']) * 8
                if c > room or cap > room or c < cap: raise Wrong('create', 'the capacity is %s and the bitmap has %d bits' % (c, room))
                for v in vals:
                    a.keys = [[v]]; a.ask('push', 0)
            except Wrong as e: say(r, e.api, cap, str(e)); return
            except Bad as e: say(r, 'create', cap, e.text + (' at %s' % relf(e.ins.where) if e.ins else '')); return
            except (Stuck, Bound) as e: r.undecided('filter of %d' % cap, str(e) or 'does not end'); return
            r.count('sizes')
        a = Bloom(mods); a.failat = True
        try:
            if a.make(K, 64, 1, [[0]]): say(r, 'create', 64, 'succeeds without memory')
        except Bad as e: say(r, 'create', 64, 'without memory: ' + e.text)
    jobs = [sizes]
    for cap in (1, 2, 63, 64, 65, 127, 128, 192, 256, 320, 1000) + (() if quick else (4096, 5000)):
        jobs.append(lambda r, cap=cap: case(r, cap))
    par(res, jobs)
    res.need('filters', 30)
