import random
from common import *
from sim import *
from par import par
from p28 import Text
RULE = 'a cache answers every request as its entries, their references and its policy demand, and its lists, counters and states agree with them'
EXPLANATION = 'Creation, obtain (get, try, cumulative), find, put, delete, rename, commit, reset and destruction of the cache are followed over the compiled IR with both policies the library registers.  The states reachable by short histories are explored breadth first (a state is the memory of the cache), longer histories follow with more entries; hash values collide in every way or not at all.  After each operation every entry, list and counter is read back and compared with a model; an eviction has to pick the entry the policy names.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/cache.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(nlist, bfdev_cache_node_t, list) O(status, bfdev_cache_node_t, status) O(index, bfdev_cache_node_t, index) O(refcnt, bfdev_cache_node_t, refcnt) O(tag, bfdev_cache_node_t, tag) O(data, bfdev_cache_node_t, data)
O(using, bfdev_cache_head_t, using) O(freed, bfdev_cache_head_t, freed) O(changing, bfdev_cache_head_t, changing) O(nodes, bfdev_cache_head_t, nodes) O(size, bfdev_cache_head_t, size)
O(used, bfdev_cache_head_t, used) O(pending, bfdev_cache_head_t, pending) O(changed, bfdev_cache_head_t, changed) O(starve, bfdev_cache_head_t, starve) O(hits, bfdev_cache_head_t, hits) O(misses, bfdev_cache_head_t, misses)
O(hash, bfdev_cache_ops_t, hash) O(find, bfdev_cache_ops_t, find) const unsigned long off_osize = sizeof(bfdev_cache_ops_t);
O(lnext, bfdev_list_head_t, next) O(lprev, bfdev_list_head_t, prev)
O(aname, bfdev_cache_algo_t, name) O(astarving, bfdev_cache_algo_t, starving) O(aobtain, bfdev_cache_algo_t, obtain) O(aget, bfdev_cache_algo_t, get) O(aput, bfdev_cache_algo_t, put) O(aupdate, bfdev_cache_algo_t, update) O(aclear, bfdev_cache_algo_t, clear) O(areset, bfdev_cache_algo_t, reset) O(acreate, bfdev_cache_algo_t, create) O(adestroy, bfdev_cache_algo_t, destroy)
const unsigned long off_asize = sizeof(bfdev_cache_algo_t);
const unsigned long off_FREED = BFDEV_CACHE_FREED, off_PENDING = BFDEV_CACHE_PENDING, off_USING = BFDEV_CACHE_USING, off_MANAGED = BFDEV_CACHE_MANAGED;
const unsigned long off_uncommitted = BFDEV_CACHE_UNCOMMITTED;
'''
H = 'bfdev_cache_head_t *h'
N = 'bfdev_cache_node_t *'
LINES = [
    ('bfdev_cache_create', 'bfdev_cache_head_t *w_create(const char *n, const bfdev_cache_ops_t *o, unsigned long s, unsigned long m, void *p) { return bfdev_cache_create(n, 0, o, s, m, p); }'),
    ('bfdev_cache_get', N + 'w_get(%s, const void *t) { return bfdev_cache_get(h, t); }' % H),
    ('bfdev_cache_try_get', N + 'w_try(%s, const void *t) { return bfdev_cache_try_get(h, t); }' % H),
    ('bfdev_cache_cumulative', N + 'w_cumulative(%s, const void *t) { return bfdev_cache_cumulative(h, t); }' % H),
    ('bfdev_cache_obtain', N + 'w_join(%s, const void *t) { return bfdev_cache_obtain(h, t, BFDEV_CACHE_UNCOMMITTED); }' % H),
    ('bfdev_cache_find', N + 'w_find(%s, const void *t) { return bfdev_cache_find(h, t); }' % H),
    ('bfdev_cache_put', 'unsigned long w_put(%s, bfdev_cache_node_t *n) { return bfdev_cache_put(h, n); }' % H),
    ('bfdev_cache_del', 'int w_del(%s, bfdev_cache_node_t *n) { return bfdev_cache_del(h, n); }' % H),
    ('bfdev_cache_set', 'int w_set(%s, bfdev_cache_node_t *n, const void *t) { return bfdev_cache_set(h, n, t); }' % H),
    ('bfdev_cache_committed', 'void w_commit(%s) { bfdev_cache_committed(h); }' % H),
    ('bfdev_cache_reset', 'void w_reset(%s) { bfdev_cache_reset(h); }' % H),
    ('bfdev_cache_destroy', 'void w_destroy(%s) { bfdev_cache_destroy(h); }' % H),
    ('bfdev_cache_starving', 'int w_starving(%s) { return !!bfdev_cache_starving_test(h); }' % H),
    ('bfdev_cache_register', 'int w_register(bfdev_cache_algo_t *a) { return bfdev_cache_register(a); }'),
    ('bfdev_cache_unregister', 'int w_unregister(bfdev_cache_algo_t *a) { return bfdev_cache_unregister(a); }'),
]
F, PE, U, M = 'FREED', 'PENDING', 'USING', 'MANAGED'
MODES = {'get': (1, 0), 'try': (0, 0), 'cumulative': (1, 1), 'join': (0, 1)}
COUNTERS = ('used', 'pending', 'changed', 'starve', 'hits', 'misses')


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class Cache(Text):
    def open_up(s, K, policy, size, maxpend, hashes):
        s.K = K; s.policy = policy; s.hashes = hashes; s.maxpend = maxpend; s.rehook()
        s.new('ops', K['osize'], True); s.put('ops', K['hash'], P(('f', 'cb_hash')), 8); s.put('ops', K['find'], P(('f', 'cb_find')), 8); s.ro.add('ops')
        r = s.do('w_create', s.string('policy', policy), P('ops'), size, maxpend, ('o', 'pdata'))
        if r == 0: return False
        if not isp(r) or r[1] not in s.heap: raise Wrong('create', 'does not give a cache')
        s.h = r; s.cap = s.cell(r[1], K['size'])
        t = s.cell(r[1], K['nodes']); s.nodes = [s.cell(t[1], 8 * i) for i in range(s.cap)]
        s.st = [F] * s.cap; s.ref = [0] * s.cap; s.keyof = [None] * s.cap; s.count = [0] * s.cap; s.order = []; s.starving = False; s.cnt = dict.fromkeys(COUNTERS, 0)
        return True

    def rehook(s):
        s.hook()
        def key(t, ins):
            if not isp(t) or not isinstance(t[1], str) or t[1][:4] != 'tag ': raise Bad('a callback is given what is no tag', ins)
            return int(t[1][4:].rstrip('x'))
        def hsh(a, ins):
            if a[1] != ('o', 'pdata'): raise Bad('the hash callback is not given the private data', ins)
            return s.hashes[key(a[0], ins)]
        def fnd(a, ins):
            if a[2] != ('o', 'pdata'): raise Bad('the find callback is not given the private data', ins)
            d = a[0]
            if not isp(d) or d[1][:5] != 'data ': raise Bad('the find callback is given what is no data', ins)
            return (int(d[1][5:]) - key(a[1], ins) << 40) & (1 << 64) - 1
        s.handlers['cb_hash'] = hsh; s.handlers['cb_find'] = fnd

    def copyof(s):
        c = s.clone(); c.cnt = dict(s.cnt); c.rehook(); return c

    def idx(s, api, r):
        for i, n in enumerate(s.nodes):
            if n == r: return i
        raise Wrong(api, 'gives what is no entry of the cache')

    def holder(s, k):
        for i in range(s.cap):
            if s.st[i] != F and s.keyof[i] == k: return i

    def ring(s, o, off):
        K = s.K; out = []; head = P(o, off); p = head
        while True:
            q = s.cell(p[1], p[2] + K['lnext'])
            if not isp(q) or s.cell(q[1], q[2] + K['lprev']) != p: raise Wrong('', 'a list is inconsistent')
            if q == head: return out
            i = [i for i, n in enumerate(s.nodes) if P(n[1], n[2] + K['nlist']) == q]
            if not i or i[0] in out: raise Wrong('', 'a list has a foreign member')
            out.append(i[0]); p = q

    def audit(s, api):
        K = s.K
        try: f, c, u = (set(s.ring(s.h[1], K[x])) for x in ('freed', 'changing', 'using'))
        except Wrong as e: raise Wrong(api, str(e))
        for i, n in enumerate(s.nodes):
            st = s.cell(n[1], K['status'], 4)
            if st != K[s.st[i]]: raise Wrong(api, 'entry %d has state %s, not %s' % (i, st, s.st[i]))
            if s.cell(n[1], K['refcnt']) != s.ref[i]: raise Wrong(api, 'entry %d has %s references, not %d' % (i, s.cell(n[1], K['refcnt']), s.ref[i]))
            if s.cell(n[1], K['index']) != i: raise Wrong(api, 'entry %d has index %s' % (i, s.cell(n[1], K['index'])))
            if s.st[i] != F:
                t = s.cell(n[1], K['tag'])
                if not isp(t) or not isinstance(t[1], str) or not t[1].startswith('tag %d' % s.keyof[i]): raise Wrong(api, 'entry %d carries another tag' % i)
            for nm, x, z in (('freed', f, F), ('changing', c, PE), ('using', u, U)):
                if (i in x) != (s.st[i] == z): raise Wrong(api, 'entry %d (%s) is %son the %s list' % (i, s.st[i], '' if i in x else 'not ', nm))
        for k, v in s.cnt.items():
            x = s.cell(s.h[1], K[k])
            if x != v: raise Wrong(api, 'the counter %s is %s, not %d' % (k, x, v))
        if s.do('w_starving', s.h) != int(s.starving): raise Wrong(api, 'the starving flag is %s' % ('clear' if s.starving else 'set'))

    def ask(s, w, k, alias=False):
        return s.do('w_' + w, s.h, P('tag %d%s' % (k, 'x' * alias)))

    def obtain(s, w, k, alias=False):
        change, join = MODES[w]
        r = s.ask(w, k, alias); i = s.holder(k); c = s.cnt
        if s.starving:
            c['starve'] += 1
            if r != 0: raise Wrong(w, 'gives an entry while starving')
        elif i is not None:
            c['hits'] += 1
            if s.st[i] == PE:
                if not join:
                    if r != 0: raise Wrong(w, 'gives an uncommitted entry')
                    return
                s.ref[i] += 1
                if r != s.nodes[i]: raise Wrong(w, 'does not give the uncommitted entry')
                return
            if s.st[i] == M: s.order.remove(i)
            if s.ref[i] == 0: c['used'] += 1
            s.ref[i] += 1; s.st[i] = U; s.count[i] += 1
            if r != s.nodes[i]: raise Wrong(w, 'does not give the entry of the key')
        else:
            c['misses'] += 1
            room = F in s.st or s.order
            if change and not room: s.starving = True
            if not change or not room or c['pending'] >= s.maxpend:
                if r != 0: raise Wrong(w, 'gives an entry for a key the cache does not hold')
                return
            if r == 0: raise Wrong(w, 'gives no entry')
            n = s.idx(w, r)
            if F in s.st:
                if s.st[n] != F: raise Wrong(w, 'takes entry %d (%s) although entries are free' % (n, s.st[n]))
            else:
                if s.st[n] != M: raise Wrong(w, 'takes entry %d, which is %s' % (n, s.st[n]))
                if s.policy == 'lru' and n != s.order[0]: raise Wrong(w, 'evicts entry %d, entry %d was used longer ago' % (n, s.order[0]))
                if s.policy == 'lfu' and s.count[n] != min(s.count[j] for j in s.order): raise Wrong(w, 'evicts entry %d, used %d times; one was used %d times' % (n, s.count[n], min(s.count[j] for j in s.order)))
                s.order.remove(n)
            s.st[n] = PE; s.ref[n] = 1; s.keyof[n] = k; s.count[n] = 0; c['pending'] += 1; c['used'] += 1; s.starving = False
            s.mem[(r[1], r[2] + s.K['data'])] = (P('data %d' % k), 8)

    def putn(s, i):
        r = s.do('w_put', s.h, s.nodes[i])
        if s.st[i] != U:
            if not r >> 63 and not (1 << 31 <= r < 1 << 32): raise Wrong('put', 'accepts an entry that is %s' % s.st[i])
            return
        s.ref[i] -= 1
        if s.ref[i] == 0: s.st[i] = M; s.order.append(i); s.cnt['used'] -= 1; s.starving = False
        if r != s.ref[i]: raise Wrong('put', 'gives %s, %d references are left' % (r, s.ref[i]))

    def deln(s, i):
        r = signed(s.do('w_del', s.h, s.nodes[i]), 32)
        if s.st[i] != M:
            if r >= 0: raise Wrong('del', 'accepts an entry that is %s' % s.st[i])
            return
        if r != 0: raise Wrong('del', 'refuses an entry that is not in use')
        s.st[i] = F; s.order.remove(i)

    def setn(s, i, k):
        r = signed(s.do('w_set', s.h, s.nodes[i], P('tag %d' % k)), 32)
        if s.st[i] != M:
            if r >= 0: raise Wrong('set', 'accepts an entry that is %s' % s.st[i])
            return
        if r != 0: raise Wrong('set', 'refuses an entry that is not in use')
        s.keyof[i] = k; s.count[i] += 1; s.order.remove(i); s.order.append(i)
        n = s.nodes[i]; s.mem[(n[1], n[2] + s.K['data'])] = (P('data %d' % k), 8)

    def commit(s):
        s.do('w_commit', s.h)
        for i in range(s.cap):
            if s.st[i] == PE: s.st[i] = U; s.cnt['changed'] += 1
        s.cnt['pending'] = 0

    def reset(s):
        s.do('w_reset', s.h)
        s.st = [F] * s.cap; s.ref = [0] * s.cap; s.count = [0] * s.cap; s.order = []; s.starving = False; s.cnt = dict.fromkeys(COUNTERS, 0)

    def finds(s, keys):
        for k in keys:
            i = s.holder(k); want = s.nodes[i] if i is not None and s.st[i] != PE else 0
            if s.ask('find', k) != want: raise Wrong('find', 'of key %d gives %s' % (k, 'an entry' if want == 0 else 'another answer than its entry'))

    def ops(s, keys):
        held = {s.keyof[i] for i in range(s.cap) if s.st[i] != F}
        for k in keys:
            for w in MODES: yield ('obtain', w, k)
        for i in range(s.cap):
            yield ('putn', i)
            if s.st[i] == M or i == 0: yield ('deln', i)
            for k in keys:
                if (k not in held or s.keyof[i] == k) and (s.st[i] == M or i == 0): yield ('setn', i, k); 
        yield ('commit',); yield ('reset',)

    def state(s):
        skip = {s.K[k] for k in ('changed', 'starve', 'hits', 'misses')}
        return frozenset((a, v[0]) for a, v in s.mem.items() if not (a[0] == s.h[1] and a[1] in skip) and a[0] in s.heap and v[0] is not None)


API = {'putn': 'put', 'deln': 'del', 'setn': 'set', 'commit': 'committed', 'reset': 'reset'}


def run(ctx, res):
    mod = ctx.instantiate('w_p26', PRE, LINES, res)
    lib = ctx.lib(True); mods = [mod, lib]; K = offsets(mod)
    quick = ctx.tier == 'quick'

    def say(r, pol, api, case, t):
        f = {'lru': 'lru', 'lfu': 'lfu'}.get(pol, 'cache')
        r.bad('cache:%s:%s' % (pol, api), 'src/cache/cache.c, src/cache/%s.c' % f, RULE, 'bfdev_cache_%s (%s): %s: %s' % (api if api not in MODES else 'obtain', pol, case, t))

    def attempt(r, a, op, hist, keys, full):
        api = op[1] if op[0] == 'obtain' else API[op[0]]
        try:
            getattr(a, op[0])(*op[1:]); a.audit(api)
            if full: api = 'find'; a.finds(keys)
            return True
        except Wrong as e: say(r, a.policy, e.api, 'entries %d, hashes %s, after %s' % (a.cap, a.hashes, hist), str(e))
        except Bad as e: say(r, a.policy, api, 'entries %d, hashes %s, after %s' % (a.cap, a.hashes, hist), e.text + (' at %s' % relf(e.ins.where) if e.ins else ''))
        except (Stuck, Bound) as e: r.undecided('cache %s' % a.policy, str(e) or 'does not end')
        return False

    def breadth(r, pol, size, maxpend, hashes, limit):
        a = Cache(mods).boot(lib); keys = range(len(hashes))
        try:
            if not a.open_up(K, pol, size, maxpend, hashes): return say(r, pol, 'create', 'size %d' % size, 'fails')
            a.audit('create'); a.finds(keys)
        except Wrong as e: return say(r, pol, e.api, 'size %d' % size, str(e))
        except Bad as e: return say(r, pol, 'create', 'size %d' % size, e.text)
        except (Stuck, Bound) as e: return r.undecided('cache', str(e) or 'does not end')
        seen = {a.state()}; todo = [(a, ())]; n = 0
        for a, h in todo:
            for op in a.ops(keys):
                if op[0] == 'obtain' and (i := a.holder(op[2])) is not None and (a.ref[i] >= 2 or a.count[i] >= 3): continue
                if op[0] == 'setn' and a.count[op[1]] >= 3: continue
                b = a.copyof(); r.count('operations')
                if not attempt(r, b, op, h + (op,), keys, True): return
                if n < limit:
                    st = b.state()
                    if st not in seen: seen.add(st); todo.append((b, h + (op,))); n += 1
        for a, h in todo[-3:]: finish(r, a, h)
        r.count('states', len(todo))

    def finish(r, a, h):
        try:
            a.do('w_destroy', a.h)
            if a.heap: raise Wrong('destroy', 'leaks')
        except Wrong as e: say(r, a.policy, 'destroy', 'after %s' % (h,), str(e))
        except Bad as e: say(r, a.policy, 'destroy', 'after %s' % (h,), e.text)
        except (Stuck, Bound) as e: r.undecided('destroy', str(e) or 'does not end')

    def walk(r, pol, size, maxpend, hashes, steps, seed):
        rnd = random.Random(seed); keys = range(len(hashes)); h = []
        a = Cache(mods).boot(lib)
        try: a.open_up(K, pol, size, maxpend, hashes)
        except (Wrong, Bad) as e: return say(r, pol, 'create', 'size %d' % size, str(e))
        except (Stuck, Bound) as e: return r.undecided('cache', str(e) or 'does not end')
        if a.cap < size or a.cap & a.cap - 1: return say(r, pol, 'create', 'size %d' % size, 'gives %d entries' % a.cap)
        for _ in range(steps):
            x = rnd.random(); busy = [i for i in range(a.cap) if a.st[i] == U]; man = [i for i in range(a.cap) if a.st[i] == M]
            if x < .5: op = ('obtain', rnd.choice(['get', 'get', 'get', 'try', 'cumulative', 'join']), rnd.choice(keys), rnd.random() < .3)
            elif x < .75 and busy: op = ('putn', rnd.choice(busy))
            elif x < .9: op = ('commit',)
            elif x < .94 and man: op = ('deln', rnd.choice(man))
            elif x < .985 and man:
                k = rnd.choice(keys); i = rnd.choice(man)
                if a.holder(k) not in (None, i): continue
                op = ('setn', i, k)
            elif x > .996: op = ('reset',)
            else: op = ('putn', rnd.randrange(a.cap))
            h.append(op)
            if not attempt(r, a, op, '... ' + str(h[-6:]), keys, len(h) % 4 == 0): return
            r.count('operations')
        finish(r, a, h[-6:])

    def creation(r):
        for pol in ('lru', 'lfu'):
            for size in (0, 1, 2, 3, 5, 8, (1 << 61) + 1, 1 << 62, (1 << 63) + 1, (1 << 64) - 1):
                a = Cache(mods).boot(lib)
                try:
                    ok = a.open_up(K, pol, size, 1, [0])
                    if ok != (2 <= size < 100): raise Wrong('create', 'with size %d %s' % (size, 'succeeds' if ok else 'fails'))
                    if ok and (a.cap < size or a.cap >= 2 * size): raise Wrong('create', 'gives %d entries for %d' % (a.cap, size))
                except Wrong as e: return say(r, pol, 'create', 'size %d' % size, str(e))
                except Bad as e: return say(r, pol, 'create', 'size %d' % size, e.text)
                except (Stuck, Bound) as e: return r.undecided('create', str(e) or 'does not end')
            for k in range(1, 9):
                a = Cache(mods).boot(lib); a.failat = {k}
                try:
                    ok = a.open_up(K, pol, 4, 1, [0])
                    if ok != (a.nfail == 0): raise Wrong('create', 'allocation %d fails: %s' % (k, 'succeeds' if ok else 'fails'))
                    if not ok and a.heap: raise Wrong('create', 'allocation %d fails: leaks' % k)
                except Wrong as e: return say(r, pol, 'create', '', str(e))
                except Bad as e: return say(r, pol, 'create', 'allocation %d fails' % k, e.text)
                except (Stuck, Bound) as e: return r.undecided('create', str(e) or 'does not end')
        for drop in ('hash', 'find', 'name'):
            a = Cache(mods).boot(lib); a.hook()
            try:
                a.new('ops', K['osize'], True)
                for f in ('hash', 'find'):
                    if f != drop: a.put('ops', K[f], P(('f', 'cb_' + f)), 8)
                if a.do('w_create', a.string('policy', 'lr' if drop == 'name' else 'lru'), P('ops'), 4, 1, 0) != 0: say(r, 'lru', 'create', 'without %s' % drop, 'succeeds')
            except Bad as e: say(r, 'lru', 'create', 'without %s' % drop, e.text)

    def registry(r):
        import itertools
        must = ('aname', 'astarving', 'aobtain', 'aget', 'aput', 'areset', 'acreate', 'adestroy')

        def world():
            a = Cache(mods).boot(lib); a.hook(); a.made = []
            a.string('foo', 'foo'); a.string('fo', 'fo')
            a.new('ops', K['osize'], True); a.put('ops', K['hash'], P(('f', 'cb_hash')), 8); a.put('ops', K['find'], P(('f', 'cb_find')), 8)
            for n, nm in (('A', 'foo'), ('B', 'fo'), ('C', 'foo')):
                a.new(n, K['asize'], True)
                for f in must: a.put(n, K[f], P(('f', 'cb_%s_%s' % (n, f))), 8)
                a.put(n, K['aname'], P(nm), 8)
                a.handlers['cb_%s_acreate' % n] = lambda x, ins, n=n: a.made.append((n, x)) or 0
            return a
        name = {'A': 'foo', 'B': 'fo', 'C': 'foo'}
        for h in itertools.product([(o, n) for o in ('register', 'unregister') for n in 'ABC'], repeat=4):
            api = 'register'
            try:
                a = world(); have = []
                for o, n in h:
                    api = o; x = signed(a.do('w_' + o, P(n)), 32)
                    ok = (n not in have and all(name[k] != name[n] for k in have)) if o == 'register' else n in have
                    if ok: have.append(n) if o == 'register' else have.remove(n)
                    if (x == 0) != ok or x > 0: raise Wrong(o, 'gives %d with %s registered, for %s' % (x, have, n))
                for w in ('foo', 'fo'):
                    a.made.clear(); a.do('w_create', P(w), P('ops'), 4, 1, 0)
                    if a.made != [(n, [0, 4]) for n in have if name[n] == w]: raise Wrong('register', 'creation of "%s" asks %s of %s' % (w, a.made, have))
            except Wrong as e: return say(r, 'registry', e.api, str(h), str(e))
            except Bad as e: return say(r, 'registry', api, str(h), e.text)
            except (Stuck, Bound) as e: return r.undecided('registry', str(e) or 'does not end')
            r.count('registry')
        for f in must:
            a = world(); a.put('A', K[f], 0, 8)
            try:
                if signed(a.do('w_register', P('A')), 32) >= 0: say(r, 'registry', 'register', f, 'accepts an algorithm without %s' % f)
            except Bad as e: say(r, 'registry', 'register', f, e.text)
    jobs = [creation, registry]
    L = 120 if quick else 3000
    far = [0, 1 << 40, 3, (1 << 64) - 1]
    for pol in ('lru', 'lfu'):
        for size, mp, hs, f in ((2, 2, [5, 5, 5], 2), (2, 1, far[:3], 1), (2, 8, [0, 1, 2, 3], 2), (4, 4, [7, 7, 9, 9, 7], 2), (4, 2, far + [2], 1)):
            jobs.append(lambda r, pol=pol, size=size, mp=mp, hs=hs, f=f: breadth(r, pol, size, mp, hs, L * f))
        for seed in range(3 if quick else 20):
            jobs.append(lambda r, pol=pol, seed=seed: walk(r, pol, [2, 4, 7][seed % 3], [1, 3, 100][seed // 3 % 3 if not quick else seed], [(i * 0x9e3779b97f4a7c15 & (1 << 64) - 1) if seed % 2 else i % 3 for i in range(6 + seed % 5)], 300 if quick else 1500, seed))
    par(res, jobs, 8)
    res.need('operations', 3000); res.need('registry', 100)
