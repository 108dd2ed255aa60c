import os
from common import *
from sim import *
from par import par
RULE = 'a search gives the first occurrence of the pattern at or after the position reached, continuing gives the next ones, and nothing outside the text, the pattern and the tables is touched'
EXPLANATION = 'Every search algorithm the library registers is prepared and run over the compiled IR for every pattern up to renaming of its bytes and a text whose bytes are left open until the algorithm looks at them (case split over the bytes of the pattern, their other case and a byte that is in neither); an answer is accepted only if the bytes looked at determine it.  Repeated searches, texts given in blocks, case-insensitive search, failing allocation and the registry are covered by the same analysis.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/textsearch.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(next, bfdev_ts_context_t, next_block) O(tss, bfdev_ts_linear_t, tss) O(pdata, bfdev_ts_state_t, pdata)
O(ctxalgo, bfdev_ts_context_t, algo) O(ctxalloc, bfdev_ts_context_t, alloc)
O(name, bfdev_ts_algorithm_t, name) O(prepare, bfdev_ts_algorithm_t, prepare) O(destroy, bfdev_ts_algorithm_t, destroy)
O(find, bfdev_ts_algorithm_t, find) O(get, bfdev_ts_algorithm_t, pattern_get) O(len, bfdev_ts_algorithm_t, pattern_len)
const unsigned long off_lsize = sizeof(bfdev_ts_linear_t), off_ssize = sizeof(bfdev_ts_state_t), off_asize = sizeof(bfdev_ts_algorithm_t), off_csize = sizeof(bfdev_ts_context_t);
const unsigned long off_igcase = BFDEV_TS_IGCASE;
'''
LINES = [
    ('bfdev_textsearch_create', 'bfdev_ts_context_t *w_create(const char *n, const void *p, unsigned long l, unsigned long f) { return bfdev_textsearch_create(0, n, p, l, f); }'),
    ('bfdev_textsearch_linear', 'unsigned w_linear(bfdev_ts_context_t *c, bfdev_ts_linear_t *l, const void *d, unsigned n) { return bfdev_textsearch_linear(c, l, d, n); }'),
    ('bfdev_textsearch_find', 'unsigned w_find(bfdev_ts_context_t *c, bfdev_ts_state_t *s) { return bfdev_textsearch_find(c, s); }'),
    ('bfdev_textsearch_next', 'unsigned w_next(bfdev_ts_context_t *c, bfdev_ts_state_t *s) { return bfdev_textsearch_next(c, s); }'),
    ('textsearch_pattern_get', 'const void *w_get(bfdev_ts_context_t *c) { return textsearch_pattern_get(c); }'),
    ('bfdev_textsearch_pattern_len', 'unsigned w_len(bfdev_ts_context_t *c) { return bfdev_textsearch_pattern_len(c); }'),
    ('bfdev_textsearch_destroy', 'void w_destroy(bfdev_ts_context_t *c) { bfdev_textsearch_destroy(c); }'),
    ('bfdev_ts_igcase', 'void w_igset(bfdev_ts_context_t *c) { bfdev_ts_igcase_set(c); }'),
    ('bfdev_textsearch_register', 'int w_register(bfdev_ts_algorithm_t *a) { return bfdev_textsearch_register(a); }'),
    ('bfdev_textsearch_unregister', 'int w_unregister(bfdev_ts_algorithm_t *a) { return bfdev_textsearch_unregister(a); }'),
]
NONE = (1 << 32) - 1
up = lambda c: c - 32 if 97 <= c <= 122 else c
low = lambda c: c + 32 if 65 <= c <= 90 else c


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class Text(Sim):
    open = ()

    def boot(s, mod, kinds='llvm.global_ctors'):
        from flow import flat_init
        g = mod.globals.get(kinds); s.hook()
        for o, v in flat_init(g['init']) if g else []:
            if v[0] == 'f': s.do(v[1])
        return s

    def hook(s):
        s.handlers['strcmp'] = s.strcmp
        s.handlers['toupper'] = lambda a, ins: s.fold(a[0], up, 'toupper', ins)
        s.handlers['tolower'] = lambda a, ins: s.fold(a[0], low, 'tolower', ins)

    def fold(s, v, f, what, ins):
        if not isinstance(v, int): raise Stuck('%s of a term' % what)
        v = signed(v & 0xffffffff, 32)
        if not -1 <= v <= 255: raise Bad('hands %s the value %d, which is no character' % (what, v), ins)
        return f(v) & 0xffffffff

    def strcmp(s, a, ins):
        i = 0
        while True:
            c = []
            for p in a:
                q = s.addr(P(p[1], p[2] + i), 1, ins, False) if isp(p) else s.addr(p, 1, ins, False); c.append(s.force(s.read(q[1], q[2], 1)))
            if c[0] != c[1]: return (c[0] - c[1]) & 0xffffffff
            if c[0] == 0: return 0
            i += 1

    def string(s, name, text):
        s.new(name, len(text) + 1, True)
        for i, c in enumerate(text.encode() + b"\0"): s.put(name, i, c, 1)
        s.ro.add(name); return P(name)

    # ---- open bytes
    def split(s, key):
        n, off, size = key
        if n not in s.open: return super().split(key)
        if size != 1: raise Stuck('wide read of %s' % n)
        if n == 'pattern' and not s.ig:
            v = s.choose(s.used + s.fresh[:1])
            if v not in s.used: s.used.append(v); s.fresh.remove(v)
        elif n == 'pattern':
            v = s.choose(s.fresh)
            for c in (up(v), low(v)):
                if c not in s.used: s.used.append(c)
        else: v = s.choose(s.used + [s.other] * (s.other is not None))
        s.seen[(n, off)] = v
        return v

    def setup(s, K, alphabet, other, m, ig):
        s.hook(); s.K = K; s.fresh = list(alphabet); s.used = []; s.other = other; s.ig = ig; s.m = m; s.open = {'pattern'}; s.seen = {}
        s.new('pattern', m); s.ro.add('pattern')

    def key(s, c): return up(c) if s.ig else c
    def pat(s):
        for i in range(s.m): s.cell('pattern', i, 1)
        return [s.key(s.seen[('pattern', i)]) for i in range(s.m)]


def run(ctx, res):
    mod = ctx.instantiate('w_p28', PRE, LINES, res)
    lib = ctx.lib(True); mods = [mod, lib]; K = offsets(mod)
    quick = ctx.tier == 'quick'
    NAMES = ('kmp', 'bm', 'sunday')

    def say(r, algo, api, case, t): r.bad('textsearch:%s:%s' % (algo, api), 'src/textsearch/%s.c' % (algo if api not in ('register', 'unregister', 'linear') else 'linear' if api == 'linear' else 'textsearch'), RULE, '%s (%s): %s: %s' % (api, algo, case, t))

    def search(r, algo, m, n, alphabet, other, ig, blocks=None, full=False):
        """one algorithm, a pattern of m bytes, a text of n bytes in blocks (None: linear)"""
        last = {}
        base = Text(mods).boot(lib)

        def prepare(oracle):
            a = base.clone(); a.oracle = oracle; a.truths = {}
            a.setup(K, alphabet, other, m, ig); last['a'] = a
            try:
                c = a.do('w_create', a.string('name', algo), P('pattern'), m, K['igcase'] if ig else 0)
                if not isp(c) or c[1] not in a.heap: raise Wrong('create', 'does not give a context')
                return a, c, a.pat()
            except Wrong as e: return e.api, str(e)
            except Bad as e: return 'create', e.text + (' at %s' % relf(e.ins.where) if e.ins else '')

        def case(oracle, a, c, pat):
            a = a.clone(); a.hook(); a.oracle = oracle; a.truths = {}; last['a'] = a; api = 'pattern'
            try:
                if a.do('w_len', c) != m: raise Wrong(api, 'the length is wrong')
                q = a.do('w_get', c)
                if not isp(q) or [a.cell(q[1], q[2] + i, 1) for i in range(m)] != pat: raise Wrong(api, 'the pattern given is another one')
                parts = blocks or [n]
                cuts = [sum(parts[:i]) for i in range(len(parts) + 1)]
                for i, z in enumerate(parts): a.new('text %d' % i, z); a.ro.add('text %d' % i); a.open.add('text %d' % i)

                def at(p):
                    for i in range(len(parts)):
                        if cuts[i] <= p < cuts[i + 1]: return a.seen.get(('text %d' % i, p - cuts[i]))
                def inside(p): return any(cuts[i] <= p and p + m <= cuts[i + 1] for i in range(len(parts)))
                def refuted(p): return any(at(p + i) is not None and a.key(at(p + i)) != pat[i] for i in range(m))
                def matched(p): return all(at(p + i) is not None and a.key(at(p + i)) == pat[i] for i in range(m))

                def nb(x, ins):
                    t, st, consumed, dest = x
                    if t != c: raise Bad('next_block is not given the context', ins)
                    if st != P('state'): raise Bad('next_block is not given the state', ins)
                    if not isinstance(consumed, int) or not 0 <= consumed <= n: raise Bad('next_block is asked for position %s of %d' % (consumed, n), ins)
                    for i in range(len(parts)):
                        if cuts[i] <= consumed < cuts[i + 1]:
                            a.store(dest, P('text %d' % i, consumed - cuts[i]), 8, ins); return cuts[i + 1] - consumed
                    return 0
                a.handlers['cb_nb'] = nb
                spanning = algo == 'kmp'

                def follow(api, first, more, text):
                    at0 = 0; k = first()
                    for rnd in range(n + 2):
                        end = n - m if k == NONE else k
                        if k != NONE:
                            if not at0 <= k <= n - m: raise Wrong(api, '%s gives %d, searching from %d in %d bytes' % (text, k, at0, n))
                            if not matched(k): raise Wrong(api, '%s gives %d where the pattern is not' % (text, k))
                            end -= 1
                        for p in range(at0, end + 1):
                            if not refuted(p) and (spanning or inside(p)): raise Wrong(api, '%s gives %s although the pattern may be at %d' % (text, 'no match' if k == NONE else k, p))
                        if k == NONE: break
                        at0 = k + m; api = 'next'; k = more()
                    else: raise Wrong(api, '%s does not end' % text)
                if blocks is None:
                    a.new('linear', K['lsize'], False); api = 'linear'
                    st = P('linear', K['tss'])
                    follow('linear', lambda: a.do('w_linear', c, P('linear'), P('text 0') if n else P('text 0'), n), lambda: a.do('w_next', c, st), 'linear')
                    if full: api = 'find'; follow('find', lambda: a.do('w_find', c, st), lambda: a.do('w_next', c, st), 'find after linear')
                else:
                    a.new('state', K['ssize'], False); api = 'find'
                    a.put(c[1], c[2] + K['next'], P(('f', 'cb_nb')), 8)
                    follow('find', lambda: a.do('w_find', c, P('state')), lambda: a.do('w_next', c, P('state')), 'find in blocks')
                api = 'destroy'; a.do('w_destroy', c)
                if a.heap: raise Wrong(api, 'leaks')
            except Wrong as e: return e.api, str(e)
            except Bad as e: return api, e.text + (' at %s' % relf(e.ins.where) if e.ins else '')
            return None
        ctxt = 'pattern of %d, text of %d%s%s' % (m, n, ', ignoring case' if ig else '', ', blocks %s' % (blocks,) if blocks else '')
        try:
            todo = ((x, None) if len(x) == 2 else (y, 1) for x in explore(prepare, 100000) for y in ([x] if len(x) == 2 else explore(lambda o: case(o, *x), 2000000)))
            for x, _ in todo:
                r.count('searches')
                if x:
                    a = last['a']; sh = lambda nme: {o: v for (q, o), v in sorted(a.seen.items()) if q == nme}
                    say(r, algo, x[0], '%s, pattern %s, text %s' % (ctxt, bytes(a.seen.get(('pattern', i), 63) for i in range(m)), {'%s' % (k,): v for k, v in sorted(a.seen.items()) if k[0] != 'pattern'} if blocks else sh('text 0')), x[1]); return
        except (Stuck, Bound) as e: r.undecided('%s %s' % (algo, ctxt), str(e) or 'does not end'); return
        r.sample('%s: %s' % (algo, ctxt))

    def misc(r):
        for algo in NAMES:
            a = Text(mods).boot(lib); a.setup(K, [97], 98, 1, False); a.failat = True
            try:
                if a.do('w_create', a.string('name', algo), P('pattern'), 1, 0) != 0: say(r, algo, 'create', 'without memory', 'does not fail')
            except Bad as e: say(r, algo, 'create', 'without memory', e.text)
            except (Stuck, Bound) as e: r.undecided('create', str(e) or 'does not end')
        a = Text(mods).boot(lib); a.setup(K, [97], 98, 1, False)
        for w in ('km', 'kmpp', '', 'linear'):
            try:
                if a.do('w_create', a.string('name', w), P('pattern'), 1, 0) != 0: say(r, 'kmp', 'create', 'name "%s"' % w, 'finds an algorithm')
            except Bad as e: say(r, 'kmp', 'create', 'name "%s"' % w, e.text)
        r.count('registry')

    def registry(r):
        """histories of registrations of three algorithms, two of one name"""
        import itertools
        fields = ('name', 'find', 'prepare', 'destroy', 'get', 'len')

        def world():
            a = Text(mods).boot(lib)
            a.string('foo', 'foo'); a.string('fo', 'fo'); a.string('pattern', 'abc')
            for n, nm in (('A', 'foo'), ('B', 'fo'), ('C', 'foo2')):
                a.new(n, K['asize'], False)
                for f in fields: a.put(n, K[f], P(('f', 'cb_%s_%s' % (n, f))), 8)
                a.put(n, K['name'], P(nm), 8)
                a.string('foo2', 'foo')
                def prep(x, ins, n=n):
                    if x[0] != 0 or x[1] != P('pattern') or x[2] != 3 or x[3] != 1 << 63 | 5: raise Bad('prepare is given other arguments', ins)
                    a.asked.append(n)
                    return 0 if a.refuse else P('ctx ' + n)
                a.handlers['cb_%s_prepare' % n] = prep
                a.new('ctx ' + n, K['csize'], False)
            a.asked = []; a.refuse = False
            return a
        name = {'A': 'foo', 'B': 'fo', 'C': 'foo'}

        def check(a, have, h):
            for w in ('foo', 'fo'):
                want = [n for n in have if name[n] == w]
                for refuse in (False, True):
                    a.asked.clear(); a.refuse = refuse
                    q = a.do('w_create', P(w), P('pattern'), 3, 1 << 63 | 5)
                    if a.asked != want: raise Wrong('create', 'asks %s of %s for "%s"' % (a.asked, have, w))
                    if q != (P('ctx ' + want[0]) if want and not refuse else 0): raise Wrong('create', 'gives another context')
                    if want and not refuse and (a.cell(q[1], K['ctxalgo']) != P(want[0]) or a.cell(q[1], K['ctxalloc']) != 0): raise Wrong('create', 'the context does not name its algorithm and allocator')
            for w in NAMES:
                q = a.do('w_create', P('n ' + w), P('pattern'), 3, 0)
                if not isp(q) or q[1] not in a.heap: raise Wrong('create', 'the algorithm "%s" is lost' % w)
                a.do('w_destroy', q)
        ops = [(o, n) for o in ('register', 'unregister') for n in 'ABC']
        for h in itertools.product(ops, repeat=4 if quick else 5):
            api = 'register'
            try:
                a = world()
                for w in NAMES: a.string('n ' + w, w)
                have = []
                for o, n in h:
                    api = o
                    x = signed(a.do('w_' + o, P(n)), 32)
                    if o == 'register':
                        ok = n not in have and all(name[k] != name[n] for k in have)
                        if ok: have.append(n)
                    else:
                        ok = n in have
                        if ok: have.remove(n)
                    if (x == 0) != ok or x > 0: raise Wrong(o, 'gives %d with %s registered, for %s' % (x, have, n))
                check(a, have, h)
            except Wrong as e: say(r, 'registry', e.api if e.api != 'create' else 'register', 'history %s' % (h,), str(e)); return
            except Bad as e: say(r, 'registry', api, 'history %s' % (h,), e.text + (' at %s' % relf(e.ins.where) if e.ins else '')); return
            except (Stuck, Bound) as e: r.undecided('registry', str(e) or 'does not end'); return
            r.count('registry')
        for f in fields:
            a = world(); a.put('A', K[f], 0, 8)
            try:
                x = signed(a.do('w_register', P('A')), 32)
                if x >= 0: raise Wrong('register', 'accepts an algorithm without %s' % f)
            except Wrong as e: say(r, 'registry', e.api, f, str(e))
            except Bad as e: say(r, 'registry', 'register', 'without %s' % f, e.text)
    jobs = [misc] + [registry] * (not os.environ.get('NOREG'))
    add = lambda *x, **k: jobs.append(lambda r: search(r, *x, **k))
    A1, A2 = [0xff, 0x00, 0x61, 0x80, 0x41, 0x01], [0x00, 0x61, 0xff, 0x7f, 0x80]
    for algo in NAMES:
        skip = algo != 'kmp'
        sizes = [(1, 4), (2, 6), (3, 6 + skip), (4, 6 + skip)] if quick else [(1, 6), (2, 8), (3, 8 + skip), (4, 7 + skip), (5, 7 + skip)]
        for m, N in sizes:
            for n in sorted({0, m - 1, m, m + 1, N}): add(algo, m, n, A1, 0x42, False, full=n == m + 1)
            add(algo, m, min(N - 1, m + 2), A2, 0xff if m < 3 else 0xfe, False)
        add(algo, 4, 7 + skip, [0x61, 0x62], 0xff, False)
        for m, n in [(5, 9), (6, 10)] if quick else [(5, 11), (6, 12), (7, 13), (8, 13)]: add(algo, m, n, [0x61, 0x62], None, False)
        for m, n in [(1, 3), (2, 4)] if quick else [(1, 4), (2, 5), (3, 5)]: add(algo, m, n, [0x61, 0x42, 0x7a, 0x5b, 0x40, 0xe1], 0xc1, True)
        add(algo, 2, 4, [0x61, 0x5a, 0xff], 0x5b, True)
        for m, n in [(3, 5), (4, 5 + skip)] if quick else [(3, 6), (4, 6 + skip)]: add(algo, m, n, [0x61, 0x42], None, True)
        for m, bl in [(1, [1, 2]), (2, [2, 3]), (2, [1, 1, 3]), (3, [2, 1, 4]), (2, [3, 3])]: add(algo, m, sum(bl), A1, 0x42, False, blocks=bl)
    par(res, jobs, 8)
    res.need('searches', 1000); res.need('registry', 100)
