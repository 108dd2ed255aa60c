import itertools, random
from common import *
from sim import *
from par import par
RULE = 'a rate limit accepts exactly burst requests per window, a token bucket exactly as many as tokens were generated; the counters agree'
EXPLANATION = 'Every call of the rate limit and the token bucket is followed over the compiled IR from states on both sides of every comparison (burst and capacity from 0 to the largest number, elapsed time from nothing to 2^40 intervals) and for histories of calls, and compared with a model in unbounded arithmetic; the time comparisons are compared on the boundaries of their type.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>
#include <bfdev/time.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(rpassed, bfdev_ratelimit_t, passed) O(rmissed, bfdev_ratelimit_t, missed) O(tpassed, bfdev_tokenbucket_t, passed) O(tmissed, bfdev_tokenbucket_t, missed)
const unsigned long off_rsize = sizeof(bfdev_ratelimit_t), off_tsize = sizeof(bfdev_tokenbucket_t);
'''
R = 'bfdev_ratelimit_t *l'; T = 'bfdev_tokenbucket_t *l'
LINES = [
    ('bfdev_ratelimit_init', 'void w_rinit(%s, bfdev_time_t i, unsigned b) { bfdev_ratelimit_init(l, i, b); }' % R),
    ('BFDEV_DEFINE_RATELIMIT', 'void w_rinit2(%s, bfdev_time_t i, unsigned b) { BFDEV_DEFINE_RATELIMIT(x, i, b); *l = x; }' % R),
    ('bfdev_ratelimit_reset', 'void w_rreset(%s) { bfdev_ratelimit_reset(l); }' % R),
    ('bfdev_ratelimit', 'int w_r(%s, bfdev_time_t t) { return bfdev_ratelimit(l, t); }' % R),
    ('bfdev_tokenbucket_init', 'void w_tinit(%s, bfdev_time_t i, unsigned b) { bfdev_tokenbucket_init(l, i, b); }' % T),
    ('BFDEV_DEFINE_TOKENBUCKET', 'void w_tinit2(%s, bfdev_time_t i, unsigned b) { BFDEV_DEFINE_TOKENBUCKET(x, i, b); *l = x; }' % T),
    ('bfdev_tokenbucket_reset', 'void w_treset(%s) { bfdev_tokenbucket_reset(l); }' % T),
    ('bfdev_tokenbucket_update', 'void w_tupdate(%s, bfdev_time_t t) { bfdev_tokenbucket_update(l, t); }' % T),
    ('bfdev_tokenbucket', 'int w_t(%s, bfdev_time_t t) { return bfdev_tokenbucket(l, t); }' % T),
] + [('bfdev_time_' + n, 'int w_%s(bfdev_time_t a, bfdev_time_t b) { return bfdev_time_%s(a, b); }' % (n, n)) for n in ('compare', 'after', 'before', 'after_equal', 'before_equal')] + [
    ('bfdev_time_add', 'bfdev_time_t w_add(bfdev_time_t a, bfdev_time_t b) { return bfdev_time_add(a, b); }'), ('bfdev_time_sub', 'bfdev_time_t w_sub(bfdev_time_t a, bfdev_time_t b) { return bfdev_time_sub(a, b); }')]
U32 = (1 << 32) - 1


class Wrong(Exception): pass


class Rate:
    """passes in the window, refusals since the reset"""
    def __init__(s, i, b): s.i = i; s.b = b; s.reset()
    def reset(s): s.begin = None; s.passed = s.missed = 0
    def call(s, t):
        if not s.i: return True
        if s.begin is None: s.begin = t
        if t > s.begin + s.i: s.begin = t; s.passed = 0
        if s.passed < s.b: s.passed += 1; return True
        s.missed += 1; return False


class Bucket:
    def __init__(s, i, b): s.i = i; s.b = b; s.reset()
    def reset(s): s.last = None; s.cur = s.passed = s.missed = 0
    def update(s, t): s.last = t
    def call(s, t):
        if not s.i: return True
        if s.last is None: s.last = t; s.cur = s.b
        n = (t - s.last) // s.i; s.last += n * s.i; s.cur = min(s.b, s.cur + n)
        if not s.cur: s.missed += 1; return False
        s.cur -= 1; s.passed += 1; return True


def run(ctx, res):
    quick = ctx.tier == 'quick'
    mod = ctx.instantiate('w_p38', PRE, LINES, res); mods = [mod, ctx.lib(False)]; K = offsets(mod)

    def history(r, kind, i, b, ops, init):
        """ops: times (int), 'reset' or ('update', time)"""
        a = Sim(mods); x = 'r' if kind == 'ratelimit' else 't'; m = (Rate if x == 'r' else Bucket)(i, b); n = 0; h = []
        try:
            a.new('l', K[x + 'size'], False); a.do('w_%sinit%s' % (x, init), P('l'), i, b)
            for op in ops:
                h.append(op); r.count('calls')
                if op == 'reset': a.do('w_%sreset' % x, P('l')); m.reset()
                elif isinstance(op, tuple):
                    if x == 'r': h.pop(); continue
                    a.do('w_tupdate', P('l'), op[1]); m.update(op[1])
                else:
                    got = a.do('w_' + x, P('l'), op); due = m.call(op)
                    if bool(got) != due: raise Wrong('%s the call at %d' % ('accepts' if got else 'refuses', op))
                for c, v in (('passed', m.passed), ('missed', m.missed)):
                    if a.cell('l', K[x + c], 4) != v & U32: raise Wrong('%s is %s, due is %d' % (c, a.cell('l', K[x + c], 4), v))
            return True
        except Wrong as e: t = str(e)
        except Bad as e: t = e.text + (' at %s' % relf(e.ins.where) if e.ins else '')
        except (Stuck, Bound) as e: return r.undecided(kind, str(e) or 'does not end')
        r.bad(kind, 'src/%s.c (bfdev_%s)' % (kind, kind), RULE, 'bfdev_%s: interval %d, limit %d, calls %s: %s' % (kind, i, b, h[-6:], t))

    def small(r, kind):
        for i, b in itertools.product((0, 1, 2, 5), (0, 1, 2, 3)):
            for gaps in itertools.product((0, 1, 2, 3, 5, 6), repeat=5 if not quick else 4):
                t = 7; ops = [t]
                for g in gaps: t += g; ops.append(t)
                if not history(r, kind, i, b, ops, ''): return
            r.count('configurations')

    def big(r, kind):
        """one window or refill in every relation of the quantities, also far beyond 32 bits"""
        for i in (1, 2, 1000, 1 << 31, (1 << 32) + 1, 1 << 40):
            for b in (0, 1, 2, (1 << 31) - 1, 1 << 31, U32 - 1, U32):
                for used in (0, 1, 2, 3):
                    for el in sorted({k * i + d for k in (0, 1, 2, 3, (1 << 31) - 1, 1 << 31, U32 - 1, U32, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 40) for d in (-1, 0, 1) if 0 <= k * i + d < 1 << 61}):
                        t = 5; ops = [t] * used + [t + el] * 3 + [t + el + i - 1, t + el + i, t + el + i + 1, t + el + 2 * i + 1]
                        if not history(r, kind, i, b, ops if used else [t] + ops, ''): return
                r.count('configurations')

    def longer(r, kind, seeds):
        for seed in seeds:
            rnd = random.Random(seed); i = rnd.choice([0, 1, 3, 10, 1 << 20]); b = rnd.choice([0, 1, 2, 5, 9, U32]); t = rnd.choice([1, 2, 1 << 40]); ops = []
            for _ in range(60 if quick else 300):
                x = rnd.random(); t += rnd.choice([0, 0, 0, 1, 2, i // 2, i, i + 1, 2 * i, 3 * i + 2, i * 7])
                if x < .04: ops.append('reset')
                elif x < .10: ops.append(('update', t))
                else: ops.append(t)
            if not history(r, kind, i, b, ops, rnd.choice(['', '2'])): return
            r.count('histories')

    def times(r):
        V = [0, 1, 2, -1, -2, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 63) - 1, (1 << 63) - 2, -(1 << 63), 1 - (1 << 63), 5 << 40]
        M = (1 << 64) - 1; a = Sim(mods)
        for x, y in itertools.product(V, V):
            r.count('time_pairs')
            for n, due in (('compare', (x > y) - (x < y)), ('after', x > y), ('before', x < y), ('after_equal', x >= y), ('before_equal', x <= y), ('add', x + y), ('sub', x - y)):
                if n in ('add', 'sub') and not -(1 << 63) <= due < 1 << 63: continue
                try: got = a.do('w_' + n, x & M, y & M)
                except (Bad, Stuck, Bound) as e: r.undecided('time_' + n, str(e)); return
                if n in ('add', 'sub'): ok = got == due & M
                else:
                    got = signed(got, 32); ok = (got > 0) == (due > 0) and (got < 0) == (due < 0) if n == 'compare' else bool(got) == due
                if not ok: r.bad('time:' + n, 'include/bfdev/time.h (bfdev_time_%s)' % n, RULE, 'bfdev_time_%s(%d, %d) gives %s' % (n, x, y, got)); return
    jobs = [times]
    for k in ('ratelimit', 'tokenbucket'):
        jobs += [lambda r, k=k: small(r, k), lambda r, k=k: big(r, k)] + [lambda r, k=k, s=s: longer(r, k, range(s, 160 if quick else 1600, 4)) for s in range(4)]
    par(res, jobs, 8)
    res.need('calls', 20000); res.need('time_pairs', 100); res.need('histories', 100)
