from common import *
from trace import *
RULE = 'per case (size zero or not, allocator given or not, operations given or not, operation given or not) every path performs exactly the specified call with the specified arguments and returns its result'
EXPLANATION = 'Case-wise effect summaries of the four allocator entry points over the compiled IR; any other call, argument, result or omission is a violation.'
DEF, DEFOPS = 'bfdev_alloc_default', 'bfdev_alloc_default_ops'
MEMBER = {'bfdev_malloc': 'alloc', 'bfdev_zalloc': 'zalloc', 'bfdev_realloc': 'realloc', 'bfdev_free': 'free'}


def expected(fn, slot, pd, indirect):
    """acceptable calls: [(callee, args)]"""
    a1, a2 = arg(1), arg(2)
    if fn == 'bfdev_malloc': return [(('ind', slot), (a1, pd))] if indirect else [('malloc', (a1,))]
    if fn == 'bfdev_zalloc': return [(('ind', slot), (a1, pd))] if indirect else [('calloc', (C(1), a1)), ('calloc', (a1, C(1)))]
    if fn == 'bfdev_realloc': return [(('ind', slot), (a1, a2, pd))] if indirect else [('realloc', (a1, a2))]
    return [(('ind', slot), (a1, pd))] if indirect else [('free', (a1,))]


def run(ctx, res):
    for dbg in ctx.configs:
        m = ctx.lib(dbg)
        ops = {n: o for n, o, ty, sz in m.types['bfdev_alloc_ops']['m']}
        al = {n: o for n, o, ty, sz in m.types['bfdev_alloc']['m']}
        for g, n in ((DEF, 'bfdev_alloc'), (DEFOPS, 'bfdev_alloc_ops')):
            gd = m.globals.get(g)
            if gd is None or 'init' not in gd: raise AnalysisBroken('global %s not found' % g)
            for o, v in flat_init(gd['init']):
                if v[0] in ('g', 'f') or v[0] == 'c' and v[1]:
                    res.bad('%s:init' % g, 'src/allocator.c', 'default allocator', '%s does not start out empty' % g)
        for fn, mem in MEMBER.items():
            f = need_fn(m, fn)
            res.sample(fn)
            if not f.d.get('noinl'): pass
            size = arg(2) if fn == 'bfdev_realloc' else arg(1)
            # degenerate requests
            if fn in ('bfdev_malloc', 'bfdev_zalloc'):
                case(res, f, 'size is zero', [('null', size)], [], NULL)
            elif fn == 'bfdev_free':
                case(res, f, 'block is null', [('null', arg(1))], [], None)
            else:
                case(res, f, 'block is null, size is not', [('null', arg(1)), ('nonnull', arg(2))], 'malloc', 'call')
                case(res, f, 'block is null and size is zero', [('null', arg(1)), ('null', arg(2))], 'malloc0', 'call')
                case(res, f, 'size is zero, block is not null', [('nonnull', arg(1)), ('null', arg(2))], 'free', NULL)
            live = [('nonnull', size)] + ([('nonnull', arg(1))] if fn == 'bfdev_realloc' else [])
            for a in (0, 1):
                A = arg(0) if a else mk('gv', DEF, 0)
                for o in (0, 1):
                    O = ld(A, al['ops']) if o else mk('gv', DEFOPS, 0)
                    for k in (0, 1):
                        S = ld(O, ops[mem])
                        pre = live + [('nonnull' if a else 'null', arg(0)), ('nonnull' if o else 'null', ld(A, al['ops'])), ('nonnull' if k else 'null', S)]
                        case(res, f, 'allocator %s, operations %s, operation %s' % tuple(('absent', 'given')[x] for x in (a, o, k)), pre,
                             expected(fn, S, ld(A, al['pdata']), k), None if fn == 'bfdev_free' else 'call')
    res.need('cases', 35)


def case(res, f, name, pre, calls, ret):
    res.count('cases')
    F = Trace(f, pre).run()
    if not F.exits:
        res.bad('%s:noexit' % f.src, '%s:%d' % (relf(f.file), f.line), 'allocator contract', '%s never returns when %s' % (f.src, name))
    for st, ins, val in F.exits:
        res.count('exits')
        tr = st.ts['tr']
        bad = None
        got = [(c, a) for c, a, i in tr]
        if calls == [] :
            if got: bad = 'calls %s' % sh(F, got)
        elif calls in ('malloc', 'malloc0'):
            if not (got == [] and calls == 'malloc0' and isnull(F, st, val)):
                if not (len(got) == 1 and (got[0][0] == 'bfdev_malloc' and got[0][1][0] is arg(0) and (got[0][1][1] is arg(2)) or calls == 'malloc' and viamalloc(got[0], arg(2)))):
                    bad = 'performs %s instead of a plain allocation of the new size from the same allocator' % sh(F, got)
        elif calls == 'free':
            if not (len(got) == 1 and got[0][0] == 'bfdev_free' and got[0][1] == (arg(0), arg(1)) or len(got) == 1 and viafree(got[0])):
                bad = 'performs %s instead of releasing the block to the same allocator' % sh(F, got)
        else:
            if len(got) != 1 or not any(c == got[0][0] and len(a) <= len(got[0][1]) and all(x is y for x, y in zip(a, got[0][1])) for c, a in calls):
                bad = 'performs %s instead of %s' % (sh(F, got), sh(F, calls[:1]))
        if bad is None and ret is not None:
            if ret is NULL:
                if not isnull(F, st, val): bad = 'returns %s instead of null' % show(val)
            elif ret == 'call':
                if tr and val is not mk('call', tr[-1][2]) and not (isnull(F, st, val) and False): bad = 'does not return the result of the allocation'
                if not tr and not isnull(F, st, val): bad = 'returns %s' % show(val)
        if bad:
            res.bad('%s:%s' % (f.src, name), ins.where, 'allocator contract', 'when %s, %s %s' % (name, f.src, bad))


def viamalloc(c, size): return (c[0] == 'malloc' and c[1] == (size,)) or (isinstance(c[0], tuple) and c[1][0] is size)


def viafree(c): return c[0] == 'free' and c[1][0] is arg(1) or isinstance(c[0], tuple) and c[1][0] is arg(1)


def sh(F, got):
    r = ['%s(%s)' % (c if isinstance(c, str) else show(c[1], F.fn.d and [a[0] for a in F.fn.args]), ', '.join(show(x, [a[0] for a in F.fn.args]) for x in a)) for c, a in got]
    return '; '.join(r) or 'no call'
