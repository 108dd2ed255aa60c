from common import *
from anf import *
RULE = 'each classification is the specified truth function of the character, each conversion the specified byte'
EXPLANATION = 'Every character class predicate (constant-expression and table variants) and conversion is instantiated in a witness unit, compiled, and its result computed as a polynomial of the eight bits of the character (all 32 bits of the argument for the table variants and conversions); the polynomial must be that of the class.'

rng = lambda a, b: set(range(ord(a), ord(b) + 1))
A = {'upper': rng('A', 'Z'), 'lower': rng('a', 'z'), 'digit': rng('0', '9'), 'xdigit': rng('0', '9') | rng('a', 'f') | rng('A', 'F'),
     'cntrl': set(range(32)) | {127}, 'blank': {9, 32}, 'space': {9, 10, 11, 12, 13, 32}, 'ascii': set(range(128))}
A['alpha'] = A['upper'] | A['lower']; A['alnum'] = A['alpha'] | A['digit']
A['graph'] = set(range(33, 127)); A['print'] = A['graph'] | {32}; A['punct'] = A['graph'] - A['alnum']
# the table also classifies the upper half, as ISO 8859-1
up = set(range(192, 223)) - {215}; lo = set(range(223, 256)) - {247}; pu = set(range(161, 192)) | {215, 247}
H = {'upper': up, 'lower': lo, 'punct': pu, 'space': {160}, 'alpha': up | lo, 'alnum': up | lo, 'graph': up | lo | pu, 'print': up | lo | pu | {160}}


def run(ctx, res):
    L = []
    for c in A:
        L.append(('bfdev_is%s_const' % c, 'int w_is%s_const(unsigned char x) { return bfdev_is%s_const(x); }' % (c, c)))
        L.append(('bfdev_is%s_dynamic' % c, 'int w_is%s_dynamic(int x) { return bfdev_is%s_dynamic(x); }' % (c, c)))
        L.append(('bfdev_is%s' % c, 'int w_is%s(int x) { return bfdev_is%s(x); }' % (c, c)))
    for c in ('ascii', 'lower', 'upper'): L.append(('bfdev_to%s' % c, 'int w_to%s(int x) { return bfdev_to%s(x); }' % (c, c)))
    m = ctx.instantiate('ctypew', '#include <bfdev/ctype.h>', L, res)

    def one(name, wide, spec, boolean):
        if 'bfdev_' + name in m.dead: return
        fn = need_fn(m, 'w_' + name)
        D = Dom(); E = Eval(m, D); D.SMALL = 10
        x = D.atom('x', 32 if wide else 8)
        ext = []
        E.externals['*'] = lambda s, ins, c, args, mem: ext.append((c, ins)) or D.atom('ext%d' % len(ext), 32)
        try:
            # ctype of the C library: reaching it makes the result depend on the locale
            E.externals['__ctype_b_loc'] = lambda s, ins, args, mem: ext.append(('the C library classification', ins)) or P(('obj', 'loc'), 0)
            try: r = E.run(fn, [x if wide else x])
            except Stuck:
                if not ext: raise
                r = None
            if ext:
                res.bad('bfdev_%s:libc' % name, 'include/bfdev/ctype.h', 'no C library classification', 'bfdev_%s hands its argument to %s, which is undefined outside the range of unsigned char' % (name, ext[0][0]))
                return
            if r is None: raise Stuck('undefined')
            if boolean: r = (D.cmp('ne', r, D.const(0, len(r))),)
            want = D.pointwise(lambda c: spec(c), [x[:8]], len(r))
            d = D.differ(r, want)
        except Exception as e:
            res.undecided(name, e); return
        res.count('functions'); res.count('instructions', E.instrs); res.count('characters_covered', 256)
        if d:
            bad = [c for c in range(256) if D.at(pt(D, c), r) != spec(c)]
            res.bad('bfdev_%s' % name, 'include/bfdev/ctype.h, src/libc/ctype.c', 'character class', 'bfdev_%s answers differently from its class for %s' % (name, ', '.join(hex(c) for c in bad[:8]) or 'an argument outside 0..255'))
        res.sample('bfdev_%s over %s' % (name, 'every int' if wide else 'every unsigned char'))

    def pt(D, c):
        return {'rnd': lambda key, bit: c >> bit & 1 if key == 'x' else 0, 'atoms': {}}
    for c in A:
        one('is%s_const' % c, False, lambda v, c=c: int(v in A[c]), True)
        for f in ('is%s_dynamic', 'is%s'):
            one(f % c, True, lambda v, c=c: int(v in A[c] or v in H.get(c, ())), True)
    one('toascii', True, lambda v: v & 127, False)
    one('tolower', True, lambda v: v + 32 if v in A['upper'] else v, False)
    one('toupper', True, lambda v: v - 32 if v in A['lower'] else v, False)
    res.need('functions', 36)
