import itertools
from common import *
from lin import *
from par import par
RULE = 'the result is the exact integer, normalised and with its sign, for every operand of that many words, also when an operand is the destination'
EXPLANATION = 'Sums, differences, products, quotients and remainders by a word, shifts, bit operations and comparisons are followed over the compiled IR with operands of every length up to a bound and open words; a word is a polynomial over unknowns with linear constraints, carries are unknowns of their own, and the words of the result are compared with the exact integer result as polynomials.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/mpi.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(value, bfdev_mpi_t, value) O(plus, bfdev_mpi_t, plus) O(index, bfdev_array_t, index) O(data, bfdev_array_t, data)
const unsigned long off_size = sizeof(bfdev_mpi_t), off_word = sizeof(BFDEV_MPI_TYPE), off_enomem = BFDEV_ENOMEM, off_eoverflow = BFDEV_EOVERFLOW;
'''
LINES = [('bfdev_mpi_init', 'void w_init(bfdev_mpi_t *m) { bfdev_mpi_init(m, 0); }'), ('bfdev_mpi_length', 'unsigned long w_length(const bfdev_mpi_t *m) { return bfdev_mpi_length(m); }')]
F = 'src/mpi.c'


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


def show(n, sign=True): return ('' if sign else '-') + ('%d words' % n if n != 1 else 'a word') if n else 'nothing'


class Mpi(Lin):
    MAXSTEP = 200000
    def setup(s, K):
        s.K = K
        s.handlers = {'bfdev_dword_generic_udiv': s.udiv}; s.words = {}; s.quots = []
        for n in 'abqrd': s.new(n, K['size'], False); s.do('w_init', P(n))

    def opaque(s, name): return name == 'bfdev_dword_generic_udiv' or super().opaque(name)

    def udiv(s, a, ins):
        q, r, src, div = a
        n0, n1 = form(s.force(s.load(src, 8, ins))), form(s.force(s.load(P(src[1], src[2] + 8), 8, ins))); d = form(div)
        if s.possible(d, None, 0): raise Bad('divides by zero', ins)
        n = add(n0, n1, WORD); ql = s.fresh('q', 0, WORD - 1); rr = s.fresh('r', 0, WORD - 1)
        qh = {} if not s.possible(add(n1, d, -1), 0, None) else s.fresh('q', 0, WORD - 1)
        s.assume(add(d, rr, -1), 1, None); s.assume(add(add(mul(add(ql, qh, WORD), d), rr), n, -1), 0, 0)
        s.quots.append(add(ql, qh, WORD))
        if q != 0: s.store(q, back(ql), 8, ins); s.store(P(q[1], q[2] + 8), back(qh), 8, ins)
        if r != 0: s.store(r, back(rr), 8, ins)

    def number(s, name, n, plus, top=True):
        """an open number of n words with a nonzero top word"""
        s.new('buf' + name, 8 * max(n, 1)); s.ro.add('buf' + name); f = {}
        for i in range(n):
            w = s.limb(name + str(i)); s.put('buf' + name, 8 * i, w, 8); s.words.setdefault(name, []).append(form(w)); f = add(f, form(w), WORD ** i)
            if top and i == n - 1: s.assume(form(w), 1, None)
        v = s.api('import', name, P('buf' + name), n, int(plus))
        if v != 0: return v, None
        f = f if plus else scale(f, -1)
        s.is_('import', name, f); return 0, f

    def api(s, api, *args):
        v = s.do('bfdev_mpi_' + api, *[P(x) if isinstance(x, str) else x for x in args])
        if isl(v): v = s.fixed(v)
        return signed(v, 32) if isinstance(v, int) else v

    def get(s, api, n):
        """the integer a number stands for, and whether it is in normal form"""
        o = s.K['value']; k = s.cell(n, o + s.K['index']); p = s.cell(n, o + s.K['data']); plus = s.cell(n, s.K['plus'], 1)
        if isl(plus): plus = s.fixed(plus)
        if plus not in (0, 1): raise Wrong(api, 'the sign is undefined')
        if not isinstance(k, int) or k > 12: raise Wrong(api, 'the length is %s' % (k,))
        f = {}
        for i in range(k):
            w = s.cell(p[1], p[2] + 8 * i)
            if not (isl(w) or isinstance(w, int)): raise Wrong(api, 'word %d of the result is undefined' % i)
            f = add(f, form(w), WORD ** i)
            if i == k - 1 and s.possible(form(w), None, 0): raise Wrong(api, 'the top word of the result may be zero')
        if not k and not plus: raise Wrong(api, 'the result is a negative zero')
        return f if plus else scale(f, -1)

    def within(s, f, lo=0, hi=0):
        """is f between lo and hi on every point?"""
        return not s.possible(f, hi + 1, None) and not s.possible(f, None, lo - 1)

    def is_(s, api, n, want, lo=0, hi=0):
        got = s.get(api, n)
        d = s.sub(add(want, got, -1))
        if not s.within(d, lo, hi): raise Wrong(api, 'the result is not the exact one')
        return got

    def bits(s, op, a, b):
        A, B = s.words.get(a, []), s.words.get(b, []); f = {}
        for i in range(max(len(A), len(B))):
            x, y = (s.sub(q[i]) if i < len(q) else {} for q in (A, B))
            if not x or not y: z = {} if op == 'and' else x or y
            elif x == y: z = {} if op == 'xor' else x
            elif len(x) == len(y) == 1 and () in x and () in y: z = {(): {'and': x[()] & y[()], 'or': x[()] | y[()], 'xor': x[()] ^ y[()]}[op]}
            else: z = s.word(op, x, y, 64)
            f = add(f, z, WORD ** i)
        return f

    def product(s, A, B):
        """a product of positive numbers is at least each of them, which its monomials alone do not say"""
        if A and B and not s.possible(A, None, 0) and not s.possible(B, None, 0): s.assume(add(add(add(mul(A, B), A, -1), B, -1), {(): 1}), 0, None)

    def quotient(s, sign):
        f = {}
        for i, q in enumerate(reversed(s.quots)): f = add(f, q, WORD ** i)
        return scale(f, sign)

    def exact(s, api, A, qs, V, R):
        if not any(s.within(s.sub(add(add(A, R, -1), mul(s.sub(q), V), -1))) for q in qs): raise Wrong(api, 'the quotient times the divisor and the remainder are not the dividend')

    def end(s, api):
        for n in 'abqrd':
            s.do('bfdev_mpi_release', P(n))
        if s.heap: raise Wrong(api, 'a block is never released')


def run(ctx, res):
    quick = ctx.tier == 'quick'
    mod = ctx.instantiate('w_p42', PRE, LINES, res); lib = ctx.lib(False)
    K = offsets(mod)
    if K['word'] != 8: raise Broken('words are not 64 bits wide')

    def guarded(r, api, label, body):
        total = [0, 0, 0]
        def one(oracle):
            w = Mpi([mod, lib], oracle)
            try: w.setup(K); body(w)
            except (Wrong, Bad) as e:
                if w.unsure: raise Stuck('open: %s' % e)
                raise
            finally: total[0] += 1; total[1] += w.lps
        try:
            for _ in explore(one, 4000): pass
        except Wrong as e: r.bad('mpi ' + e.api, '%s (bfdev_mpi_%s)' % (F, e.api), RULE, 'bfdev_mpi_%s: %s: %s' % (e.api, label, e))
        except Bad as e: r.bad('mpi ' + api, '%s (bfdev_mpi_%s)' % (e.ins.where if e.ins is not None else F, api), RULE, '%s: %s' % (label, e.text))
        except Exception as e:
            if isinstance(e, (KeyError, TypeError, AttributeError)) and DEBUG: raise
            return r.undecided('mpi ' + api, '%s: %s %s' % (label, type(e).__name__, str(e)[:140]))
        r.count('cases'); r.count('paths', total[0]); r.count('linear programs', total[1])

    def two(r, op, na, pa, nb, pb, dest):
        label = '%s of %s and %s into %s' % (op, show(na, pa), show(nb, pb) if dest not in ('both', 'squared') else 'itself', dest)
        def body(w):
            _, A = w.number('a', na, pa); B = A; b = 'a'
            if dest not in ('both', 'squared'): _, B = w.number('b', nb, pb); b = 'b'
            if dest == 'larger': w.number('d', 4, False)
            d = {'first': 'a', 'second': 'b', 'both': 'a'}.get(dest, 'd')
            if w.api(op, d, 'a', b): raise Wrong(op, 'fails')
            A, B = w.sub(A), w.sub(B)
            if op == 'mul': w.product(scale(A, 1 if pa else -1), scale(B, 1 if (pb if b == 'b' else pa) else -1))
            W_ = add(A, B) if op == 'add' else add(A, B, -1) if op == 'sub' else mul(A, B) if op == 'mul' else None
            if W_ is None: W_ = w.bits(op, 'a', b)
            w.is_(op, d, W_)
            if d != 'a': w.is_(op, 'a', A)
            if b == 'b' and d != 'b': w.is_(op, 'b', B)
            w.end(op)
        guarded(r, op, label, body)

    def word(r, op, na, pa, dest, const=None):
        label = '%s of %s%s into %s' % (op, show(na, pa), ' by %d' % const if const is not None else '', dest)
        def body(w):
            _, A = w.number('a', na, pa)
            v = w.limb('v') if const is None else const; V = form(v)
            if dest == 'larger': w.number('d', 4, False); w.number('q', 4, False); w.number('r', 4, False)
            d = 'a' if dest == 'first' else 'd'
            if op in ('divi', 'modi'):
                # the dividend may be the quotient or the remainder
                q, m = ('a', 'r') if dest == 'first' else ('q', 'a') if dest == 'second' else ('q', 'r')
                e = w.api(op, *([q] if op == 'divi' else []), m, 'a', v)
                zero = w.possible(V, 0, 0)
                if e:
                    if e != -K['eoverflow'] or w.possible(V, 1, None): raise Wrong(op, 'answers %s' % e)
                    if w.sub(A): w.is_(op, 'a', A)
                    return
                if zero: raise Wrong(op, 'accepts a divisor of zero')
                A, V = w.sub(A), w.sub(V); R = w.get(op, m); S = 1 if pa else -1
                if not w.within(scale(R, S), 0, WORD) or w.possible(add(scale(R, S), V, -1), 0, None): raise Wrong(op, 'the remainder is not smaller than the divisor or has the wrong sign')
                if op == 'divi': w.exact(op, A, [w.get(op, q)], V, R)
                else: w.exact(op, A, [{}, {(): 1}, {(): -1}, w.quotient(S)], V, R)
                if 'a' not in (q, m) or op == 'modi' and m != 'a': w.is_(op, 'a', A)
                w.end(op); return
            if op in ('shli', 'shri'):
                e = w.api(op, d, 'a', const)
                if e: raise Wrong(op, 'fails')
                A = w.sub(A); S = 1 if pa else -1; M = scale(A, S)
                if op == 'shli': w.is_(op, d, scale(A, 1 << const))
                else:
                    got = scale(w.get(op, d), S)
                    if not w.within(w.sub(add(M, got, -(1 << const))), 0, (1 << const) - 1): raise Wrong(op, 'the result is not the exact one')
            else:
                if w.api(op, d, 'a', v): raise Wrong(op, 'fails')
                A, V = w.sub(A), w.sub(V)
                if op == 'muli': w.product(scale(A, 1 if pa else -1), V)
                w.is_(op, d, add(A, V) if op == 'addi' else add(A, V, -1) if op == 'subi' else mul(A, V))
            if d != 'a': w.is_(op, 'a', A)
            w.end(op)
        guarded(r, op, label, body)

    def compare(r, na, pa, nb, pb, imm):
        api = 'cmpi' if imm else 'cmp'
        def body(w):
            _, A = w.number('a', na, pa)
            if imm: v = w.limb('v'); B = form(v); got = w.api('cmpi', 'a', v)
            else: _, B = w.number('b', nb, pb); got = w.api('cmp', 'a', 'b')
            d = w.sub(add(A, B, -1))
            if got == 0 and not w.within(d) or got > 0 and w.possible(d, None, 0) or got < 0 and w.possible(d, 0, None): raise Wrong(api, 'answers %d' % got)
            w.end(api)
        guarded(r, api, '%s of %s and %s' % (api, show(na, pa), 'a word' if imm else show(nb, pb)), body)

    def bit(r, n, plus, k):
        def body(w):
            _, A = w.number('a', n, plus); S = 1 if plus else -1; M = scale(A, S)
            b = w.low(w.quot(w.words['a'][k // 64], k % 64), 1) if k // 64 < n else {}
            t = w.api('btesti', 'a', k)
            if not w.within(w.sub(add({(): int(t)} if t else {}, b, -1))): raise Wrong('btesti', 'answers %s' % t)
            w.is_('btesti', 'a', A)
            if w.api('bseti', 'a', k): raise Wrong('bseti', 'fails')
            up = add(add(M, {(): 1 << k}), b, -(1 << k)); w.is_('bseti', 'a', scale(w.sub(up), S))
            if w.api('bclri', 'a', k): raise Wrong('bclri', 'fails')
            w.is_('bclri', 'a', scale(w.sub(add(M, b, -(1 << k))), S))
            w.end('bclri')
        guarded(r, 'bseti', 'bit %d of %s' % (k, show(n, plus)), body)

    def sets(r, n, plus, old):
        def body(w):
            if old: w.number('d', old, False)
            _, A = w.number('a', n, plus, False)          # not normalised
            if w.api('set', 'd', 'a'): raise Wrong('set', 'fails')
            w.is_('set', 'd', A); w.is_('set', 'a', A)
            if w.api('set', 'a', 'a'): raise Wrong('set', 'fails')
            w.is_('set', 'a', A)
            sg = w.new('sg', 1); p = w.do('bfdev_mpi_data', P('a'), P('sg')); c = w.cell('sg', 0, 1)
            if c != w.cell('a', K['plus'], 1): raise Wrong('data', 'the sign is wrong')
            k = w.do('w_length', P('a'))
            for i in range(max(k, 1)):
                got = form(w.cell(p[1], p[2] + 8 * i)); want = form(w.cell(w.cell('a', K['value'] + K['data'])[1], 8 * i)) if k else {}
                if got != want and not (not k and got == {(): 0}): raise Wrong('data', 'word %d is wrong' % i)
            v = w.limb('v')
            if w.api('seti', 'd', v): raise Wrong('seti', 'fails')
            w.is_('seti', 'd', w.sub(form(v))); w.end('set')
        guarded(r, 'set', 'import, set and read of %s over %s' % (show(n, plus), show(old)), body)

    N = 3 if quick else 4; R = range(N + 1); J = []
    for op in ('add', 'sub', 'mul'):
        for na, nb in itertools.product(R, R):
            for pa, pb in itertools.product((True, False), repeat=2):
                if not na and not pa or not nb and not pb: continue
                if op == 'mul' and (na * nb > 4 or na * nb > 1 and not pa and not pb): continue
                for dest in ('fresh', 'larger', 'first', 'second') + (('both', 'squared') if na == nb and pa == pb else ()):
                    if op == 'mul' and na * nb == 4 and (dest not in ('fresh', 'both') or not pb) if quick else op == 'mul' and na * nb == 4 and not pb and dest != 'first': continue
                    J.append(lambda r, a=(op, na, pa, nb, pb, dest): two(r, *a))
    for op in ('add', 'sub'):
        for na, pa, nb, pb in ((4, True, 2, True), (2, True, 4, False), (4, False, 2, True), (2, True, 4, True)):
            for dest in ('fresh', 'first', 'second'): J.append(lambda r, a=(op, na, pa, nb, pb, dest): two(r, *a))
    for op in ('and', 'or', 'xor'):
        for na, nb in itertools.product(R, R):
            for dest in ('fresh', 'larger', 'first', 'second') + (('both', 'squared') if na == nb else ()):
                J.append(lambda r, a=(op, na, True, nb, True, dest): two(r, *a))
    for op in ('addi', 'subi', 'muli', 'divi', 'modi'):
        for na in R:
            for pa in (True, False):
                if not na and not pa: continue
                for dest in ('fresh', 'larger', 'first') + (('second',) if op in ('divi', 'modi') else ()): J.append(lambda r, a=(op, na, pa, dest): word(r, *a))
    for op in ('shli', 'shri'):
        for na in R:
            for pa in (True, False):
                if not na and not pa: continue
                for dest in ('fresh', 'larger', 'first'):
                    for k in (0, 1, 7, 63, 64, 65, 128, 130) if quick else range(0, 195): J.append(lambda r, a=(op, na, pa, dest, k): word(r, *a))
    for na, nb in itertools.product(R, R):
        for pa, pb in itertools.product((True, False), repeat=2):
            if not na and not pa or not nb and not pb: continue
            J.append(lambda r, a=(na, pa, nb, pb, False): compare(r, *a))
            if not nb: J.append(lambda r, a=(na, pa, nb, pb, True): compare(r, *a))
    for n in R:
        for plus in (True, False):
            if not n and not plus: continue
            for k in (0, 5, 63, 64, 100, 127, 128) if quick else range(0, 66 * N): J.append(lambda r, a=(n, plus, k): bit(r, *a))
            for old in (0, 4): J.append(lambda r, a=(n, plus, old): sets(r, *a))
    G = 48
    def group(r, i):
        for j in range(i, len(J), G): J[j](r)
    if DEBUG: return J
    par(res, [lambda r, i=i: group(r, i) for i in range(G)], 8)
    res.need('cases', 300)


DEBUG = False
