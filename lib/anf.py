"""Bit-level dataflow: every bit of every value is kept as a polynomial over GF(2) in algebraic normal form.

The normal form is canonical, so two computations agree for all inputs exactly when their polynomials are
identical: no values are tried and no solver is asked.  Sums, products and comparisons of wide values are
kept as canonical atoms (sums flattened, commutative, modulo 2^w; comparisons normalised), which makes the
word-level code of digests and hashes comparable with a specification written in the same domain.
Branches on unknown conditions are joined at their postdominator; loops whose trip count is known are
followed, any other loop is analysed one iteration at a time by the caller."""
from build import AnalysisBroken

ZERO = frozenset(); ONE = frozenset({()})
CAP = 6000


class Blowup(Exception): pass
class Stuck(Exception): pass
class Undefined(Stuck): pass
class Endless(Stuck): pass


def mul(a, b):
    if not a or not b: return ZERO
    if a == ONE: return b
    if b == ONE or a is b or a == b: return a
    if len(a) * len(b) > 400000: raise Blowup()
    r = set()
    for x in a:
        sx = set(x)
        for y in b:
            m = tuple(sorted(sx.union(y))) if y else x
            if m in r: r.remove(m)
            else: r.add(m)
    if len(r) > CAP: raise Blowup()
    return frozenset(r)


def por(a, b): return a ^ b ^ mul(a, b)
def pnot(a): return a ^ ONE


def support(bits):
    s = set()
    for p in bits:
        for m in p: s.update(m)
    return s


class Dom:
    """atoms and word operations"""
    SMALL = 10

    def __init__(s):
        s.key2id = {}; s.keys = []; s.sums = {}; s.exact = {}; s.tabs = {}; s.noatoms = False

    def var(s, key):
        i = s.key2id.get(key)
        if i is None:
            i = s.key2id[key] = len(s.keys); s.keys.append(key)
        return frozenset({(i,)})

    def atom(s, key, w):
        return tuple(s.var((key, i)) for i in range(w))

    _consts = {}; _cid = {}

    def const(s, v, w):
        r = s._consts.get((v, w))
        if r is None:
            if len(s._consts) > 100000: s._cid.clear(); s._consts.clear()
            r = s._consts[v, w] = tuple([ONE if v >> i & 1 else ZERO for i in range(w)])
            s._cid[id(r)] = v & (1 << w) - 1
        return r

    def cval(s, a):
        r = s._cid.get(id(a))
        if r is not None: return r
        v = 0
        for i, p in enumerate(a):
            if p == ONE: v |= 1 << i
            elif p: return None
        return v

    # ---- bitwise
    def band(s, a, b): return tuple(map(mul, a, b))
    def bor(s, a, b): return tuple(map(por, a, b))
    def bxor(s, a, b): return tuple(x ^ y for x, y in zip(a, b))
    def bnot(s, a): return tuple(map(pnot, a))
    def shl(s, a, n): return tuple((ZERO,) * min(n, len(a)) + a[:len(a) - n]) if n < len(a) else (ZERO,) * len(a)
    def lshr(s, a, n): return tuple(a[n:] + (ZERO,) * min(n, len(a)))
    def ashr(s, a, n): return tuple(a[n:] + (a[-1],) * min(n, len(a)))
    def rotl(s, a, n): n %= len(a); return a[len(a) - n:] + a[:len(a) - n]
    def bswap(s, a): return tuple(p for k in range(len(a) // 8 - 1, -1, -1) for p in a[8 * k:8 * k + 8])
    def zext(s, a, w):
        v = s._cid.get(id(a))
        return s.const(v, w) if v is not None else a + (ZERO,) * (w - len(a))
    def sext(s, a, w): return a + (a[-1],) * (w - len(a))

    def trunc(s, a, w):
        if w < len(a):
            t = s.sums.get(a) or (s.exact.get(s.trim(a)) if any(a[w:]) else None)
            # a sum is determined modulo the narrower width
            if t is not None: return s.mksum([(k, s.trunc(v, w) if w < len(v) else s.zext(v, w)) for k, v in t[0]], t[1], w)
        return a[:w]

    # ---- pointwise operations on few variables
    def table(s, vs, bits):
        """truth tables of the bits over the ordered variables vs"""
        n = len(vs); ix = {v: i for i, v in enumerate(vs)}
        out = []
        for p in bits:
            c = bytearray(1 << n)
            for m in p:
                k = 0
                for v in m: k |= 1 << ix[v]
                c[k] ^= 1
            for i in range(n):
                st = 1 << i
                for base in range(0, 1 << n, st * 2):
                    for j in range(base, base + st): c[j + st] ^= c[j]
            out.append(c)
        return out

    def untable(s, vs, tabs):
        n = len(vs); out = []
        for t in tabs:
            c = bytearray(t)
            for i in range(n):
                st = 1 << i
                for base in range(0, 1 << n, st * 2):
                    for j in range(base, base + st): c[j + st] ^= c[j]
            mons = []
            for k in range(1 << n):
                if c[k]: mons.append(tuple(vs[i] for i in range(n) if k >> i & 1))
            out.append(frozenset(mons))
        return tuple(out)

    def pointwise(s, f, args, w):
        """f over the concrete values of all assignments, when the arguments depend on few bits; else None"""
        vs = set()
        for a in args: vs |= support(a)
        if len(vs) > s.SMALL: return None
        vs = sorted(vs); tabs = [s.table(vs, a) for a in args]
        out = [bytearray(1 << len(vs)) for _ in range(w)]
        for k in range(1 << len(vs)):
            r = f(*[sum(t[k] << i for i, t in enumerate(tb)) for tb in tabs])
            for i in range(w): out[i][k] = r >> i & 1
        return s.untable(vs, out)

    # ---- sums
    def expand(s, a):
        t = s.sums.get(a)
        if t is not None: return t
        c = s.cval(a)
        if c is not None: return [], c
        return [(1, a)], 0

    def mksum(s, terms, c, w):
        m = (1 << w) - 1
        d = {}
        for k, v in terms:
            k &= m
            cv = s.cval(v)
            if cv is not None: c += k * cv; continue
            t = s.sums.get(v)
            if t is None:
                t = s.exact.get(s.trim(v))
                if t is not None: t = [(k2, s.zext(v2, w)[:w]) for k2, v2 in t[0]], t[1]
            if t is not None:
                c += k * t[1]
                for k2, v2 in t[0]: d[v2] = (d.get(v2, 0) + k * k2) & m
            else: d[v] = (d.get(v, 0) + k) & m
        c &= m
        d = {v: k for v, k in d.items() if k}
        # merge disjoint addends
        ch = True
        while ch and len(d) > 1:
            ch = False
            vs = [v for v, k in d.items() if k == 1]
            for i in range(len(vs)):
                for j in range(i):
                    try:
                        if all(not mul(x, y) for x, y in zip(vs[i], vs[j])):
                            del d[vs[i]]; del d[vs[j]]
                            n = s.bxor(vs[i], vs[j]); d[n] = (d.get(n, 0) + 1) & m
                            if not d[n]: del d[n]
                            ch = True; break
                    except Blowup: pass
                if ch: break
        if not d: return s.const(c, w)
        if len(d) == 1:
            (v, k), = d.items()
            if c == 0 and k & (k - 1) == 0: return s.shl(v, k.bit_length() - 1)
            cb = s.const(c, w)
            if k & (k - 1) == 0:
                v2 = s.shl(v, k.bit_length() - 1)
                if all(not (x and y) for x, y in zip(v2, cb)): return s.bxor(v2, cb)
        terms = sorted(((k, v) for v, k in d.items()), key=lambda t: (t[0], s.vkey(t[1])))
        if len(terms) == 1 and c and terms[0][0] == 1:
            # a constant is added exactly where no carry depends on an open bit
            out = []; cy = ZERO
            for x, y in zip(terms[0][1], s.const(c, w)):
                if cy is None: break
                out.append(x ^ y ^ cy)
                if y == cy: pass
                elif x == ZERO or x == ONE: cy = x
                else: cy = None
            if len(out) == w: return tuple(out)
        if any(s.keys[i][0][0] in ('sum', 'xsum') for _, v in terms for i in support(v)): r = None
        else: r = s.pointwise(lambda *a: (sum(k * x for (k, _), x in zip(terms, a)) + c) & m, [v for _, v in terms], w)
        if r is not None: return r
        if c == 0 and len(terms) > 1 and all(k == 1 for k, v in terms):
            # carry-free fields are summed independently
            z = 0
            while z < w and not any(v[z] for _, v in terms): z += 1
            if z: return s.reg((ZERO,) * z + s.mksum([(1, v[z:]) for _, v in terms], 0, w - z), terms)
            mx = [s.maxv(v) for k, v in terms]
            for k in range(1, w):
                if sum(x & (1 << k) - 1 for x in mx) < 1 << k and any(x & (1 << k) - 1 for x in mx) and any(x >> k for x in mx):
                    return s.reg(s.mksum([(1, v[:k]) for _, v in terms], 0, k) + s.mksum([(1, v[k:]) for _, v in terms], 0, w - k), terms)
        if len(terms) <= 3 and c == 0 and w > 4 and all(k == 1 and not any(v[1:]) for k, v in terms):
            try:
                r = terms[0][1]
                for _, v in terms[1:]:
                    out = []; cy = ZERO
                    for x, y in zip(r, v):
                        out.append(x ^ y ^ cy); cy = mul(x, y) ^ mul(cy, x ^ y)
                    r = tuple(out)
                return r
            except Blowup: pass
        if w == 1:
            r = ZERO
            for k, v in terms: r ^= v[0]
            return (r ^ (ONE if c & 1 else ZERO),)
        top = c + sum(k * s.maxv(v) for k, v in terms)
        if top <= m:
            tt = [(k, s.trim(v)) for k, v in terms]
            a = s.atom(('xsum', c, tuple(tt)), top.bit_length())
            s.exact[a] = (tt, c, top)
            return s.zext(a, w)
        key = ('sum', w, c, tuple((k, v) for k, v in terms))
        a = s.atom(key, w)
        s.sums[a] = (terms, c)
        return a

    def reg(s, a, terms):
        """a sum computed field by field remains expandable"""
        if a not in s.sums: s.sums[a] = (terms, 0)
        return a

    def trim(s, v):
        n = len(v)
        while n and not v[n - 1]: n -= 1
        return v[:n]

    def maxv(s, v):
        x = s.exact.get(s.trim(v))
        return x[2] if x else sum(1 << i for i, p in enumerate(v) if p)

    def vkey(s, v):
        return tuple(tuple(sorted(p)) for p in v)

    def add(s, a, b):
        x, y = s.cval(a), s.cval(b)
        if x is not None and y is not None: return s.const((x + y) & (1 << len(a)) - 1, len(a))
        return s.mksum([(1, a), (1, b)], 0, len(a))

    def sub(s, a, b):
        x, y = s.cval(a), s.cval(b)
        if x is not None and y is not None: return s.const((x - y) & (1 << len(a)) - 1, len(a))
        return s.mksum([(1, a), (-1, b)], 0, len(a))

    def mulw(s, a, b):
        w = len(a)
        for x, y in ((a, b), (b, a)):
            c = s.cval(x)
            if c is not None: return s.mksum([(c, y)], 0, w)
        r = s.pointwise(lambda x, y: x * y & (1 << w) - 1, [a, b], w)
        if r is not None: return r
        return s.opaque('mul', sorted([a, b], key=s.vkey), w)

    def opaque(s, name, args, w):
        if s.noatoms: raise Stuck('no exact form for %s' % name)
        return s.atom((name,) + tuple(args), w)

    # ---- refutation: evaluate two forms at a point (atoms are functions of leaf variables)
    def at(s, pt, bits):
        """value of a bit tuple; pt: {var id: 0/1}, filled in on demand by pt['rnd']"""
        return sum(s.bitat(pt, p) << i for i, p in enumerate(bits))

    def bitat(s, pt, poly):
        r = 0
        for mon in poly:
            v = 1
            for i in mon:
                if not s.varat(pt, i): v = 0; break
            r ^= v
        return r

    def varat(s, pt, i):
        if i in pt: return pt[i]
        key, bit = s.keys[i]
        v = s.atomat(pt, key)
        if v is None: r = pt['rnd'](key, bit)
        else: r = v >> bit & 1
        pt[i] = r
        return r

    def atomat(s, pt, key):
        """value of a derived atom; None for a leaf"""
        if not isinstance(key, tuple) or key[0] in ('m', 'addr', 'ext'): return None
        c = pt['atoms'].get(key)
        if c is not None: return c
        n = key[0]; A = lambda v: s.at(pt, v)
        sg = lambda v, w: v - (1 << w) if v >> (w - 1) else v
        if n == 'sum': r = (key[2] + sum(k * A(v) for k, v in key[3])) & (1 << key[1]) - 1
        elif n == 'xsum': r = key[1] + sum(k * A(v) for k, v in key[2])
        elif n == 'mul': r = A(key[1]) * A(key[2]) & (1 << len(key[1])) - 1
        elif n == 'zero': r = int(not any(s.bitat(pt, p) for p in key[1]))
        elif n == 'ult': r = int(A(key[1]) < A(key[2]))
        elif n == 'slt': r = int(sg(A(key[1]), len(key[1])) < sg(A(key[2]), len(key[2])))
        elif n in ('shl', 'lshr', 'ashr'):
            a, b, w = A(key[1]), A(key[2]), len(key[1])
            r = 0 if b >= w else a << b & (1 << w) - 1 if n == 'shl' else a >> b if n == 'lshr' else sg(a, w) >> b & (1 << w) - 1
        elif n in ('udiv', 'urem'):
            a, b = A(key[1]), A(key[2]); r = (a // b if n == 'udiv' else a % b) if b else 0
        elif n in ('sdiv', 'srem'):
            w = len(key[1]); a, b = sg(A(key[1]), w), sg(A(key[2]), w)
            q = 0 if not b else abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            r = (q if n == 'sdiv' else a - q * b) & (1 << w) - 1
        elif n == 'ctpop': r = bin(A(key[1])).count('1')
        elif n == 'ctlz': r = len(key[1]) - A(key[1]).bit_length()
        elif n == 'cttz':
            a = A(key[1]); r = (a & -a).bit_length() - 1 if a else len(key[1])
        elif n == 'sel':
            off = A(key[2]) if not isinstance(key[2], int) else key[2]
            t = s.tabs.get(key[1])
            if t is not None and off + key[3] <= len(t): return int.from_bytes(t[off:off + key[3]], 'little')
            r = sum(pt['rnd'](('m', key[1], off + k // 8), k % 8) << k for k in range(8 * key[3]))
        else: return None
        pt['atoms'][key] = r
        return r

    def points(s, n=96):
        import random
        for k in range(n):
            memo = {}
            R = random.Random(k)
            dens = (0.5, 0.5, 0.1, 0.9, 0.02)[k % 5] if k > 1 else float(k)
            def rnd(key, bit, memo=memo, R=R, dens=dens):
                if (key, bit) not in memo: memo[key, bit] = int(R.random() < dens)
                return memo[key, bit]
            yield {'rnd': rnd, 'atoms': {}}

    def differ(s, a, b, under=None):
        """None: identical for every input; a description of the first difference otherwise.
        Different forms over leaf variables differ for some input; forms over derived atoms are
        evaluated at points to confirm the difference, and Stuck is raised when none is found."""
        if a == b: return None
        if a is None or b is None: return 'the result is undefined'
        if len(a) != len(b): return 'the width is not the specified one'
        d = [i for i in range(len(a)) if a[i] != b[i]]
        leaf = lambda v: not isinstance(s.keys[v][0], tuple) or s.keys[v][0][0] in ('m', 'addr', 'ext')
        if under is None and all(leaf(v) for v in support([a[d[0]] ^ b[d[0]]])): return 'bit %d is not the specified one' % d[0]
        for pt in s.points():
            if under is not None and not s.bitat(pt, under): continue
            for i in d:
                if s.bitat(pt, a[i]) != s.bitat(pt, b[i]): return 'bit %d is not the specified one' % i
        raise Stuck('the two forms are different expressions that agree at every point evaluated')

    def cmp(s, p, a, b):
        if p in ('ne', 'uge', 'sge', 'ule', 'sle'):
            return pnot(s.cmp({'ne': 'eq', 'uge': 'ult', 'sge': 'slt', 'ule': 'ugt', 'sle': 'sgt'}[p], a, b))
        if p in ('ugt', 'sgt'): return s.cmp(p[0] + 'lt', b, a)
        w = len(a)
        ca, cb = s.cval(a), s.cval(b)
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        f = {'eq': lambda x, y: x == y, 'ult': lambda x, y: x < y, 'slt': lambda x, y: sg(x) < sg(y)}[p]
        if ca is not None and cb is not None: return ONE if f(ca, cb) else ZERO
        if a == b: return ONE if p == 'eq' else ZERO
        if p != 'eq':
            # the first bits that are not the same decide when they are constants
            i = w - 1
            while a[i] == b[i]: i -= 1
            if (a[i] ^ b[i]) == ONE and (a[i] in (ONE, ZERO)): return ONE if (a[i] == ZERO) != (p == 'slt' and i == w - 1) else ZERO
            if i < w - 1: return s.cmp('ult', a[:i + 1], b[:i + 1])
        if p == 'slt' and cb == 0: return a[-1]
        if p == 'ult' and cb == 0: return ZERO
        if p == 'ult' and cb == 1: return s.cmp('eq', a, s.const(0, w))
        if p == 'ult' and ca == 0: return pnot(s.cmp('eq', b, s.const(0, w)))
        # unsigned against a power of two: the high bits are zero
        if p == 'ult' and cb is not None and cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            return s.cmp('eq', a[k:], s.const(0, w - k))
        if p == 'ult' and ca is not None and (ca + 1) & ca == 0:
            k = (ca + 1).bit_length() - 1
            return pnot(s.cmp('eq', b[k:], s.const(0, w - k)))
        r = s.pointwise(lambda x, y: int(f(x, y)), [a, b], 1)
        if r is not None: return r[0]
        if p == 'eq':
            d = s.bxor(a, b)
            d = [x for x in d if x]
            if any(x == ONE for x in d): return ZERO
            if len(d) == 1: return pnot(d[0])
            if len(d) <= 6 and all(len(x) <= 3 for x in d):
                q = ONE
                for x in d: q = mul(q, pnot(x))
                return q
            dd = tuple(sorted(set(d), key=lambda q: tuple(sorted(q))))
            if len(dd) == 1: return pnot(dd[0])
            return s.opaque('zero', [dd], 1)[0]
        return s.opaque(p, [a, b], 1)[0]

    def ite(s, c, a, b):
        if c == ONE: return a
        if c == ZERO: return b
        if a == b: return a
        return tuple(mul(c, x ^ y) ^ y if x != y else x for x, y in zip(a, b))

    def lookup(s, vals, w, idx):
        """element of a constant table selected by the bits of idx"""
        free = [i for i, p in enumerate(idx) if p not in (ZERO, ONE)]
        base = sum(1 << i for i, p in enumerate(idx) if p == ONE)
        n = len(free)
        if n > 12: return None
        if n == 0:
            return s.const(vals[base], w) if base < len(vals) else None
        if any(len(idx[i]) > 1 for i in free) and len(support(idx)) <= 10:
            r = s.pointwise(lambda v: vals[v] if v < len(vals) else 0, [idx], w)
            if r is not None: return r
        # Moebius transform of the table over the free index bits
        ids = []
        for k in range(1 << n):
            j = base
            for b in range(n):
                if k >> b & 1: j |= 1 << free[b]
            ids.append(vals[j] if j < len(vals) else None)
        if any(v is None for v in ids):
            ids = [0 if v is None else v for v in ids]   # unreachable elements are excluded by the caller's range check
        c = list(ids)
        for i in range(n):
            st = 1 << i
            for b in range(0, 1 << n, st * 2):
                for j in range(b, b + st): c[j + st] ^= c[j]
        prods = {0: ONE}
        out = [set() for _ in range(w)]
        for k in range(1 << n):
            if not c[k]: continue
            p = prods.get(k)
            if p is None:
                p = ONE
                for b in range(n):
                    if k >> b & 1: p = mul(p, idx[free[b]])
                prods[k] = p
            for i in range(w):
                if c[k] >> i & 1: out[i] ^= p
        return tuple(frozenset(x) for x in out)


class ConstDom(Dom):
    """the same domain with every leaf replaced by a constant: used to refute an equality cheaply before it is proved"""
    def __init__(s, seed=0):
        super().__init__(); s.seed = seed

    def atom(s, key, w):
        import zlib
        if isinstance(key, tuple) and key[0] not in ('m', 'addr', 'ext'): return super().atom(key, w)
        r = ()
        for i in range(0, w, 8): r += s.const(zlib.crc32(repr((key, i, s.seed)).encode()) >> 9 & 255, 8)
        return r[:w]


def width(t): return int(t[1:]) if t and t[0] == 'i' else 64 if t == 'ptr' else None


class P:
    """pointer: base object and offset (int, or 64 bit value)"""
    __slots__ = ('base', 'off')
    def __init__(s, base, off): s.base = base; s.off = off
    def __eq__(s, o): return isinstance(o, P) and s.base == o.base and s.off == o.off
    def __hash__(s): return hash((s.base, s.off))
    def __repr__(s): return 'P(%s+%s)' % (s.base, s.off if isinstance(s.off, int) else '?')


class Eval:
    MAXSTEP = 60000

    def __init__(s, mod, dom=None):
        s.mod = mod; s.D = dom or Dom(); s.events = []; s.steps = 0; s.nalloc = 0; s.tables = {}; s.bounds = []
        s.externals = {}; s.align = {}; s.depth = 0; s.reads = set(); s.writes = set(); s.instrs = 0; s.nofork = True; s.asize = {}

    # ---- values
    def value(s, fn, env, ref, w=None):
        D = s.D
        if isinstance(ref, list):
            k = ref[0]
            if k == 'c': return D.const(ref[1] & (1 << ref[2]) - 1, ref[2])
            if k == 'n': return D.const(0, 64)
            if k == 'g': return P(('g', ref[1]), ref[2] if len(ref) > 2 else 0)
            if k == 'f': return P(('f', ref[1]), 0)
            if k in ('u', 'undef', 'p', 'md'): return None
            raise Stuck('operand %s' % (ref,))
        return env[ref]

    def asint(s, v):
        if isinstance(v, P):
            a = s.D.atom(('addr', v.base), 64)
            k = s.align.get(v.base, 0)
            a = (ZERO,) * k + a[k:]
            o = s.D.const(v.off & (1 << 64) - 1, 64) if isinstance(v.off, int) else v.off
            return s.D.add(a, o)
        return v

    # ---- memory
    def byte(s, mem, base, off):
        k = (base, off)
        if k in mem: return mem[k]
        if base[0] == 'g':
            g = s.mod.globals.get(base[1])
            if g is not None and g.get('const') and 'init' in g:
                t = s.tab(base[1])
                if t is not None and 0 <= off < len(t): return s.D.const(t[off], 8)
        if base[0] == 'al': return None
        if ('sym', base) in mem: raise Stuck('read of %s after a write at an unknown offset' % (base,))
        return s.D.atom(('m', base, off), 8)

    def tab(s, name):
        """bytes of a constant global without pointers"""
        if name not in s.tables:
            from flow import flat_init
            g = s.mod.globals[name]
            b = bytearray(g['size']); ok = True
            for o, v in flat_init(g['init']):
                if v[0] != 'c': ok = False; break
                n = v[2] // 8 if v[2] >= 8 else 1
                b[o:o + n] = (v[1] & (1 << 8 * n) - 1).to_bytes(n, 'little')
            s.tables[name] = bytes(b) if ok else None
        return s.tables[name]

    def load(s, mem, p, n, ins):
        D = s.D
        if not isinstance(p, P): raise Stuck('load through a computed address at %s' % ins.where)
        if isinstance(p.off, int):
            out = []
            for i in range(n):
                b = s.byte(mem, p.base, p.off + i)
                if b is None: return None
                out += b
            s.reads.add((p.base, p.off, n))
            return tuple(out)
        if p.base[0] == 'g':
            t = s.tab(p.base[1])
            if t is not None and s.mod.globals[p.base[1]].get('const'):
                lo = p.off
                z = (n - 1).bit_length() if n > 1 else 0
                if any(lo[:z]): raise Stuck('misaligned table access at %s' % ins.where)
                idx = lo[z:]
                vals = [int.from_bytes(t[i:i + n], 'little') for i in range(0, len(t) - n + 1, n)]
                # range: which element indices can occur
                top = max((i for i, x in enumerate(idx) if x), default=-1)
                r = D.lookup(vals, 8 * n, idx)
                if r is None:
                    D.tabs[p.base] = t
                    r = D.atom(('sel', p.base, p.off, n), 8 * n)
                if (1 << (top + 1)) > len(vals): s.bounds.append((ONE, ins, p.base[1], idx, len(vals)))
                return r
        if any(k[0] == p.base for k in mem if k[0] != 'sym') or ('sym', p.base) in mem:
            raise Stuck('read at an unknown offset of written object at %s' % ins.where)
        return D.atom(('sel', p.base, p.off, n), 8 * n)

    def store(s, mem, p, v, n, ins):
        if not isinstance(p, P): raise Stuck('store through a computed address at %s' % ins.where)
        if not isinstance(p.off, int): raise Stuck('store at an unknown offset at %s' % ins.where)
        s.writes.add((p.base, p.off, n))
        if isinstance(v, P):
            for i in range(n): mem[(p.base, p.off + i)] = None
            mem[(p.base, p.off, 'p')] = v
            return
        for i in range(n):
            mem[(p.base, p.off + i)] = v[8 * i:8 * i + 8] if v is not None else None
        mem.pop((p.base, p.off, 'p'), None)

    # ---- control
    def ipdom(s, fn):
        if hasattr(fn, '_ipd'): return fn._ipd
        n = len(fn.blocks); succ = {b: list(fn.succ[b]) or ['X'] for b in fn.rpo}
        # an 'unreachable' end does not count as a join
        for b in fn.rpo:
            if fn.blocks[b][-1].o == 'unreachable': succ[b] = []
        alln = set(fn.rpo) | {'X'}
        pd = {b: set(alln) for b in fn.rpo}; pd['X'] = {'X'}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.rpo):
                if not succ[b]: continue
                nw = set.intersection(*[pd[x] for x in succ[b]]) | {b}
                if nw != pd[b]: pd[b] = nw; ch = True
        ip = {}
        for b in fn.rpo:
            c = pd[b] - {b}
            ip[b] = None
            for x in c:
                if pd[x] == c: ip[b] = x; break
        fn._ipd = ip
        return ip

    def run(s, fn, args, mem=None):
        """result value of a call, memory updated in place"""
        env = {i: a for i, a in enumerate(args)}
        mem = {} if mem is None else mem
        r = s.walk(fn, 0, None, env, mem, stop=('X',))
        if r is None: raise Stuck('%s does not return' % fn.src)
        return r[1]

    def region(s, fn, block, pred, env, mem, stop, stay=None):
        return s.walk(fn, block, pred, env, mem, stop, stay)

    def walk(s, fn, b, pred, env, mem, stop, stay=None):
        """follow from block b until a block of stop (phis of that block not evaluated).
        returns (pred, retval, block); env and mem are updated in place; None: does not get there"""
        D = s.D
        while True:
            if b in stop and pred is not None: return (pred, None, b)
            s.steps += 1
            if s.steps > s.MAXSTEP: raise Endless('no bound on the walk through %s' % fn.src)
            s.phis(fn, b, pred, env)
            for x in fn.blocks[b]:
                if x.o == 'phi': continue
                if x.o in ('br', 'switch', 'ret', 'unreachable'): break
                s.step(fn, x, env, mem)
            t = x
            if t.o == 'ret':
                return (b, s.value(fn, env, t.a[0]) if t.a else None, 'X')
            if t.o == 'unreachable': return None
            if t.o == 'switch':
                v = s.asint(s.value(fn, env, t.a[0])); cv = D.cval(v)
                if cv is None:
                    r = s.switch(fn, b, t, v, env, mem, stop, stay)
                    if r is None: return None
                    if r[2] in stop or r[2] == 'X': return r
                    pred, _, b = r; s.joined = True
                    s.resume(env, b, r); pred = ('joined', b)
                    continue
                nb = t.d['def']
                for (_, c, _), tg in t.d['cases']:
                    if c & (1 << len(v)) - 1 == cv: nb = tg
                pred, b = b, nb
                continue
            ss = t.d['s']
            if not t.a: pred, b = b, ss[0]; continue
            if stay is not None:
                ins = [y for y in ss if y in stay]
                if len(ins) == 1 and len(set(ss)) == 2: pred, b = b, ins[0]; continue
            cv = s.value(fn, env, t.a[0])
            c = cv[0] if cv is not None else None
            if c is None: raise Undefined('branch on an undefined value at %s' % t.where)
            if c == ONE: pred, b = b, ss[0]; continue
            if c == ZERO: pred, b = b, ss[1]; continue
            r = s.fork(fn, b, [(c, ss[0]), (pnot(c), ss[1])], env, mem, stop, stay)
            if r is None: return None
            if r[2] in stop or r[2] == 'X': return r
            pred, b = r[0], r[2]

    def switch(s, fn, b, t, v, env, mem, stop, stay):
        D = s.D; rest = ONE; br = {}
        for (_, c, _), tg in t.d['cases']:
            e = D.cmp('eq', v, D.const(c & (1 << len(v)) - 1, len(v)))
            br[tg] = por(br.get(tg, ZERO), e); rest = mul(rest, pnot(e))
        br[t.d['def']] = por(br.get(t.d['def'], ZERO), rest)
        return s.fork(fn, b, [(c, tg) for tg, c in br.items() if c], env, mem, stop, stay)

    def fork(s, fn, b, arms, env, mem, stop, stay):
        """evaluate the arms up to the postdominator and join"""
        D = s.D; s.depth += 1; s.nofork = False
        if s.depth > 150: raise Stuck('no bound on the branches of %s' % fn.src)
        try: return s.fork1(fn, b, arms, env, mem, stop, stay)
        finally: s.depth -= 1

    def fork1(s, fn, b, arms, env, mem, stop, stay):
        D = s.D
        j = s.ipdom(fn)[b]
        st = set(stop) | ({j} if j is not None else set())
        outs = []
        for c, tg in arms:
            e = dict(env); m = dict(mem)
            ev0 = len(s.events); bd0 = len(s.bounds)
            r = s.walk(fn, tg, b, e, m, st, stay)
            for k in range(ev0, len(s.events)):
                s.events[k] = (mul(c, s.events[k][0]),) + s.events[k][1:]
            for k in range(bd0, len(s.bounds)): s.bounds[k] = (mul(c, s.bounds[k][0]),) + s.bounds[k][1:]
            if r is None: continue
            if r[2] != 'X': s.phis(fn, r[2], r[0], e)
            outs.append((c, r, e, m))
        if not outs: return None
        if len({o[1][2] for o in outs}) != 1: raise Stuck('arms of %s leave to different places' % fn.blocks[b][-1].where)
        c, r, e, m = outs[0]
        ret = r[1]
        for c2, r2, e2, m2 in outs[1:]:
            # value of a later arm where its condition holds
            ret = s.join(c2, r2[1], ret)
            ne = {}
            for k in e.keys() & e2.keys():
                ne[k] = s.join(c2, e2[k], e[k])
            e = ne
            nm = {}
            for k in m.keys() | m2.keys():
                if len(k) == 3 and k[2] == 'p':
                    if m.get(k) == m2.get(k): nm[k] = m.get(k)
                    continue
                x = m[k] if k in m else s.byte(m, *k)
                y = m2[k] if k in m2 else s.byte(m2, *k)
                nm[k] = s.join(c2, y, x)
            m = nm
        env.clear(); env.update(e); mem.clear(); mem.update(m)
        return (('joined', r[2]), ret, r[2])

    def resume(s, env, b, r): pass

    def join(s, c, a, b):
        if a is b or a == b: return a
        if a is None or b is None: return None
        if isinstance(a, P) and isinstance(b, P) and a.base == b.base:
            w = [s.D.const(x.off & (1 << 64) - 1, 64) if isinstance(x.off, int) else x.off for x in (a, b)]
            return P(a.base, s.D.ite(c, *w))
        if isinstance(a, P) or isinstance(b, P): return None
        return s.D.ite(c, a, b)

    def phis(s, fn, b, pred, env):
        if isinstance(pred, tuple) and pred[0] == 'joined': return
        new = []
        for x in fn.blocks[b]:
            if x.o != 'phi': break
            if pred is None: continue
            for pb, v in x.a:
                if pb == pred: new.append((x.i, s.value(fn, env, v))); break
        for i, v in new: env[i] = v

    # ---- instructions
    def step(s, fn, x, env, mem):
        D = s.D; o = x.o
        s.instrs += 1
        V = lambda k: s.value(fn, env, x.a[k])
        if o == 'alloca':
            s.nalloc += 1
            env[x.i] = P(('al', s.nalloc), 0)
            k = D.cval(V(0)) if x.a else 1
            if x.d.get('sz') is not None and k is not None: s.asize[('al', s.nalloc)] = x.d['sz'] * k
            return
        if o == 'load':
            p = V(0); n = (width(x.t) + 7) // 8
            if x.t == 'ptr':
                if isinstance(p, P) and isinstance(p.off, int): s.reads.add((p.base, p.off, 8))
                if isinstance(p, P) and isinstance(p.off, int) and (p.base, p.off, 'p') in mem: env[x.i] = mem[(p.base, p.off, 'p')]
                elif isinstance(p, P) and isinstance(p.off, int):
                    bs = [mem.get((p.base, p.off + i)) for i in range(8)]
                    env[x.i] = D.const(0, 64) if all(b is not None and not any(b) for b in bs) else P(('ld', p.base, p.off), 0)
                else: raise Stuck('pointer load at %s' % x.where)
                return
            v = s.load(mem, p, n, x)
            env[x.i] = v[:width(x.t)] if v is not None else None
            return
        if o == 'store':
            v, p = V(0), V(1)
            if isinstance(v, P): n = 8
            else:
                if v is None: n = None
                else:
                    n = (len(v) + 7) // 8
                    if len(v) % 8: v = D.zext(v, 8 * n)
            if n is None: n = x.d.get('sz') or 8
            s.store(mem, p, v, n, x); return
        if o == 'getelementptr':
            p = V(0)
            if not isinstance(p, P): raise Stuck('address of a computed object at %s' % x.where)
            off = p.off
            def plus(off, k):
                if isinstance(off, int) and isinstance(k, int): return off + k
                a = D.const(off & (1 << 64) - 1, 64) if isinstance(off, int) else off
                b = D.const(k & (1 << 64) - 1, 64) if isinstance(k, int) else k
                r = D.add(a, b); c = D.cval(r)
                return r if c is None else (c - (1 << 64) if c >> 63 else c)
            off = plus(off, x.d['off'])
            for st, ref in x.d['vars']:
                v = s.asint(s.value(fn, env, ref))
                if len(v) < 64: v = D.sext(v, 64)
                off = plus(off, D.mulw(D.const(st & (1 << 64) - 1, 64), v))
            if not isinstance(off, int):
                c = D.cval(off)
                if c is not None: off = c - (1 << 64) if c >> 63 else c
            env[x.i] = P(p.base, off); return
        if o == 'call': env[x.i] = s.call(fn, x, env, mem); return
        if o == 'select':
            c = V(0)
            env[x.i] = s.join(c[0], V(1), V(2)); return
        if o == 'freeze': env[x.i] = V(0); return
        if o in ('bitcast', 'addrspacecast'): env[x.i] = V(0); return
        if o == 'inttoptr':
            env[x.i] = V(0); return       # an integer that is never dereferenced
        a = V(0)
        if o == 'extractvalue':
            if not (isinstance(a, tuple) and a[:1] == ('st',)): raise Stuck('part of a composite value at %s' % x.where)
            env[x.i] = a[1][x.d['ix'][0]]; return
        if o == 'icmp':
            b = V(1); p = x.d['p']
            if isinstance(a, P) and isinstance(b, P) and a.base == b.base and p in ('eq', 'ne') and isinstance(a.off, int) and isinstance(b.off, int):
                r = a.off == b.off; env[x.i] = (ONE if r == (p == 'eq') else ZERO,); return
            if isinstance(a, P) and isinstance(b, P) and a.base != b.base and p in ('eq', 'ne') and a.base[0] == b.base[0] == 'obj':
                env[x.i] = (ONE if p == 'ne' else ZERO,); return       # distinct objects
            for u, v in ((a, b), (b, a)):
                if isinstance(u, P) and not isinstance(v, P) and D.cval(v) == 0 and p in ('eq', 'ne') and u.base[0] in ('al', 'g', 'obj'):
                    env[x.i] = (ONE if p == 'ne' else ZERO,); return
            a, b = s.asint(a), s.asint(b)
            env[x.i] = None if a is None or b is None else (D.cmp(p, a, b),); return
        a = s.asint(a)
        if a is None: env[x.i] = None; return
        w = width(x.t)
        if o == 'ptrtoint': env[x.i] = D.trunc(a, w) if w < 64 else a; return
        if o == 'zext': env[x.i] = D.zext(a, w); return
        if o == 'sext': env[x.i] = D.sext(a, w); return
        if o == 'trunc': env[x.i] = D.trunc(a, w); return
        b = s.asint(V(1))
        if b is None: env[x.i] = None; return
        env[x.i] = s.bin(o, a, b, w, x)

    def bin(s, o, a, b, w, x):
        D = s.D
        if o in ('and', 'or', 'xor'):
            p, q = D._cid.get(id(a)), D._cid.get(id(b))
            if p is not None and q is not None: return D.const(p & q if o == 'and' else p | q if o == 'or' else p ^ q, w)
        if o == 'and': return D.band(a, b)
        if o == 'or': return D.bor(a, b)
        if o == 'xor': return D.bxor(a, b)
        if o == 'add': return D.add(a, b)
        if o == 'sub': return D.sub(a, b)
        if o == 'mul': return D.mulw(a, b)
        if o in ('shl', 'lshr', 'ashr'):
            c = D.cval(b)
            f = {'shl': D.shl, 'lshr': D.lshr, 'ashr': D.ashr}[o]
            if c is not None:
                if c >= w: raise Undefined('shift by %d of a %d bit value at %s' % (c, w, x.where))
                return f(a, c)
            nb = [i for i, p in enumerate(b) if p]
            if nb and nb[-1] < 7:
                # one bit of the result at a time: some may stay simple where others do not
                whole = None
                out = []
                for bit in range(w):
                    def pick(level, sh):
                        if level < 0:
                            q = f(a, sh) if sh < w else f(a, w)
                            return q[bit]
                        if level not in nb: return pick(level - 1, sh)
                        hi, lo = pick(level - 1, sh + (1 << level)), pick(level - 1, sh)
                        return hi if hi == lo else mul(b[level], hi ^ lo) ^ lo
                    try: out.append(pick(nb[-1], 0))
                    except Blowup:
                        if whole is None: whole = D.opaque(o, [a, b], w)
                        out.append(whole[bit])
                return tuple(out)
            return D.opaque(o, [a, b], w)
        m = (1 << w) - 1
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        def tdiv(p, q): r = abs(p) // abs(q); return r if (p < 0) == (q < 0) else -r
        f = {'udiv': lambda p, q: p // q if q else 0, 'urem': lambda p, q: p % q if q else 0,
             'sdiv': lambda p, q: tdiv(sg(p), sg(q)) & m if q else 0, 'srem': lambda p, q: (sg(p) - sg(q) * tdiv(sg(p), sg(q))) & m if q else 0}.get(o)
        if f is None: raise Stuck('operation %s at %s' % (o, x.where))
        c = D.cval(b)
        if c and c & (c - 1) == 0 and o in ('udiv', 'urem'):
            k = c.bit_length() - 1
            return D.lshr(a, k) if o == 'udiv' else D.zext(a[:k], w)
        r = D.pointwise(f, [a, b], w)
        return r if r is not None else D.opaque(o, [a, b], w)

    def call(s, fn, x, env, mem):
        D = s.D; c = x.callee
        args = [s.value(fn, env, r) for r in x.a]
        w = width(x.t)
        if c is None: return s.extern(x, ('ind', s.value(fn, env, x.d['ind'])), args, mem)
        if c.startswith('llvm.'):
            n = c.split('.')[1]
            if n in ('dbg', 'lifetime', 'assume', 'prefetch', 'expect', 'experimental'): return args[0] if n == 'expect' else None
            if n == 'bswap': return D.bswap(args[0])
            if n == 'bitreverse': return tuple(reversed(args[0]))
            if n in ('fshl', 'fshr'):
                k = D.cval(args[2])
                if k is not None:
                    k %= w
                    hi, lo = args[0], args[1]
                    if n == 'fshr': k = w - k if k else 0; 
                    if n == 'fshr' and k == 0: return lo
                    return D.bor(D.shl(hi, k), D.lshr(lo, w - k)) if k else hi
            if n in ('umin', 'umax', 'smin', 'smax'):
                q = D.cmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[n], args[0], args[1])
                return D.ite(q, args[0], args[1])
            if n == 'memset':
                k = D.cval(args[2])
                if k is None or not isinstance(args[0], P) or not isinstance(args[0].off, int): raise Stuck('memset of unknown size at %s' % x.where)
                if k: s.writes.add((args[0].base, args[0].off, k))
                if k > 1 << 16: raise Stuck('memset of %d bytes at %s' % (k, x.where))
                for i in range(k): mem[(args[0].base, args[0].off + i)] = args[1][:8]; mem.pop((args[0].base, args[0].off + i, 'p'), None)
                return None
            if n in ('memcpy', 'memmove'):
                k = D.cval(args[2])
                if k is None or not all(isinstance(a, P) and isinstance(a.off, int) for a in args[:2]): raise Stuck('%s of unknown size at %s' % (n, x.where))
                if k: s.writes.add((args[0].base, args[0].off, k)); s.reads.add((args[1].base, args[1].off, k))
                if k > 1 << 16: raise Stuck('%s of %d bytes at %s' % (n, k, x.where))
                bs = [s.byte(mem, args[1].base, args[1].off + i) for i in range(k)]
                ps = [(i, mem[(args[1].base, args[1].off + i, 'p')]) for i in range(k) if (args[1].base, args[1].off + i, 'p') in mem]
                for i in range(k): mem[(args[0].base, args[0].off + i)] = bs[i]; mem.pop((args[0].base, args[0].off + i, 'p'), None)
                for i, q in ps: mem[(args[0].base, args[0].off + i, 'p')] = q
                return None
            r = None
            if n == 'ctpop': r = D.pointwise(lambda v: bin(v).count('1'), args[:1], w)
            elif n in ('ctlz', 'cttz'):
                # known zeros up to a known one
                for k, q in enumerate(args[0] if n == 'cttz' else reversed(args[0])):
                    if q == ONE: return D.const(k, w)
                    if q != ZERO: break
            if r is not None: pass
            elif n == 'ctlz': r = D.pointwise(lambda v: w - v.bit_length(), args[:1], w)
            elif n == 'cttz': r = D.pointwise(lambda v: (v & -v).bit_length() - 1 if v else w, args[:1], w)
            if r is not None: return r
            if n in ('ctpop', 'ctlz', 'cttz'): return D.opaque(n, [args[0]], w)
            if '.with.overflow.' in c and not any(isinstance(a, P) for a in args[:2]):
                a, b = args[:2]; w = len(a)
                e = D.sext if n[0] == 's' else D.zext; W2 = 2 * w if n[1:] == 'mul' else w + 2
                r = {'add': D.add, 'sub': D.sub, 'mul': D.mulw}[n[1:]](e(a, W2), e(b, W2))
                q = D.cmp('ne', r, e(r[:w], W2))
                return ('st', (r[:w], (q,)))
            raise Stuck('intrinsic %s at %s' % (c, x.where))
        if c in ('memcpy', 'memmove', 'memset'):
            y = type(x)(dict(x.d, callee='llvm.%s' % c), x.fn, x.bb, x.pos)
            if c == 'memset': pass
            s.call(fn, y, env, mem)
            return args[0]
        h = s.externals.get(c)
        if h is not None: return h(s, x, args, mem)
        g = s.mod.fns.get(c)
        if g is not None and not g.decl:
            return s.run(g, args, mem)
        return s.extern(x, c, args, mem)

    def extern(s, x, c, args, mem):
        h = s.externals.get('*')
        if h is not None: return h(s, x, c, args, mem)
        raise Stuck('call of %s at %s' % (c, x.where))
