"""Integer values as polynomials over bounded unknowns, for word arithmetic whose carries matter.

A word is a polynomial equal to it as an integer.  A sum that may leave the word introduces an unknown for the words it
leaves by (the carry); a shift introduces one for the quotient; each comes with the linear constraint that defines it.
Comparisons that the bounds or the constraints settle have that value, or are the carry itself when it settles them, else
both outcomes are followed, each with its constraint (a disjunctive domain of linear constraints; emptiness by exact simplex)."""
from fractions import Fraction
from sim import *

WORD = 1 << 64


def L(d): return ('o', ('L', frozenset((k, v) for k, v in d.items() if v)))
def isl(v): return isinstance(v, tuple) and v[0] == 'o' and isinstance(v[1], tuple) and v[1][0] == 'L'
def form(v): return {(): v} if isinstance(v, int) else dict(v[1][1])
def back(f):
    f = {k: c for k, c in f.items() if c}
    if not f: return 0
    if list(f) == [()]: return f[()]
    return L(f)
def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]: del r[m]
    return r
def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items(): q = tuple(sorted(m + n)); r[q] = r.get(q, 0) + c * d
    return {m: c for m, c in r.items() if c}
def scale(a, k): return {m: c * k for m, c in a.items()} if k else {}


def tight(f, lo, hi):
    """the same constraint on integers, divided by what divides every monomial"""
    from math import gcd
    g = 0
    for m, c in f.items():
        if m: g = gcd(g, c)
    if g < 2: return f, lo, hi
    k = f.get((), 0)
    return {m: c // g for m, c in f.items() if m}, None if lo is None else -(-(lo - k) // g), None if hi is None else (hi - k) // g


class Lin(Sim):
    def __init__(s, mods, oracle=None):
        super().__init__(mods, oracle); s.bound = {}; s.cons = []; s.memo = {}; s.of = {}; s.eq = {}; s.unsure = False; s.nv = 0; s.lps = 0

    # ---- unknowns
    def var(s, name, lo, hi): s.bound[name] = (lo, hi); return {(name,): 1}
    def fresh(s, tag, lo, hi): s.nv += 1; return s.var('%s%d' % (tag, s.nv), lo, hi) if lo < hi else {(): lo} if lo else {}
    def limb(s, name):
        return L(add(s.var(name + 'l', 0, (1 << 32) - 1), s.var(name + 'h', 0, (1 << 32) - 1), 1 << 32))

    def sub(s, f):
        """known unknowns replaced"""
        while s.eq:
            hit = next((v for m in f for v in m if v in s.eq), None)
            if hit is None: break
            g = {}
            for m, c in f.items():
                if hit in m:
                    q = list(m); q.remove(hit); g = add(g, mul({tuple(q): c}, s.eq[hit]))
                else: g[m] = g.get(m, 0) + c
            f = g
        r = {}
        for m, c in f.items():
            k = []
            for v in m:
                lo, hi = s.bound[v]
                if lo == hi: c *= lo
                else: k.append(v)
            if c: k = tuple(k); r[k] = r.get(k, 0) + c
        return {m: c for m, c in r.items() if c}

    def mrange(s, m):
        lo = hi = 1
        for v in m:
            a, b = s.bound[v]; q = (lo * a, lo * b, hi * a, hi * b); lo, hi = min(q), max(q)
        return lo, hi

    def rng(s, f):
        lo = hi = 0
        for m, c in f.items():
            a, b = s.mrange(m); lo += min(c * a, c * b); hi += max(c * a, c * b)
        return lo, hi

    def assume(s, f, lo, hi):
        """the constraint lo <= f <= hi (None: open)"""
        f, lo, hi = tight(s.sub(f), lo, hi); s.cons.append((f, lo, hi))
        for _ in range(3):
            ch = False
            for g, a, b in s.cons:
                r0, r1 = s.rng(g)
                if a is not None and r1 < a or b is not None and r0 > b: raise Infeasible()
                for m, c in g.items():
                    if len(m) != 1: continue
                    v = m[0]; l, h = s.bound[v]; x0, x1 = min(c * l, c * h), max(c * l, c * h)
                    up = None if b is None else b - (r0 - x0); dn = None if a is None else a - (r1 - x1)
                    if c < 0: up, dn = (None if dn is None else -dn), (None if up is None else -up)
                    k = abs(c)
                    nl = l if dn is None else max(l, -(-dn // k)); nh = h if up is None else min(h, up // k)
                    if nl > nh: raise Infeasible()
                    if (nl, nh) != (l, h): s.bound[v] = (nl, nh); ch = True; r0, r1 = s.rng(g)
            if not ch: break
        if lo is not None and lo == hi:
            f = s.sub(f)
            one = [m for m, c in f.items() if len(m) == 1 and abs(c) == 1 and m[0][0] in 'kh' and not any(m[0] in n for n in f if n != m)]
            if one:
                m = max(one, key=lambda m: (m[0][0], int(m[0][1:])))
                v = m[0]; g = scale(add({n: c for n, c in f.items() if n != m}, {(): lo}, -1), -f[m])
                s.eq[v] = g; s.cons = [(s.sub(h), a, b) for h, a, b in s.cons]; s.cons.append((g,) + s.bound[v])

    def possible(s, f, lo, hi):
        f, lo, hi = tight(s.sub(f), lo, hi); r0, r1 = s.rng(f)
        if lo is not None and r1 < lo or hi is not None and r0 > hi: return False
        if not [m for m in f if m]: return True
        cons = [(s.sub(g), a, b) for g, a, b in s.cons]; todo = {m for m in f if m}; use = [(f, lo, hi)]; rest = list(cons)
        while True:
            near = [c for c in rest if any(m in todo for m in c[0] if m)]
            if not near: break
            rest = [c for c in rest if c not in near]; use += near
            for g, _, _ in near: todo |= {m for m in g if m}
        bounds = {m: s.mrange(m) for m in todo}; left = [64, 24]
        def search(b):
            s.lps += 1; left[0] -= 1
            if left[0] < 0: raise Stuck('too many cases of carries')
            x = feasible(use, b)
            if x is None: return False
            frac = [(b[m][1] - b[m][0], m) for m, v in x.items() if v.denominator != 1 and len(m) == 1 and m[0][0] in 'khqr']
            if not frac: return True
            w, m = min(frac, key=lambda z: (z[0], z[1]))
            if w > 4:
                left[1] -= 1
                if left[1] < 0: s.unsure = True; return True
            n = int(x[m] // 1)
            return search({**b, m: (b[m][0], n)}) or search({**b, m: (n + 1, b[m][1])})
        return search(bounds)

    # ---- words
    def wrap(s, f, w):
        f = s.sub(f); M = 1 << w; lo, hi = s.rng(f)
        if lo >= 0 and hi < M: return back(f)
        if hi - lo > 2 * M:
            key = ('span', w, frozenset(f.items()))
            if key not in s.memo:
                neg = s.possible(f, None, -1); s.memo[key] = None
                if not s.possible(f, M, None):
                    if not neg: s.memo[key] = f
                    elif not s.possible(f, None, -M - 1): k = s.fresh('k', -1, 0); s.memo[key] = add(f, k, -M)
                elif not neg and not s.possible(f, 2 * M, None): k = s.fresh('k', 0, 1); s.memo[key] = add(f, k, -M)
                if s.memo[key]: s.assume(s.memo[key], 0, M - 1)
            if s.memo[key]: return back(s.sub(s.memo[key]))
        f = {m: c for m, c in add({m: c % M if c % M <= M // 2 else c % M - M for m, c in f.items()}, {}).items() if c}
        lo, hi = s.rng(f)
        if lo >= 0 and hi < M: return back(f)
        if hi - lo > 2 * M and not s.possible(f, None, -1) and not s.possible(f, M, None): return back(f)
        key = ('wrap', w, frozenset(f.items()))
        if key not in s.memo:
            k = s.fresh('k', lo // M, hi // M); v = add(f, k, -M)
            s.assume(v, 0, M - 1); s.memo[key] = v
        return back(s.sub(s.memo[key]))

    def quot(s, f, n):
        f = s.sub(f); M = 1 << n
        up = {m: c // M for m, c in f.items() if c // M}; dn = {m: c % M for m, c in f.items() if c % M}
        lo, hi = s.rng(dn)
        if lo >= 0 and hi < M: return up
        if len(dn) == 1:
            (m, c), = dn.items()
            if c == 1 and m in s.of: g, k = s.of[m]; return add(up, s.quot(g, n + k))
        key = ('quot', n, frozenset(dn.items()))
        if key not in s.memo:
            for k, h in list(s.memo.items()):
                if k[0] == 'quot' and k[1] == n and h:
                    d = s.sub(add(dn, h, -M))
                    if not s.possible(d, None, -1) and not s.possible(d, M, None): s.memo[key] = h; return s.sub(add(up, h))
            h = s.fresh('h', lo // M, hi // M); s.assume(add(dn, h, -M), 0, M - 1); s.memo[key] = h
            for m in h: s.of[m] = (dn, n)
        return s.sub(add(up, s.memo[key]))

    def low(s, f, n): return add(f, s.quot(f, n), -(1 << n))

    def word(s, o, a, b, w):
        k = ('bits', o) + tuple(sorted([frozenset(s.sub(a).items()), frozenset(s.sub(b).items())], key=lambda x: sorted(map(str, x))))
        if k not in s.memo:
            v = s.memo[k] = s.fresh('b', 0, (1 << w) - 1)
            if o == 'and': s.assume(add(a, v, -1), 0, None); s.assume(add(b, v, -1), 0, None)
            else:
                s.assume(add(add(a, b), v, -1), 0, None)
                if o == 'or': s.assume(add(v, a, -1), 0, None); s.assume(add(v, b, -1), 0, None)
        return s.memo[k]

    def step(s, fn, x, env):
        o = x.o
        if o in ('zext', 'sext', 'trunc', 'select', 'freeze'):
            a = s.force(s.val(fn, env, x.a[0]))
            if isl(a):
                if o == 'trunc':
                    w = W(x.t); return back(s.sub(s.low(form(a), w)))
                if o == 'zext': return a
                if o == 'sext':
                    ow = s.opw(fn, x.a[0]); lo, hi = s.rng(s.sub(form(a)))
                    if ow > 1 and 0 <= lo and hi < 1 << ow - 1: return a
                    if ow != 1: raise Stuck('sext at %s' % x.where)
                    return back(scale(form(a), (1 << W(x.t)) - 1))
                if o == 'select':
                    p, q = s.force(s.val(fn, env, x.a[1])), s.force(s.val(fn, env, x.a[2]))
                    if isinstance(p, int) and isinstance(q, int): return back(s.sub(add({(): q}, scale(form(a), p - q))))
                    return p if s.truth(a) else q
        return super().step(fn, x, env)

    def arith(s, o, a, b, w, x):
        if not (isl(a) or isl(b)) or isp(a) or isp(b): return super().arith(o, a, b, w, x)
        if any(not isl(v) and not isinstance(v, int) for v in (a, b)): return super().arith(o, a, b, w, x)
        f, g = s.sub(form(a)), s.sub(form(b)); M = (1 << w) - 1
        if w == 1 and o in ('and', 'or', 'xor'):
            if o == 'xor' and 1 in (a, b): return back(add({(): 1}, f if b == 1 else g, -1))
            if o == 'or' and not s.possible(add(f, g), 2, None): return back(add(f, g))
            if o == 'and' and not s.possible(add(f, g), 2, None): return 0
            p, q = s.truth(a), s.truth(b); return int({'and': p and q, 'or': p or q, 'xor': p != q}[o])
        if o == 'add': return s.wrap(add(f, g), w)
        if o == 'sub': return s.wrap(add(f, g, -1), w)
        if o == 'mul': return s.wrap(mul(f, g), w)
        if o in ('shl', 'lshr') and isinstance(b, int):
            if b >= w: return ('o', ('undef',))
            return back(s.sub(s.quot(f, b))) if o == 'lshr' else back(s.sub(scale(s.low(f, w - b), 1 << b)))
        if o in ('and', 'or', 'xor'):
            if isinstance(a, int): a, b, f, g = b, a, g, f
            c = b if isinstance(b, int) else None
            if o == 'and' and c is not None:
                if c & (c + 1) == 0: return back(s.sub(s.low(f, c.bit_length())))
                n = (c & -c).bit_length() - 1
                if c + (1 << n) == 1 << w: return back(s.sub(scale(s.quot(f, n), 1 << n)))
                # a field in the middle
                hi = c.bit_length()
                if c + (1 << n) == 1 << hi: return back(s.sub(scale(s.quot(s.low(f, hi), n), 1 << n)))
                m = ~c & M
                if m & (m - 1) == 0:      # everything but one bit
                    n = m.bit_length() - 1; return back(s.sub(add(f, s.quot(s.low(f, n + 1), n), -m)))
            if o == 'xor' and c == M: return back(add({(): M}, f, -1))
            if o == 'or' and c is not None and c & (c - 1) == 0 and c:
                n = c.bit_length() - 1; return back(s.sub(add(add(f, {(): c}), s.quot(s.low(f, n + 1), n), -c)))
            if o in ('or', 'xor'):
                for p, q in ((f, g), (g, f)):
                    top = s.rng(q)
                    if top[0] >= 0 and p and all(v % (1 << top[1].bit_length()) == 0 for v in p.values()): return back(add(p, q))
            if f == g: return 0 if o == 'xor' else back(f)
            return back(s.word(o, f, g, w))
        raise Stuck('%s of open words at %s' % (o, x.where))

    def icmp(s, p, a, b, x):
        a, b = s.force(a), s.force(b)
        if not (isl(a) or isl(b)) or isp(a) or isp(b): return super().icmp(p, a, b, x)
        if any(not isl(v) and not isinstance(v, int) for v in (a, b)): return super().icmp(p, a, b, x)
        w = W(x.d.get('ot') or 'i64')
        if p in ('ne', 'eq'):
            d = s.sub(add(form(a), form(b), -1)); r = s.compare(d, 'eq')
            return (r if p == 'eq' else 1 - r) if isinstance(r, int) else r if p == 'eq' else back(add({(): 1}, form(r), -1))
        if p[0] == 's': raise Stuck('signed comparison at %s' % x.where)
        d = add(form(a), form(b), -1)
        neg = p in ('uge', 'ule')
        if p in ('ugt', 'ule'): d = scale(d, -1)
        r = s.compare(s.sub(d), 'lt')        # d < 0
        return r if not neg else 1 - r if isinstance(r, int) else back(add({(): 1}, form(r), -1))

    def compare(s, d, how):
        def quick(f):
            lo, hi = s.rng(f)
            if how == 'lt': return 1 if hi < 0 else 0 if lo >= 0 else None
            return 0 if lo > 0 or hi < 0 else 1 if lo == hi == 0 else None
        r = quick(d)
        if r is not None: return r
        for m in sorted((m for m in d if len(m) == 1 and s.bound[m[0]][1] == s.bound[m[0]][0] + 1), key=lambda m: -abs(d[m])):
            l = s.bound[m[0]][0]
            q = [quick(add({k: c for k, c in d.items() if k != m}, {(): d[m] * v})) for v in (l, l + 1)]
            if None not in q: return back(add({(): q[0] - l * (q[1] - q[0])}, {m: q[1] - q[0]})) if q[0] != q[1] else q[0]
        if how == 'lt': T, F = s.possible(d, None, -1), s.possible(d, 0, None)
        else: T = s.possible(d, 0, 0); F = 'lo' if s.possible(d, 1, None) else None; G = 'hi' if s.possible(d, None, -1) else None
        if how == 'lt':
            if not T and not F: raise Infeasible()
            r = s.choose([1, 0]) if T and F else int(T)
            s.assume(d, None, -1) if r else s.assume(d, 0, None)
            return r
        opts = ([1] if T else []) + [v for v in (F, G) if v]
        if not opts: raise Infeasible()
        r = s.choose(opts) if len(opts) > 1 else opts[0]
        s.assume(d, 0, 0) if r == 1 else s.assume(d, 1, None if s.possible(d, 2, None) else 1) if r == 'lo' else s.assume(d, None, -1)
        return int(r == 1)

    def truth(s, t):
        if isl(t): t = s.fixed(t)
        return bool(t) if isinstance(t, int) else super().truth(t)

    def fixed(s, t):
        """the value of a word of few values, split if open"""
        f = s.sub(form(t))
        lo, hi = s.rng(f)
        if lo == hi: return lo
        if hi - lo > 8: raise Stuck('decision on an open word')
        opts = [v for v in range(lo, hi + 1) if s.possible(f, v, v)]
        if not opts: raise Infeasible()
        v = s.choose(opts) if len(opts) > 1 else opts[0]
        s.assume(f, v, v); return v

    def decide(s, t): return bool(s.fixed(t)) if isl(t) else super().decide(t)


def feasible(cons, bounds):
    """a rational point or None.  cons: (polynomial, lo, hi), a monomial is a variable with the given bounds.  Exact."""
    names = list(bounds); ix = {m: i for i, m in enumerate(names)}; n = len(names)
    lo = [bounds[m][0] for m in names]; hi = [bounds[m][1] for m in names]
    rows = {}
    for f, a, b in cons:
        k = f.get((), 0); r = {ix[m]: Fraction(c) for m, c in f.items() if m}
        if not r:
            if a is not None and k < a or b is not None and k > b: return None
            continue
        j = len(lo); lo.append(None if a is None else a - k); hi.append(None if b is None else b - k); rows[j] = r
    val = [Fraction(0)] * len(lo)
    for j in range(n): val[j] = Fraction(lo[j])
    for j, r in rows.items(): val[j] = sum((c * val[i] for i, c in r.items()), Fraction(0))
    for _ in range(5000):
        bad = None
        for j in sorted(rows):
            if lo[j] is not None and val[j] < lo[j]: bad = (j, lo[j], 1); break
            if hi[j] is not None and val[j] > hi[j]: bad = (j, hi[j], -1); break
        if bad is None: return {m: val[i] for m, i in ix.items()}
        j, target, sg = bad; r = rows[j]; piv = None
        for i in sorted(r):
            up = (r[i] > 0) == (sg > 0)
            if up and (hi[i] is None or val[i] < hi[i]) or not up and (lo[i] is None or val[i] > lo[i]): piv = i; break
        if piv is None: return None
        c = r.pop(piv); t = (target - val[j]) / c
        # j leaves the basis, piv enters
        new = {k: -v / c for k, v in r.items()}; new[j] = 1 / c; del rows[j]
        for q, w in rows.items():
            e = w.pop(piv, None)
            if e is not None:
                val[q] += e * t
                for k, v in new.items():
                    z = w.get(k, 0) + e * v
                    if z: w[k] = z
                    else: w.pop(k, None)
        rows[piv] = new; val[piv] += t; val[j] = Fraction(target)
    raise Stuck('simplex does not end')
