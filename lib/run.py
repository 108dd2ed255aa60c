"""One analysed call: objects of known size with symbolic contents, followed by anf.Eval over the witness
module and the library, recording every access."""
from anf import *


class Log(set):
    """the accesses, with the order of their first and last occurrence"""
    def __init__(s, log, kind): super().__init__(); s.log = log; s.kind = kind
    def add(s, x): s.log.append((s.kind,) + x); super().add(x)


class Run:
    def __init__(s, mods, D, maxstep=20000):
        s.D = D; s.mods = mods; s.mem = {}; s.size = {}; s.calls = []; s.nobj = 0; s.freed = set(); s.heap = {}; s.failalloc = False; s.handlers = {}; s.maxstep = maxstep
        s.begin()

    def begin(s):
        """a new operation: a new record of accesses"""
        E = s.E = Eval(s.mods[0], s.D); E.MAXSTEP = s.maxstep; s.log = []
        E.reads = Log(s.log, 'r'); E.writes = Log(s.log, 'w')
        E.nalloc = s.nobj * 1000; s.nobj += 1
        E.externals['*'] = s.outside
        for n in ('memcmp', 'malloc', 'calloc', 'realloc', 'free', 'strlen'):
            if hasattr(s, 'x_' + n): E.externals[n] = getattr(s, 'x_' + n)
        for n in ('malloc', 'realloc', 'free'): E.externals['bfdev_' + n] = lambda E, x, a, m, n=n: getattr(s, 'x_' + n)(E, x, a[1:], m)
        E.externals['bfdev_zalloc'] = lambda E, x, a, m: s.x_calloc(E, x, a[1:] + [s.D.const(1, 64)], m)
        E.externals.update(s.handlers)

    def copy(s):
        r = Run.__new__(Run); r.__dict__.update(s.__dict__)
        r.mem = dict(s.mem); r.size = dict(s.size); r.freed = set(s.freed); r.heap = dict(s.heap); r.calls = list(s.calls)
        r.begin(); r.E.nalloc = s.E.nalloc + 1000000
        return r

    def outside(s, E, x, c, args, mem):
        if isinstance(c, tuple) and c[0] == 'ind':
            f = c[1]
            if isinstance(f, P) and f.base[0] == 'f':
                h = s.handlers.get(f.base[1])
                if h is not None: return h(E, x, args, mem)
                c = f.base[1]
                g = E.mod.fns.get(c)
                if g is not None and not g.decl: return E.run(g, args, mem)
            elif isinstance(f, P) and f.base in s.handlers: return s.handlers[f.base](E, x, args, mem)
            else: raise Stuck('call through an unknown pointer at %s' % x.where)
        for m in s.mods[1:]:
            f = m.fn(c)
            if f is not None and not f.decl:
                old = E.mod; E.mod = m
                try: return E.run(f, args, mem)
                finally: E.mod = old
        raise Stuck('call of %s at %s' % (c, x.where))

    # ---- the C library
    def x_memcmp(s, E, x, args, mem):
        n = s.D.cval(args[2]); a, b = args[:2]
        if n is None: raise Stuck('memcmp of unknown size')
        if n: E.reads.add((a.base, a.off, n)); E.reads.add((b.base, b.off, n))
        for i in range(n):
            u, v = E.byte(mem, a.base, a.off + i), E.byte(mem, b.base, b.off + i)
            if u is None or v is None: raise Undefined('comparison of undefined bytes at %s' % x.where)
            d = [p ^ q for p, q in zip(u, v)]
            cu, cv = s.D.cval(u), s.D.cval(v)
            if cu is not None and cv is not None:
                if cu != cv: return s.D.const(1 if cu > cv else -1 & 0xffffffff, 32)
                continue
            if any(p == ONE for p in d): return (ONE,) + s.D.atom(('memcmp',), 31)
            if any(d): raise Stuck('memcmp of undecided contents')
        return s.D.const(0, 32)

    def x_strlen(s, E, x, args, mem):
        p = args[0]
        for i in range(100000):
            b = E.byte(mem, p.base, p.off + i)
            E.reads.add((p.base, p.off + i, 1))
            if p.base in s.size and p.off + i >= s.size[p.base]: raise Stuck('string without end')
            if b is None: raise Undefined('strlen of undefined bytes')
            v = s.D.cval(b)
            if v == 0: return s.D.const(i, 64)
            if v is None and not any(q == ONE for q in b): raise Stuck('strlen of undecided contents')

    def alloc(s, n, zero=False):
        s.nobj += 1
        b = ('obj', 'heap%d' % s.nobj); s.size[b] = n; s.heap[b] = n; s.E.align[b] = 4
        for i in range(n): s.mem[(b, i)] = s.D.const(0, 8) if zero else None
        return P(b, 0)

    def x_malloc(s, E, x, args, mem):
        n = s.D.cval(args[0])
        if n is None: raise Stuck('allocation of unknown size')
        if s.failalloc or n > 1 << 16: return s.D.const(0, 64)
        return s.alloc(n)

    def x_calloc(s, E, x, args, mem):
        n = s.D.cval(args[0]); k = s.D.cval(args[1])
        if n is None or k is None: raise Stuck('allocation of unknown size')
        if s.failalloc or n * k > 1 << 16: return s.D.const(0, 64)
        return s.alloc(n * k, True)

    def x_free(s, E, x, args, mem):
        p = args[0]
        if not isinstance(p, P): return None
        if p.base not in s.heap or p.off != 0: raise Undefined('release of what was not allocated at %s' % x.where)
        if p.base in s.freed: raise Undefined('released twice at %s' % x.where)
        s.freed.add(p.base); s.log.append(('f', p.base, 0, 0)); return None

    def x_realloc(s, E, x, args, mem):
        p, n = args[0], s.D.cval(args[1])
        if n is None: raise Stuck('allocation of unknown size')
        if s.failalloc or n > 1 << 16: return s.D.const(0, 64)
        q = s.alloc(n)
        if isinstance(p, P):
            if p.base not in s.heap or p.off != 0 or p.base in s.freed: raise Undefined('reallocation of what was not allocated at %s' % x.where)
            for i in range(min(n, s.heap[p.base])):
                mem[(q.base, i)] = mem.get((p.base, i))
                if (p.base, i, 'p') in mem: mem[(q.base, i, 'p')] = mem[(p.base, i, 'p')]
            s.freed.add(p.base)
        return q

    # ---- objects
    def obj(s, name, size, fill='sym', align=4):
        """fill: 'sym' symbolic bytes, None undefined, an int, or bytes"""
        b = ('obj', name); s.size[b] = size; s.E.align[b] = align
        for i in range(size):
            s.mem[(b, i)] = s.D.atom(('m', name, i), 8) if fill == 'sym' else None if fill is None else s.D.const(fill if isinstance(fill, int) else fill[i], 8)
        return P(b, 0)

    def drop(s, p):
        for i in range(s.size.pop(p.base)):
            s.mem.pop((p.base, i), None); s.mem.pop((p.base, i, 'p'), None)

    def bytes(s, p, n, off=0): return [s.mem.get((p.base, p.off + off + i)) for i in range(n)]

    def get(s, p, off, n):
        """constant read from memory, None when not constant"""
        b = s.bytes(p, n, off)
        if any(x is None for x in b): return None
        return s.D.cval(tuple(q for x in b for q in x))

    def call(s, f, args):
        """args: ints, pointers or bit tuples"""
        D = s.D; av = []
        for x, (_, t) in zip(args, f.args):
            w = width(t) or 64
            av.append(x if isinstance(x, P) or x is None and t == 'ptr' else D.const(x & (1 << w) - 1, w) if isinstance(x, int) else D.const(0, 64) if x is None else x)
        mod = None
        for m in s.mods:
            if m.fns.get(f.name) is f: mod = m
        if mod is not None: s.E.mod = mod
        for b in s.size: s.E.align.setdefault(b, 4)
        return s.E.run(f, av, s.mem)

    def const(s, r):
        return None if r is None or isinstance(r, P) else s.D.cval(r)

    def touched(s, ro=()):
        gone = set()
        for k, b, o, n in s.log:
            if k == 'f': gone.add(b); continue
            if b in gone: return 'uses a released block'
            z = s.size.get(b, s.E.asize.get(b))
            what = 'reads' if k == 'r' else 'writes'
            if z is not None and not (isinstance(o, int) and 0 <= o and o + n <= z): return '%s %s' % (what, 'past its own local object' if b[0] == 'al' else 'outside %s' % b[1])
            if k == 'w' and b in ro: return 'changes %s' % b[1]
        return None
