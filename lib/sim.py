"""Histories of container operations over lazy.World: heap blocks and structures with known extent, user
callbacks as handlers, and links, lengths and bounds tracked.  Contents the library does not look at stay symbolic."""
from lazy import *

ALLOC = ('bfdev_malloc', 'bfdev_zalloc', 'bfdev_realloc', 'bfdev_free', 'malloc', 'calloc', 'realloc', 'free')
LOG = ('bfdev_log_core', 'bfdev_vlog_core', 'printf', 'fprintf', 'vprintf', 'puts')


class Sim(World):
    MAXSTEP = 200000
    START = True

    def __init__(s, mods, oracle=None):
        super().__init__(mods, oracle or (lambda o: (_ for _ in ()).throw(Stuck('choice')))); s.size = {}; s.dead = set(); s.zero = {}; s.handlers = {}; s.failat = None; s.nalloc = 0; s.nfail = 0; s.heap = set(); s.ro = set(); s.log = []; s.big = 1 << 20; s.allocs = []

    def split(s, key):
        n, off, size = key
        if n in s.zero:
            if s.zero[n]: return 0
            raise Bad('reads %s at %s which was never set' % (n, off), s.where)
        raise Stuck('cell %s' % (key,))

    # ---- byte-precise cells (at most eight bytes each)
    def near(s, o, off, size):
        m = s.mem
        return [(off + d, m[(o, off + d)]) for d in range(-7, size) if (o, off + d) in m and off + d + m[(o, off + d)][1] > off]

    def byte(s, v, i, what):
        v = s.force(v)
        if not isinstance(v, int): raise Stuck('part of %s' % (what,))
        return v >> 8 * i & 255

    def clear(s, o, off, size):
        for a, (v, z) in s.near(o, off, size):
            del s.mem[(o, a)]
            if a < off or a + z > off + size:
                v = s.force(v)
                for i in range(z):
                    if off <= a + i < off + size: continue
                    s.mem[(o, a + i)] = (s.byte(v, i, (o, a)), 1) if isinstance(v, int) else (('o', ('part', v, i)), 1)

    def put(s, o, off, v, size):
        s.clear(o, off, size); s.mem[(o, off)] = (v, size)

    def read(s, obj, off, size=8):
        v = s.mem.get((obj, off))
        if v is not None and v[1] == size: return v[0]
        n = s.near(obj, off, size)
        if not n: return s.initial(obj, off, size)
        r = 0
        for i in range(size):
            for a, (v, z) in n:
                if a <= off + i < a + z: b = s.byte(v, off + i - a, (obj, a)); break
            else: b = s.byte(s.initial(obj, off + i, 1), 0, (obj, off + i))
            r |= b << 8 * i
        return r

    def store(s, p, v, size, ins):
        p = s.addr(p, size, ins, True)
        if size > 8: raise Stuck('store of %d bytes at %s' % (size, ins.where))
        s.put(p[1], p[2], v, size)

    def copy(s, d, q, n, ins):
        n = s.force(n)
        if n == 0: return
        d, q = s.range(d, n, ins, True), s.range(q, n, ins, False)
        got = []
        whole = n <= 4096
        i = 0
        if whole:
            while i < n:
                c = s.mem.get((q[1], q[2] + i))
                if c is not None and i + c[1] <= n: got.append((i, c[0], c[1])); i += c[1]; continue
                w = 8 if n - i >= 8 and not s.near(q[1], q[2] + i, 8) else 1
                try: got.append((i, s.force(s.read(q[1], q[2] + i, w)), w))
                except Bad: got.append((i, ('o', ('undef',)), w))
                except Stuck:
                    if w == 1: raise
                    got += [(i + k, s.force(s.read(q[1], q[2] + i + k, 1)), 1) for k in range(w)]
                i += w
        else: got = [(o - q[2], v[0], v[1]) for (ob, o), v in s.mem.items() if ob == q[1] and q[2] <= o and o + v[1] <= q[2] + n]
        for k, (ob, o) in enumerate(list(s.mem)):
            if ob == d[1] and d[2] <= o < d[2] + n and (ob, o) in s.mem: s.clear(ob, o, min(s.mem[(ob, o)][1], d[2] + n - o))
        for i, v, z in got: s.put(d[1], d[2] + i, v, z)

    def fill(s, d, v, n, ins):
        n = s.force(n)
        if n == 0: return
        d = s.range(d, n, ins, True); v = s.force(v)
        if not isinstance(v, int): raise Stuck('fill at %s' % ins.where)
        v &= 255; i = 0
        if n > 1 << 16: raise Stuck('large fill at %s' % ins.where)
        while i < n:
            w = 8 if n - i >= 8 else 1
            s.put(d[1], d[2] + i, int.from_bytes(bytes([v]) * w, 'little'), w); i += w

    def undef(s, t):
        return isinstance(t, tuple) and ('undef' in t[:1] or any(s.undef(x) for x in t if isinstance(x, tuple)))

    def decide(s, t):
        if s.undef(t): raise Bad('decides on what was never set', s.where)
        raise Stuck('decision on %s at %s' % (t, s.where.where))

    def addr(s, p, size, ins, write):
        q = s.force(p)
        if isterm(q) and s.undef(q): raise Bad('follows a pointer that was never set', ins)
        return super().addr(q, size, ins, write)

    def check_access(s, p, size, ins, write):
        o, off = p[1], p[2]
        if o in s.dead: raise Bad('%s %s after its release' % ('writes' if write else 'reads', s.show(o)), ins)
        if o in s.size and isinstance(size, int) and (off < 0 or off + size > s.size[o]): raise Bad('%s outside %s' % ('writes' if write else 'reads', s.show(o)), ins)
        if write and o in s.ro: raise Bad('writes to %s' % s.show(o), ins)
        s.log.append((write, o, off, size))

    def show(s, o): return o if isinstance(o, str) else 'a local variable' if isinstance(o, tuple) and o[0] == 'al' else str(o[-1] if isinstance(o, tuple) else o)

    def step(s, fn, x, env):
        r = super().step(fn, x, env)
        if x.o == 'alloca' and x.d.get('sz') is not None:
            k = s.force(s.val(fn, env, x.a[0])) if x.a else 1
            if isinstance(k, int): s.size[r[1]] = x.d['sz'] * k
        return r

    def opaque(s, name): return name in ALLOC or name in s.handlers or name in LOG

    def new(s, name, size, zero=None):
        """zero: True zeroed, False undefined, None symbolic"""
        s.size[name] = size
        if zero is not None: s.zero[name] = zero
        return P(name)

    def block(s, n, zero):
        if not isinstance(n, int): raise Stuck('allocation of unknown size')
        s.nalloc += 1
        if s.failat is not None and (s.failat is True or s.nalloc in s.failat) or n > s.big: s.nfail += 1; return 0
        o = 'block %d' % s.nalloc
        s.heap.add(o); s.allocs.append(o)
        return s.new(o, n, zero)

    def outside(s, fn, ins, c, args):
        a = [s.force(x) for x in args]
        if isinstance(c, str) and c in ALLOC:
            lib = c.startswith('bfdev_'); a = a[1:] if lib else a
            k = c.replace('bfdev_', '')
            if k == 'malloc': return s.block(a[0], False)
            if k == 'zalloc': return s.block(a[0], True)
            if k == 'calloc': return s.block(a[0] * a[1], True)
            if k == 'free':
                if a[0] != 0: s.release(a[0], ins)
                return None
            if k == 'realloc':
                if a[0] == 0: return s.block(a[1], False)
                s.live(a[0], ins)
                q = s.block(a[1], False)
                if q == 0: return 0
                o = a[0][1]
                for (b, off), v in list(s.mem.items()):
                    if b == o and off + v[1] <= a[1]: s.mem[(q[1], off)] = v
                s.zero[q[1]] = s.zero[o] if a[1] <= s.size[o] else False
                s.dead.add(o); s.heap.discard(o); return q
        if c in LOG: return 0
        if c in ('abort', '__assert_fail'): raise Bad('aborts', ins)
        if isinstance(c, str) and c in s.handlers: return s.handlers[c](a, ins)
        raise Stuck('call of %s at %s' % (c, ins.where))

    def live(s, p, ins):
        if not isp(p) or p[1] not in s.heap or p[2] != 0: raise Bad('releases what was not allocated', ins)

    def release(s, p, ins):
        if isp(p) and p[1] in s.dead: raise Bad('releases a block twice', ins)
        s.live(p, ins); s.dead.add(p[1]); s.heap.discard(p[1])

    def func(s, name):
        f = s.find(name)
        if f is None: raise Stuck('no function %s' % name)
        return f

    def do(s, name, *args):
        s.steps = 0; s.log = []
        f = s.func(name)
        av = []
        for x, (_, t) in zip(args, f.args): av.append(x & (1 << W(t)) - 1 if isinstance(x, int) and W(t) else x)
        r = s.run(f, av)
        r = s.force(r) if r is not None else None
        return r

    def cell(s, o, off, size=8):
        """value of a cell without an access"""
        return s.force(s.read(o, off, size))

    def clone(s):
        c = type(s).__new__(type(s)); c.__dict__.update(s.__dict__)
        for k, v in s.__dict__.items():
            if isinstance(v, (dict, set, list)): c.__dict__[k] = v.copy()
        return c


def signed(v, bits):
    return v - (1 << bits) if isinstance(v, int) and v >> (bits - 1) & 1 else v


def offsets(mod, prefix='off_'):
    from flow import flat_init
    return {n[len(prefix):]: next(v[1] for o, v in flat_init(g['init'])) for n, g in mod.globals.items() if n.startswith(prefix)}
