"""Shape analysis with lazy materialisation.

The heap around the operands is summarised: a cell that was not looked at stands for everything it may hold
(an arbitrary subtree, list tail or value).  Only when the code depends on a cell is the summary split into the
possible shapes (focus), and the analysis goes on for each of them.  Integers from outside are terms; a branch
on a term is followed both ways and the assumption kept.  What remains unsplit at the end is compared as a
summary, so each finished case stands for all the objects that look like it."""
import sys
from build import AnalysisBroken


class Infeasible(Exception): pass
class Stuck(Exception): pass
class Bad(Exception):
    """the code does something no caller can allow (null access, access to a removed node...)"""
    def __init__(s, text, ins=None): super().__init__(text); s.text = text; s.ins = ins
class Bound(Exception): pass


def W(t): return int(t[1:]) if t and t[0] == 'i' else 64 if t == 'ptr' else 0


def P(o, off=0): return ('p', o, off)
def isp(v): return isinstance(v, tuple) and v[0] == 'p'
def isz(v): return isinstance(v, tuple) and v[0] == 'z'
def isterm(v): return isinstance(v, tuple) and v[0] in ('o', 'op')


class World:
    """initial heap; subclasses decide how cells are split"""
    MAXSTEP = 4000

    def __init__(s, mods, oracle):
        s.mods = mods; s.oracle = oracle; s.mem = {}; s.res = {}; s.steps = 0; s.na = 0; s.calls = []; s.truths = {}
        s.written = {}; s.depth = 0; s.where = None; s.ncase = 0

    # ---- choices
    def choose(s, opts):
        if not opts: raise Infeasible()
        if len(opts) == 1: return opts[0]
        return s.oracle(opts)

    # ---- hooks
    def split(s, key): raise Stuck('cell %s' % (key,))
    def outside(s, fn, ins, callee, args): raise Stuck('call of %s at %s' % (callee, ins.where))
    def check_access(s, p, size, ins, write): pass
    def cells(s, obj): return None

    # ---- values
    def force(s, v):
        while isz(v):
            k = v[1]
            if k not in s.res: s.res[k] = s.split(k)
            v = s.res[k]
        return v

    def peek(s, v):
        """value as far as it was split"""
        while isz(v) and v[1] in s.res: v = s.res[v[1]]
        return v

    START = False   # the analysis starts with the program: variables hold their initial values

    def constant(s, g, off, size):
        from flow import flat_init
        cs = g.get('_cells')
        if cs is None:
            cs = g['_cells'] = {}
            for o, v in flat_init(g['init']):
                if v[0] == 'c': cs[o] = (v[1] & (1 << v[2]) - 1, (v[2] + 7) // 8)
                elif v[0] == 'n': cs[o] = (0, 8)
                elif v[0] == 'f': cs[o] = (P(('f', v[1])), 8)
                elif v[0] == 'g': cs[o] = (P(('g', v[1]), v[2] if len(v) > 2 else 0), 8)
                else: cs[o] = (('o', ('init', o)), 8)
        c = cs.get(off)
        if c is not None and c[1] == size: return c[0]
        r = 0
        for i in range(size):
            for k in range(off + i, off + i - 8, -1):
                c = cs.get(k)
                if c is not None and k + c[1] > off + i:
                    if not isinstance(c[0], int): raise Stuck('part of an initial value')
                    r |= (c[0] >> 8 * (off + i - k) & 255) << 8 * i
                    break
        return r

    def initial(s, obj, off, size):
        if isinstance(obj, tuple) and obj[0] == 'g':
            for m in s.mods:
                g = m.globals.get(obj[1])
                if g is not None and 'init' in g:
                    if not g.get('const') and not s.START: return ('o', ('g', obj[1], off))
                    return s.constant(g, off, size)
            return ('o', ('g', obj[1], off))
        if isinstance(obj, tuple) and obj[0] == 'al': return ('o', ('undef', obj, off))
        return ('z', (obj, off, size))

    def read(s, obj, off, size=8):
        v = s.mem.get((obj, off))
        if v is not None: return v[0]
        return s.initial(obj, off, size)

    def addr(s, p, size, ins, write):
        p = s.force(p)
        if isp(p):
            s.check_access(p, size, ins, write); return p
        if p == 0 or isinstance(p, int) and 0 <= p < 4096: raise Bad('%s through a null pointer' % ('write' if write else 'read'), ins)
        if isinstance(p, int): raise Bad('%s through a poisoned pointer' % ('write' if write else 'read'), ins)
        raise Stuck('address at %s' % ins.where)

    def load(s, p, size, ins):
        p = s.addr(p, size, ins, False)
        return s.read(p[1], p[2], size)

    def store(s, p, v, size, ins):
        p = s.addr(p, size, ins, True)
        s.mem[(p[1], p[2])] = (v, size)
        s.written[(p[1], p[2])] = ins

    def truth(s, t):
        """branch on a term"""
        neg = {'ne': 'eq', 'uge': 'ult', 'sge': 'slt', 'ugt': 'ule', 'sgt': 'sle'}
        flip = False
        if t[0] == 'op' and t[1] in neg: t = ('op', neg[t[1]]) + t[2:]; flip = True
        if t not in s.truths: s.truths[t] = s.decide(t)
        return s.truths[t] != flip

    def decide(s, t): return s.choose([True, False])

    # ---- evaluation
    def find(s, name):
        for m in s.mods:
            f = m.fns.get(name)
            if f is not None and not f.decl: return f
        return None

    def val(s, fn, env, ref):
        if isinstance(ref, list):
            k = ref[0]
            if k == 'c': return ref[1] & (1 << ref[2]) - 1
            if k == 'n': return 0
            if k == 'g': return P(('g', ref[1]), ref[2] if len(ref) > 2 else 0)
            if k == 'f': return P(('f', ref[1]))
            if k == 'p': return ('o', ('poison',))
            if k in ('u', 'undef'): return ('o', ('undef',))
            if k == 'md': return 0
            v = s.constexpr(ref)
            if v is None: raise Stuck('operand %s' % (ref,))
            return v
        return env[ref]

    def constexpr(s, ref):
        if ref[0] != 'ce': return None
        a = [s.val(None, None, r) for r in ref[2]]
        return a[0] if ref[1] in ('inttoptr', 'ptrtoint', 'bitcast') else None

    def run(s, fn, args):
        s.depth += 1
        if s.depth > 30: raise Bound()
        try: return s.run1(fn, args)
        finally: s.depth -= 1

    def run1(s, fn, args):
        env = dict(enumerate(args)); b, pred = 0, None
        while True:
            new = []
            for x in fn.blocks[b]:
                if x.o != 'phi': break
                for pb, v in x.a:
                    if pb == pred: new.append((x.i, s.val(fn, env, v))); break
            for i, v in new: env[i] = v
            for x in fn.blocks[b]:
                if x.o == 'phi': continue
                s.steps += 1
                if s.steps > s.MAXSTEP: raise Bound()
                s.where = x
                o = x.o
                if o == 'br':
                    if not x.a: pred, b = b, x.d['s'][0]; break
                    c = s.force(s.val(fn, env, x.a[0]))
                    if isterm(c): c = s.truth(c)
                    pred, b = b, x.d['s'][0 if c else 1]; break
                if o == 'switch':
                    v = s.force(s.val(fn, env, x.a[0]))
                    if not isinstance(v, int):
                        pick = s.choose([c[1] for (c, tg) in x.d['cases']] + ['default']); 
                        nb = x.d['def']
                        for c, tg in x.d['cases']:
                            if c[1] == pick: nb = tg
                        s.truths[('switch', v)] = pick
                    else:
                        nb = x.d['def']
                        for c, tg in x.d['cases']:
                            if c[1] & (1 << c[2]) - 1 == v: nb = tg
                    pred, b = b, nb; break
                if o == 'ret': return s.val(fn, env, x.a[0]) if x.a else None
                if o == 'unreachable': raise Infeasible()
                env[x.i] = s.step(fn, x, env)

    def step(s, fn, x, env):
        o = x.o
        V = lambda k: s.val(fn, env, x.a[k])
        if o == 'alloca': s.na += 1; return P(('al', s.na))
        if o == 'load': return s.load(V(0), x.d.get('sz') or (W(x.t) + 7) // 8, x)
        if o == 'store': s.store(V(1), V(0), x.d.get('sz') or 8, x); return None
        if o == 'getelementptr':
            p = s.force(V(0)); off = x.d['off']
            for st, ref in x.d['vars']:
                v = s.force(s.val(fn, env, ref))
                if not isinstance(v, int): return ('op', 'gep', p, off, st, v)
                vw = ref[2] if isinstance(ref, list) and ref[0] == 'c' else s.opw(fn, ref) if fn else 0
                if vw: v -= (1 << vw) if v >> (vw - 1) & 1 else 0
                elif v >> 63: v -= 1 << 64
                elif v >> 31 and v < 1 << 32: v -= 1 << 32
                off += st * v
            if isp(p): return P(p[1], p[2] + off)
            if isinstance(p, int): return p + off & (1 << 64) - 1
            return ('op', 'gep', p, off) if off else p
        if o == 'call': return s.call(fn, x, env)
        if o == 'select':
            c = s.force(V(0))
            if isterm(c): c = s.truth(c)
            return V(1) if c else V(2)
        if o in ('freeze', 'bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'): return V(0)
        if o == 'icmp': return s.icmp(x.d['p'], V(0), V(1), x)
        if o == 'extractvalue':
            a = V(0)
            if not (isinstance(a, tuple) and a[0] == 'st'): raise Stuck('extractvalue at %s' % x.where)
            return a[1][x.d['ix'][0]]
        a = s.force(V(0))
        if o in ('zext', 'sext', 'trunc'):
            w = W(x.t)
            if not isinstance(a, int):
                if o == 'trunc' and w == 1: return ('op', 'ne', ('op', 'and', a, 1), 0) if not (isterm(a) and a[1] == 'bool') else a
                return a if o == 'zext' and not isp(a) else ('op', o, a, w)
            if o == 'trunc': return a & (1 << w) - 1
            if o == 'sext':
                r = x.a[0]
                ow = r[2] if isinstance(r, list) else s.opw(fn, r)
                if ow and a >> (ow - 1): a -= 1 << ow
                return a & (1 << w) - 1
            return a
        b = s.force(V(1)); w = W(x.t)
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            if o in ('shl', 'lshr', 'ashr') and b >= w: return ('o', ('undef',))
            if o in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: raise Bad('divides by zero', x)
            sg = lambda v: v - (1 << w) if v >> (w - 1) else v
            f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                 'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: sg(a) >> b, 'udiv': lambda: a // b, 'urem': lambda: a % b,
                 'sdiv': lambda: abs(sg(a)) // abs(sg(b)) * (1 if (sg(a) < 0) == (sg(b) < 0) else -1), 'srem': lambda: abs(sg(a)) % abs(sg(b)) * (1 if sg(a) >= 0 else -1)}.get(o)
            if f is None: raise Stuck('%s at %s' % (o, x.where))
            return f() & m
        return s.arith(o, a, b, w, x)

    def opw(s, fn, ref):
        i = fn.by.get(ref)
        if i is not None: return W(i.t)
        if isinstance(ref, int) and ref < fn.nargs: return W(fn.args[ref][1]) if len(fn.args[ref]) > 1 and isinstance(fn.args[ref][1], str) else 0
        return 0

    def arith(s, o, a, b, w, x):
        if o in ('add', 'or', 'xor') and isinstance(b, int) and b == 0: return a
        if w == 1 and o == 'xor' and b == 1: return ('op', 'not', a) if not (a[0] == 'op' and a[1] in NEG) else ('op', NEG[a[1]]) + a[2:]
        if w == 1 and o in ('and', 'or') and isterm(a) and isterm(b): return s.truth(a) and s.truth(b) if o == 'and' else s.truth(a) or s.truth(b)
        if w == 1 and isinstance(a, int) or w == 1 and isinstance(b, int):
            c, t = (a, b) if isinstance(a, int) else (b, a)
            if o == 'and': return t if c else 0
            if o == 'or': return 1 if c else t
        if o in ('add', 'mul', 'and', 'or', 'xor') and isinstance(a, int): a, b = b, a
        if o == 'sub' and isinstance(b, int): o, b = 'add', -b & (1 << w) - 1
        if o == 'add' and isinstance(b, int) and a[0] == 'op' and a[1] == 'add' and isinstance(a[3], int):
            b = b + a[3] & (1 << w) - 1; a = a[2]
            if b == 0: return a
        return ('op', o, a, b)

    def icmp(s, p, a, b, x):
        a, b = s.force(a), s.force(b)
        if isp(a) or isp(b):
            if isp(a) and isp(b):
                if p in ('eq', 'ne'): return int((a == b) == (p == 'eq'))
                if a[1] == b[1]: return int({'ult': a[2] < b[2], 'ule': a[2] <= b[2], 'ugt': a[2] > b[2], 'uge': a[2] >= b[2]}[p])
                return ('op', p, a, b)
            o = b if isp(a) else a
            if isinstance(o, int) and p in ('eq', 'ne'): return int(p == 'ne')
            return ('op', p, a, b)
        if isinstance(a, int) and isinstance(b, int):
            w = W(x.d.get('ot') or 'i64')
            sg = lambda v: v - (1 << w) if w and v >> (w - 1) & 1 else v
            if p[0] == 's': a, b = sg(a), sg(b)
            return int({'eq': a == b, 'ne': a != b}[p] if p in ('eq', 'ne') else {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]])
        if isinstance(a, int) and p in SWAP: a, b, p = b, a, SWAP[p]
        if p in ('ne', 'eq') and isinstance(b, int) and b == 0 and isterm(a) and a[0] == 'op' and a[1] in CMPS:
            return a if p == 'ne' else ('op', NEG[a[1]]) + a[2:]
        if a == b and p in ('eq', 'ne', 'uge', 'ule', 'sge', 'sle', 'ult', 'ugt', 'slt', 'sgt'): return int(p in ('eq', 'uge', 'ule', 'sge', 'sle'))
        return ('op', p, a, b)

    def call(s, fn, x, env):
        c = x.callee
        args = [s.val(fn, env, r) for r in x.a]
        if c is None:
            t = s.force(s.val(fn, env, x.d['ind']))
            if isp(t) and t[1][0] == 'f': c = t[1][1]
            else:
                if t == 0: raise Bad('call through a null pointer', x)
                return s.outside(fn, x, t, args)
        if c.startswith('llvm.'):
            n = c.split('.')[1]
            if n in ('dbg', 'lifetime', 'assume', 'prefetch', 'experimental'): return None
            if n == 'expect': return args[0]
            if n in ('memcpy', 'memmove'): s.copy(args[0], args[1], s.force(args[2]), x); return None
            if n == 'memset': s.fill(args[0], args[1], s.force(args[2]), x); return None
            a = [s.force(v) for v in args]
            if n in ('umin', 'umax', 'smin', 'smax') and all(isinstance(v, int) for v in a[:2]): return (min if n[1:] == 'min' else max)(a[:2])
            if n in ('ctlz', 'cttz', 'ctpop', 'bswap', 'abs') and isinstance(a[0], int):
                w = W(x.t); v = a[0] & (1 << w) - 1
                if n == 'ctlz': return w - v.bit_length()
                if n == 'cttz': return (v & -v).bit_length() - 1 if v else w
                if n == 'ctpop': return bin(v).count('1')
                if n == 'bswap': return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
                return v if not v >> (w - 1) else (1 << w) - v
            if c.endswith(tuple('.i%d' % k for k in (8, 16, 32, 64))) and '.with.overflow.' in c:
                w = int(c.rsplit('.i', 1)[1])
                if not all(isinstance(v, int) for v in a[:2]): raise Stuck('checked arithmetic on a term at %s' % x.where)
                sg = (lambda v: v - (1 << w) if v >> (w - 1) & 1 else v) if n[0] == 's' else (lambda v: v)
                u, v = sg(a[0]), sg(a[1]); r = {'add': u + v, 'sub': u - v, 'mul': u * v}[n[1:]]
                return ('st', (r & (1 << w) - 1, int(sg(r & (1 << w) - 1) != r)))
            if n == 'objectsize': return (1 << W(x.t)) - 1
            return ('op', n) + tuple(a)
        g = s.find(c)
        if g is not None and not s.opaque(c): return s.run(g, args)
        if c in ('memcpy', 'memmove'): s.copy(args[0], args[1], s.force(args[2]), x); return args[0]
        if c == 'memset': s.fill(args[0], args[1], s.force(args[2]), x); return args[0]
        return s.outside(fn, x, c, args)

    def opaque(s, name): return False

    def range(s, p, n, ins, write):
        p = s.addr(p, n if isinstance(n, int) else 0, ins, write)
        if not isinstance(n, int): raise Stuck('block of unknown size at %s' % ins.where)
        return p

    def copy(s, d, q, n, ins):
        d, q = s.range(d, n, ins, True), s.range(q, n, ins, False)
        todo = {}
        for o, z in s.cells(q[1]) or []:
            if q[2] <= o and o + z <= q[2] + n: todo[o] = s.read(q[1], o, z), z
        for (ob, o), v in list(s.mem.items()):
            if ob == q[1] and q[2] <= o < q[2] + n: todo[o] = v
        if isinstance(q[1], tuple) and q[1][0] == 'g' and not todo:
            for o, z in s.cells(d[1]) or []:
                if d[2] <= o and o + z <= d[2] + n: todo[o - d[2] + q[2]] = s.read(q[1], o - d[2] + q[2], z), z
        for o, v in todo.items():
            s.mem[(d[1], o - q[2] + d[2])] = v; s.written[(d[1], o - q[2] + d[2])] = ins

    def fill(s, d, v, n, ins):
        d = s.range(d, n, ins, True); v = s.force(v)
        if v != 0: raise Stuck('fill at %s' % ins.where)
        cs = s.cells(d[1]) or [(o, z) for (ob, o), (_, z) in s.mem.items() if ob == d[1]]
        for o, z in cs:
            if d[2] <= o and o + z <= d[2] + n: s.mem[(d[1], o)] = (0, z); s.written[(d[1], o)] = ins
        if not s.cells(d[1]):
            for o in range(d[2], d[2] + n, 8): s.mem.setdefault((d[1], o), (0, 8))


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
CMPS = set(NEG)


def explore(case, limit=60000):
    """all cases: case(oracle) analyses one; yields its results.  Infeasible cases are dropped"""
    path = []
    n = 0
    while True:
        pos = [0]

        def oracle(opts):
            k = pos[0]; pos[0] += 1
            if k == len(path): path.append([0, len(opts)])
            assert path[k][1] == len(opts)
            return opts[path[k][0]]
        n += 1
        if n > limit: raise Stuck('too many shapes')
        try: yield case(oracle)
        except Infeasible: pass
        while path and path[-1][0] + 1 >= path[-1][1]: path.pop()
        if not path: return
        path[-1][0] += 1
