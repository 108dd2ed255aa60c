"""Operations on shared words under interference, on top of lazy.World: every access to a shared word observes an
arbitrary value (other threads may have changed it), a compare-and-swap may fail any number of times."""
from lazy import *
import anf


class Shared(World):
    MAXFAIL = 2

    def __init__(s, mods, oracle, shared, maxfail=None):
        super().__init__(mods, oracle); s.shared = set(shared); s.ev = []; s.nobs = 0; s.fails = 0
        if maxfail: s.MAXFAIL = maxfail

    def observe(s, key):
        s.nobs += 1
        return ('o', ('obs',) + key + (s.nobs,))

    def outside(s, fn, ins, callee, args):
        if isinstance(callee, str) and ('report' in callee or 'log' in callee): return 0
        if callee == 'asm':
            s.ev.append(('asm', None, None, None, None, ins)); return 0
        raise Stuck('call of %s at %s' % (callee, ins.where))

    def load(s, p, size, ins):
        p = s.addr(p, size, ins, False); k = (p[1], p[2])
        if p[1] in s.shared:
            v = s.observe(k)
            kind = 'read' if ins.d.get('vol') or ins.d.get('ord') else 'plain'
            s.ev.append((kind if size == 8 else 'narrow', ins.d.get('ord'), k, v, None, ins))
            return v
        return s.read(p[1], p[2], size)

    def store(s, p, v, size, ins):
        p = s.addr(p, size, ins, True)
        if p[1] in s.shared:
            at = (ins.d.get('vol') or ins.d.get('ord')) and size == 8
            s.ev.append(('write' if at else 'plainwrite', ins.d.get('ord'), (p[1], p[2]), None, s.force(v), ins)); return
        s.mem[(p[1], p[2])] = (v, size); s.written[(p[1], p[2])] = ins

    def step(s, fn, x, env):
        o = x.o
        V = lambda k: s.force(s.val(fn, env, x.a[k]))
        if o == 'atomicrmw':
            p = s.addr(V(0), 8, x, True); k = (p[1], p[2]); v = V(1); op = x.d['rmw']
            if W(x.t) not in (64,): raise Stuck('atomic operation of another width at %s' % x.where)
            if p[1] not in s.shared: raise Stuck('atomic operation on a private word at %s' % x.where)
            ob = s.observe(k)
            if op == 'xchg': new = v
            elif op in ('add', 'sub', 'and', 'or', 'xor'): new = s.arith(op, ob, v, 64, x)
            elif op == 'nand': new = ('op', 'xor', ('op', 'and', ob, v), (1 << 64) - 1)
            else: raise Stuck('atomic %s at %s' % (op, x.where))
            s.ev.append(('rmw', x.d['ord'], k, ob, new, x))
            return ob
        if o == 'cmpxchg':
            p = s.addr(V(0), 8, x, True); k = (p[1], p[2]); e, n = V(1), V(2)
            if p[1] not in s.shared: raise Stuck('compare-and-swap on a private word at %s' % x.where)
            opts = [True] + ([False] if s.fails < s.MAXFAIL else []) + (['weak'] if x.d.get('weak') and s.fails < s.MAXFAIL else [])
            c = s.choose(opts)
            if c is True:
                s.ev.append(('rmw', x.d['ord'], k, e, n, x)); return ('agg', e, 1)
            s.fails += 1
            if c == 'weak': s.ev.append(('spurious', x.d['ord'], k, e, None, x)); return ('agg', e, 0)
            ob = s.observe(k)
            if ob == e: raise Infeasible()
            s.truths[('op', 'eq', ob, e)] = False; s.truths[('op', 'eq', e, ob)] = False
            s.ev.append(('read', x.d.get('ford'), k, ob, None, x))
            return ('agg', ob, 0)
        if o == 'extractvalue':
            a = s.val(fn, env, x.a[0])
            if a[0] == 'agg': return a[1 + x.d['ix'][0]]
            raise Stuck('aggregate at %s' % x.where)
        if o == 'fence': s.ev.append(('fence', x.d.get('ord'), None, None, None, x)); return None
        return super().step(fn, x, env)


def conv(D, t, w=64):
    """term as bits"""
    if isinstance(t, bool): t = int(t)
    if isinstance(t, int): return D.const(t & (1 << w) - 1, w)
    if isp(t): return D.add(D.atom(('ext', 'addr', t[1]), 64), D.const(t[2] & (1 << 64) - 1, 64))[:w]
    if isz(t) or t[0] == 'o': return D.atom(('ext', repr(t)), 64)[:w]
    o = t[1]
    if o in CMPS:
        return (D.cmp(o, conv(D, t[2]), conv(D, t[3])),) + (anf.ZERO,) * (w - 1)
    if o == 'not': return (anf.pnot(conv(D, t[2], 1)[0]),) + (anf.ZERO,) * (w - 1)
    f = {'add': D.add, 'sub': D.sub, 'and': D.band, 'or': D.bor, 'xor': D.bxor}.get(o)
    if f: return f(conv(D, t[2], w), conv(D, t[3], w))
    if o == 'mul': return D.mulw(conv(D, t[2], w), conv(D, t[3], w))
    if o in ('shl', 'lshr') and isinstance(t[3], int): return getattr(D, o)(conv(D, t[2], w), t[3])
    if o == 'gep' and len(t) == 4: return D.add(conv(D, t[2], w), D.const(t[3] & (1 << 64) - 1, 64)[:w])
    raise Stuck('term %s' % (t,))


def condition(D, s):
    """what the path assumed, as one bit"""
    c = anf.ONE
    for t, v in s.truths.items():
        if t[0] != 'op' or t[1] == 'switch': continue
        b = conv(D, t, 1)[0]
        c = anf.mul(c, b if v else anf.pnot(b))
    return c
