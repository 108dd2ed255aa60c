"""Path sensitive forward dataflow over the IR with an access path (symbolic heap) domain.

Values are interned tuples naming access paths relative to the function's inputs; loop headers are
widened (phis and memory the loop may write become fresh names), so every loop body is analysed once
from an arbitrary iteration.  There is no solver: branch feasibility is decided only from constants
and from the nullness / interval / comparison facts recorded at earlier branches.
States reaching the same block are joined unless they differ in typestate or in a live phi constant.
"""
import heapq, time
from ir import *

_tab = {}


class V(tuple):
    """interned value; identity equality"""
    __slots__ = ()
    __hash__ = object.__hash__

    def __eq__(s, o):
        return s is o

    def __ne__(s, o):
        return s is not o


_meta = {}


def mk(*t):
    v = _tab.get(t)
    if v is None:
        v = V(t)
        _tab[t] = v
        d = 0; syms = frozenset()
        for x in t[1:]:
            if isinstance(x, V):
                m = _meta[x]
                d = max(d, m[0]); syms |= m[1]
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, V):
                                m = _meta[z]; d = max(d, m[0]); syms |= m[1]
                    if isinstance(y, V):
                        m = _meta[y]; d = max(d, m[0]); syms |= m[1]
        if t[0] in ('call', 'ins', 'phi', 'join', 'joinm', 'arg', 'old', 'tag', 'sym', 'al', 'undef'):
            syms |= {v}
        _meta[v] = (d + 1, syms, len(_tab))
    return v


def depth(v):
    return _meta[v][0]


def syms(v):
    return _meta[v][1]


def order(v):
    return _meta[v][2]


def C(v):
    return mk('int', v)


NULL = C(0)
ONE = C(1)


def isint(v):
    return v[0] == 'int'


def ptradd(b, off):
    if off == 0:
        return b
    if b[0] == 'ptr':
        o = b[2] + off
        return b[1] if o == 0 else mk('ptr', b[1], o)
    if b[0] == 'gv':
        return mk('gv', b[1], b[2] + off)
    if b[0] == 'int':
        return C(b[1] + off)
    return mk('ptr', b, off)


def split(p):
    """pointer value -> (base, constant offset)"""
    if p[0] == 'ptr':
        return p[1], p[2]
    if p[0] == 'gv':
        return mk('gv', p[1], 0), p[2]
    return p, 0


def root(v):
    """the origin symbol an access path starts at"""
    while v[0] in ('ptr', 'idx', 'ld', 'old'):
        v = v[1]
    return v


def contains(v, s):
    if v is s:
        return True
    for x in v[1:]:
        if isinstance(x, V):
            if contains(x, s):
                return True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V) and contains(y, s):
                    return True
                if isinstance(y, tuple) and not isinstance(y, V) and any(isinstance(z, V) and contains(z, s) for z in y):
                    return True
    return False


def subst(v, m, memo=None):
    """replace sub-values"""
    if v in m:
        return m[v]
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is not None:
        return r

    def sub(x):
        if isinstance(x, V):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return x
    n = tuple(sub(x) if isinstance(x, tuple) else x for x in v)
    if n == tuple(v):
        r = v
    elif n[0] == 'ptr':
        r = ptradd(n[1], n[2])
    else:
        r = mk(*n)
    memo[v] = r
    return r


def show(v, names=None, d=0):
    if not isinstance(v, tuple):
        return str(v)
    if d > 6:
        return '..'
    k = v[0]
    S = lambda x: show(x, names, d + 1)
    if k == 'arg': return names[v[1]] if names and v[1] < len(names) else 'arg%d' % v[1]
    if k == 'int': return str(v[1]) if v[1] else '0'
    if k == 'ptr': return '%s+%d' % (S(v[1]), v[2])
    if k == 'ld': return '*(%s)' % S(v[1])
    if k == 'gv': return '&%s+%d' % (v[1], v[2]) if v[2] else '&' + v[1]
    if k == 'fn': return v[1]
    if k == 'call': return 'ret#%s' % (v[1],)
    if k == 'al': return 'local#%s' % (v[1],)
    if k == 'idx': return '%s[%s]' % (S(v[1]), ','.join('%d*%s' % (a, S(b)) for a, b in v[2]))
    if k == 'cmp': return '(%s %s %s)' % (S(v[2]), v[1], S(v[3]))
    if k == 'op': return '%s(%s)' % (v[1], ','.join(S(x) for x in v[3:]))
    if k in ('zext', 'sext', 'trunc'): return S(v[2])
    if k == 'not': return '!' + S(v[1])
    return '%s%s' % (k, ''.join('#' + S(x) for x in v[1:]))


def width(t):
    return int(t[1:]) if t[:1] == 'i' and t[1:].isdigit() else 64


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v


def ux(v, w):
    return v & ((1 << w) - 1)


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
NONNULL_ROOT = ('al', 'gv', 'fn')
FALSEF = (None, None, False)


class Mem:
    __slots__ = ('v', 'sz', 'dirty')

    def __init__(s, v, sz, dirty):
        s.v = v; s.sz = sz; s.dirty = dirty

    def __eq__(s, o):
        return s.v is o.v and s.sz == o.sz and s.dirty == o.dirty


class State:
    __slots__ = ('env', 'mem', 'facts', 'ep', 'ep0', 'ts', 'trace')

    def __init__(s):
        s.env = {}; s.mem = {}; s.facts = {}; s.ep = {}; s.ep0 = 0; s.ts = {}; s.trace = None

    def copy(s):
        n = State(); n.env = dict(s.env); n.mem = dict(s.mem); n.facts = dict(s.facts); n.ep = dict(s.ep); n.ep0 = s.ep0; n.ts = dict(s.ts); n.trace = s.trace
        return n


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class Flow:
    """subclass and override the hooks; ts is the typestate dictionary (hashable values)"""
    merge = True            # join states that agree on key(); otherwise fully path sensitive (acyclic code)
    max_states = 20000
    max_secs = 60
    fork_alias = False      # case split on may-alias (shape analyses)
    unify = False           # substitute equal pointers
    phiconst = True         # keep states with different live phi constants apart

    def __init__(self, fn):
        self.fn = fn; self.mod = fn.mod; self.reports = []; self.exits = []; self.nstates = 0

    # ---- hooks
    def init(s, st): pass

    def on_call(s, st, ins, callee, args): return None

    def on_load(s, st, ins, addr): pass

    def on_store(s, st, ins, addr, val): pass

    def on_mem(s, st, ins, cal, args): pass

    def on_ret(s, st, ins, val): pass

    def on_branch(s, st, ins, cond, truth): pass

    def on_phi(s, st, ins, sym, val): pass

    def on_edge(s, st, frm, to): pass

    def on_backedge(s, st, h): pass

    def rename_ts(s, st, f): pass

    def key(s, st):
        return frozenset(st.ts.items())

    def call_havoc(s, st, ins, callee, args):
        """True when the call may write memory reachable by the caller; or a list of address values written"""
        return False

    def rw(s, st, v, ty): return v

    def distinct(s, st, a, b): return False

    # ---- values
    def val(s, st, r):
        if isinstance(r, int):
            if r < s.fn.nargs:
                return mk('arg', r)
            v = st.env.get(r)
            return v if v is not None else mk('ins', r)
        k = r[0]
        if k == 'c': return C(r[1])
        if k == 'n' or k == 'z': return NULL
        if k == 'g': return mk('gv', r[1], r[2])
        if k == 'f': return mk('fn', r[1])
        if k == 'u': return mk('undef', 'c')
        if k == 'fp': return mk('fp', r[1])
        if k == 'ce':
            if r[1] == 'gep':
                return ptradd(s.val(st, r[2][0]), r[2][1])
            if r[1] in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'):
                return s.val(st, r[2][0])
            return mk('op', r[1], 'ce', *[s.val(st, x) for x in r[2]])
        return mk('?', str(r))

    def binop(s, o, t, a, b):
        w = width(t)
        if isint(a) and isint(b):
            x, y = a[1], b[1]
            if o == 'add': return C(sx(x + y, w))
            if o == 'sub': return C(sx(x - y, w))
            if o == 'mul': return C(sx(x * y, w))
            if o == 'and': return C(sx(x & y, w)) if w > 1 else C(x & y & 1)
            if o == 'or': return C(sx(x | y, w)) if w > 1 else C((x | y) & 1)
            if o == 'xor': return C(sx(x ^ y, w)) if w > 1 else C((x ^ y) & 1)
            if o in ('shl', 'lshr', 'ashr'):
                y = ux(y, w)
                if y >= w: return mk('undef', 'sh')
                if o == 'shl': return C(sx(x << y, w))
                if o == 'lshr': return C(sx(ux(x, w) >> y, w))
                return C(sx(x, w) >> y)
            if o == 'udiv' and y: return C(sx(ux(x, w) // ux(y, w), w))
            if o == 'urem' and y: return C(sx(ux(x, w) % ux(y, w), w))
            if o == 'sdiv' and y: return C((abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1))
            if o == 'srem' and y: return C(x - y * (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1))
        if isint(b) and b[1] == 0 and o in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if isint(a) and a[1] == 0 and o in ('add', 'or', 'xor'): return b
        if isint(b) and b[1] == 1 and o in ('mul', 'udiv', 'sdiv'): return a
        if isint(a) and a[1] == 1 and o == 'mul': return b
        if (isint(b) and b[1] == 0 or isint(a) and a[1] == 0) and o in ('mul', 'and'): return C(0)
        if a is b and o in ('sub', 'xor'): return C(0)
        if a is b and o in ('and', 'or'): return a
        if o == 'and' and isint(b) and b[1] == -1: return a
        if o == 'and' and isint(a) and a[1] == -1: return b
        if o == 'sub' and isint(b):
            o, b = 'add', C(sx(-b[1], w))
        if o == 'add' and isint(a) and not isint(b):
            a, b = b, a
        if o == 'add' and isint(b) and a[0] == 'op' and a[1] == 'add' and a[2] == t and isint(a[4]):
            return s.binop('add', t, a[3], C(sx(a[4][1] + b[1], w)))
        if o == 'add' and isint(b) and t == 'i64' and a[0] == 'ptr':
            return ptradd(a, b[1])
        if o == 'sub' and t == 'i64':
            (ba, oa), (bb, ob) = split(a), split(b)
            if ba is bb and a[0] != 'idx':
                return C(oa - ob)
        if o == 'sub' and a[0] == 'op' and a[1] == 'add' and a[2] == t:
            if a[3] is b: return a[4]
            if a[4] is b: return a[3]
        if o in ('add', 'mul', 'and', 'or', 'xor') and not isint(b) and (isint(a) or order(a) > order(b)):
            a, b = b, a
        if o == 'add' and a[0] == 'op' and a[1] == 'sub' and a[4] is b: return a[3]
        if o == 'add' and b[0] == 'op' and b[1] == 'sub' and b[4] is a: return b[3]
        if t == 'i1' and o == 'and' and isint(b): return a if b[1] & 1 else C(0)
        return mk('op', o, t, a, b)

    # ---- facts: value -> (lo, hi, nonzero) over signed integers (pointers: 0 is null)
    def fact(s, st, v):
        if isint(v):
            return (v[1], v[1], v[1] != 0)
        f = st.facts.get(v)
        if f is not None:
            return f
        k = v[0]
        if k in NONNULL_ROOT:
            return (None, None, True)
        if k == 'ptr' or k == 'idx':
            b = v[1]
            if b[0] in NONNULL_ROOT or s.fact(st, b)[2]:
                return (None, None, True)
            if k == 'ptr' and 0 < v[2]:
                return (None, None, True)   # member of an object: non-null by construction
        if k == 'zext':
            g = s.fact(st, v[2])
            if g[0] is not None and g[0] >= 0: return (g[0], g[1], g[2])
            return (0, (1 << v[1]) - 1, g[2])
        if k == 'sext':
            return s.fact(st, v[2])
        return FALSEF

    def setfact(s, st, v, lo=None, hi=None, nz=False):
        """intersect; returns False if contradictory"""
        a, b, n = s.fact(st, v)
        if lo is not None: a = lo if a is None else max(a, lo)
        if hi is not None: b = hi if b is None else min(b, hi)
        n = n or nz
        if n and a == 0: a = 1
        if n and b == 0: b = -1
        if a is not None and b is not None and a > b:
            return False
        if (a is not None and a > 0) or (b is not None and b < 0): n = True
        if isint(v):
            return not (n and v[1] == 0)
        st.facts[v] = (a, b, n)
        if v[0] in ('zext', 'sext'):
            if a == 0 and b == 0: return s.setfact(st, v[2], 0, 0)
            if n: return s.setfact(st, v[2], nz=True)
        if v[0] == 'cmp':
            if a == 0 and b == 0: return s.assume(st, v, False)
            if n: return s.assume(st, v, True)
        return True

    def norm_cmp(s, st, p, a, b):
        if isint(a) and not isint(b):
            a, b, p = b, a, SWAP[p]
        while p in ('eq', 'ne') and isint(b) and b[1] == 0 and a[0] in ('zext', 'sext'):
            a = a[2]
        if p in ('eq', 'ne') and isint(b) and b[1] == 0:
            if a[0] == 'op' and a[1] in ('sub', 'xor'):
                a, b = a[3], a[4]
        if p in ('eq', 'ne') and isint(b) and a[0] == 'op' and a[1] == 'add' and isint(a[4]) and a[2] == 'i64':
            b = C(sx(b[1] - a[4][1], 64)); a = a[3]
        if not isint(a) and not isint(b) and order(a) > order(b):
            a, b, p = b, a, SWAP[p]
        return p, a, b

    def eval_cmp(s, st, p, a, b, w=64):
        p, a, b = s.norm_cmp(st, p, a, b)
        if isint(a) and isint(b):
            x, y = a[1], b[1]
            if p[0] == 'u': x, y = ux(x, w), ux(y, w)
            q = p if p in ('eq', 'ne') else p[1:]
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]
        if a is b:
            return p in ('eq', 'sle', 'sge', 'ule', 'uge')
        if isint(b) and a[0] in ('cmp', 'not') and p in ('eq', 'ne'):
            t = s.truth(st, a)
            if t is not None:
                return (int(t) == b[1] & 1) == (p == 'eq')
        lo, hi, nz = s.fact(st, a)
        if isint(b):
            y = b[1]
            if lo is not None and lo == hi:
                return s.eval_cmp(st, p, C(lo), b, w)
            if p in ('eq', 'ne'):
                if y == 0 and nz or lo is not None and lo > y or hi is not None and hi < y:
                    return p == 'ne'
            elif p[0] == 's':
                r = cmpint(p[1:], lo, hi, y)
                if r is not None: return r
            else:
                if y == 0:
                    if p == 'ult': return False
                    if p == 'uge': return True
                    if p == 'ugt': return s.eval_cmp(st, 'ne', a, b, w)
                    if p == 'ule': return s.eval_cmp(st, 'eq', a, b, w)
                if lo is not None and lo >= 0 and hi is not None and y >= 0:
                    r = cmpint(p[1:], lo, hi, y)
                    if r is not None: return r
        elif p in ('eq', 'ne'):
            fb = s.fact(st, b)
            if (lo == 0 and hi == 0 and fb[2]) or (nz and fb[0] == 0 and fb[1] == 0):
                return p == 'ne'
            (ba, oa), (bb, ob) = split(a), split(b)
            if ba[0] in NONNULL_ROOT and bb[0] in NONNULL_ROOT and ba is not bb:
                return p == 'ne'
            if ba is bb and oa != ob:
                return p == 'ne'
            if oa == ob and ba is not bb and (oa or 1):
                f = st.facts.get(s.cmpkey('ne', ba, bb))
                if f is not None and oa == ob:
                    return (p == 'ne') == (f[0] == 1)
            if s.distinct(st, a, b):
                return p == 'ne'
        f = st.facts.get(mk('cmp', p, a, b))
        if f is not None:
            return f[0] == 1
        if not isint(b):
            for q, r in IMPL.get(p, ()):
                f = st.facts.get(mk('cmp', q, a, b))
                if f is not None and f[0] == 1:
                    return r
        return None

    def cmpkey(s, p, a, b):
        if order(a) > order(b):
            a, b, p = b, a, SWAP[p]
        return mk('cmp', p, a, b)

    def truth(s, st, v):
        if isint(v):
            return bool(v[1])
        if v[0] == 'cmp':
            return s.eval_cmp(st, v[1], v[2], v[3])
        if v[0] == 'not':
            t = s.truth(st, v[1])
            return None if t is None else not t
        if v[0] == 'zext' and v[1] == 1:
            return s.truth(st, v[2])
        if v[0] == 'op' and v[2] == 'i1' and v[1] in ('and', 'or'):
            x, y = s.truth(st, v[3]), s.truth(st, v[4])
            if v[1] == 'and':
                if x is False or y is False: return False
                if x and y: return True
            else:
                if x or y: return True
                if x is False and y is False: return False
            return None
        lo, hi, nz = s.fact(st, v)
        if nz: return True
        if lo == 0 and hi == 0: return False
        return None

    def assume(s, st, v, t):
        """add v == t (truth value); False if infeasible"""
        if isint(v):
            return bool(v[1]) == t
        if v[0] == 'not':
            return s.assume(st, v[1], not t)
        if v[0] == 'zext' and v[1] == 1:
            return s.assume(st, v[2], t)
        if v[0] == 'op' and v[2] == 'i1':
            if v[1] == 'and' and t: return s.assume(st, v[3], True) and s.assume(st, v[4], True)
            if v[1] == 'or' and not t: return s.assume(st, v[3], False) and s.assume(st, v[4], False)
        if v[0] == 'cmp':
            p, a, b = v[1], v[2], v[3]
            if not t:
                p = NEG[p]
            p, a, b = s.norm_cmp(st, p, a, b)
            r = s.eval_cmp(st, p, a, b)
            if r is False:
                return False
            ok = True
            if isint(b):
                y = b[1]
                if p in ('eq', 'ne') and a[0] in ('cmp', 'not') and y in (0, 1, -1):
                    ok = s.assume(st, a, bool(y) == (p == 'eq'))
                elif p == 'eq': ok = s.setfact(st, a, y, y)
                elif p == 'ne':
                    if y == 0: ok = s.setfact(st, a, nz=True)
                    else:
                        lo, hi, nz = s.fact(st, a)
                        if lo == y: ok = s.setfact(st, a, y + 1)
                        elif hi == y: ok = s.setfact(st, a, None, y - 1)
                elif p == 'slt': ok = s.setfact(st, a, None, y - 1)
                elif p == 'sle': ok = s.setfact(st, a, None, y)
                elif p == 'sgt': ok = s.setfact(st, a, y + 1)
                elif p == 'sge': ok = s.setfact(st, a, y)
                elif p == 'ugt' and y >= 0: ok = s.setfact(st, a, nz=True)
                elif p == 'uge' and y > 0: ok = s.setfact(st, a, nz=True)
                elif p == 'ult' and y > 0 and y < (1 << 62): ok = s.setfact(st, a, 0, y - 1)
                elif p == 'ule' and 0 <= y < (1 << 62): ok = s.setfact(st, a, 0, y)
            else:
                if p == 'eq':
                    fa, fb = s.fact(st, a), s.fact(st, b)
                    if fa[2]: ok = s.setfact(st, b, nz=True)
                    if fb[2]: ok = ok and s.setfact(st, a, nz=True)
                    if fa[0] == 0 and fa[1] == 0: ok = ok and s.setfact(st, b, 0, 0)
                    if fb[0] == 0 and fb[1] == 0: ok = ok and s.setfact(st, a, 0, 0)
                if p == 'ugt': ok = s.setfact(st, a, nz=True)
                if p == 'ult': ok = s.setfact(st, b, nz=True)
            if not ok:
                return False
            if not (isint(b) and b[1] == 0 and p in ('eq', 'ne')):
                st.facts[mk('cmp', p, a, b)] = (1, 1, True)
                st.facts[mk('cmp', NEG[p], a, b)] = (0, 0, False)
            if s.unify and p == 'eq' and not isint(b):
                return s.do_unify(st, a, b)
            return True
        tv = s.truth(st, v)
        if tv is not None and tv != t:
            return False
        return s.setfact(st, v, nz=True) if t else s.setfact(st, v, 0, 0)

    def do_unify(s, st, a, b):
        (ba, oa), (bb, ob) = split(a), split(b)
        # choose which one to keep: prefer arguments/locals, then the simpler path
        if s.rank(a) <= s.rank(b):
            keep, drop = a, b
        else:
            keep, drop = b, a
        if drop[0] == 'ptr':
            keep, drop = ptradd(keep, -drop[2]), drop[1]
        if drop[0] in ('arg', 'al', 'gv', 'int') or contains(keep, drop):
            return True
        m = {drop: keep}
        memo = {}
        f = lambda v: subst(v, m, memo)
        fd = st.facts.get(drop)
        return s.apply_subst(st, f) and (fd is None or s.setfact(st, keep, fd[0], fd[1], fd[2]))

    def rank(s, v):
        return (0 if v[0] in ('gv', 'al') else 1 if v[0] == 'arg' else 2, depth(v), order(v))

    def apply_subst(s, st, f):
        st.env = {k: f(v) for k, v in st.env.items()}
        mem = {}
        for k, m in st.mem.items():
            k2 = f(k)
            n = Mem(f(m.v), m.sz, m.dirty)
            if k2 in mem:
                o = mem[k2]
                if o.dirty and not n.dirty: continue
                if not o.dirty and not n.dirty and o.v is not n.v:
                    mem[k2] = o
                    if not s.eqvals(st, o.v, n.v): return False
                    continue
            mem[k2] = n
        st.mem = mem
        facts = {}
        for k, v in st.facts.items():
            k2 = f(k)
            if k2 is not k and k2[0] == 'cmp':
                t = None
                if k2[2] is k2[3]:
                    t = k2[1] in ('eq', 'sle', 'sge', 'ule', 'uge')
                if t is not None:
                    if t != (v[0] == 1): return False
                    continue
                k2 = s.cmpkey(k2[1], k2[2], k2[3]) if not isint(k2[3]) else k2
            facts[k2] = v
        st.facts = facts
        s.rename_ts(st, f)
        return True

    def eqvals(s, st, a, b):
        return s.assume(st, mk('cmp', 'eq', a, b), True) if not (isint(a) and isint(b)) else a is b

    # ---- memory
    def may_alias(s, st, a, b):
        """two different address values that may denote the same cell"""
        (ba, oa), (bb, ob) = split(a), split(b)
        if ba is bb:
            return False                      # overlap of constant offsets is handled separately
        ra, rb = root(ba), root(bb)
        for x, y in ((ba, bb), (bb, ba)):
            if x[0] == 'al' and not s.escaped(st, x):
                if y[0] != 'idx' or root(y) is not x:
                    return False
        if ba[0] in NONNULL_ROOT and bb[0] in NONNULL_ROOT:
            return False
        if ba[0] == 'idx' or bb[0] == 'idx':
            pa = ba[1] if ba[0] == 'idx' else ba
            pb = bb[1] if bb[0] == 'idx' else bb
            (qa, _), (qb, _) = split(pa), split(pb)
            if qa is qb:
                return True
            if s.distinct(st, qa, qb):
                return False
            return True
        if oa != ob:
            return False
        f = st.facts.get(s.cmpkey('eq', ba, bb))
        if f is not None and f[0] == 0:
            return False
        f = st.facts.get(s.cmpkey('ne', ba, bb))
        if f is not None and f[0] == 1:
            return False
        if s.distinct(st, ba, bb):
            return False
        return True

    def escaped(s, st, al):
        c = s.__dict__.setdefault('_esc', {})
        r = c.get(al)
        if r is None:
            r = c[al] = alloca_escapes(s.fn, al[1])
        return r

    def load(s, st, ins, addr, ty):
        sz = ins.d.get('sz', 8)
        m = st.mem.get(addr)
        if m is not None and m.sz == sz:
            return m.v
        b, off = split(addr)
        if m is not None:
            return mk('ins', ins.i)
        for k, e in st.mem.items():
            if e.dirty and split(k)[0] is b:
                ko = split(k)[1]
                if ko < off + sz and off < ko + e.sz:
                    return mk('ins', ins.i)
        if b[0] == 'al' and not s.escaped(st, b):
            return mk('undef', ins.i)
        tag = st.ep.get('idx' if b[0] == 'idx' else off, st.ep0)
        if tag != 0:
            tag = mk('tag', *tag)
        v = mk('ld', addr, tag)
        if sz != 8:
            v = mk('ld', addr, tag, sz)
        v = s.rw(st, v, ty)
        st.mem[addr] = Mem(v, sz, False)
        return v

    def store(s, st, ins, addr, val):
        sz = ins.d.get('sz', 8)
        s.kill(st, ins, addr, sz)
        st.mem[addr] = Mem(val, sz, True)

    def kill(s, st, ins, addr, sz):
        b, o = split(addr)
        amb = False
        for k in list(st.mem):
            if k is addr: continue
            kb, ko = split(k)
            if kb is b:
                if ko < o + sz and o < ko + st.mem[k].sz:
                    del st.mem[k]
            elif s.may_alias(st, addr, k):
                del st.mem[k]
        if not (b[0] == 'al' and not s.escaped(st, b)):
            st.ep[('idx' if b[0] == 'idx' else o)] = ('s', ins.i)
            if b[0] == 'idx' or s.fn.by.get(ins.i) is None:
                st.ep0 = ('s', ins.i); st.ep = {}

    def havoc(s, st, tag, keep=lambda k: False):
        for k in list(st.mem):
            b = split(k)[0]
            if b[0] == 'idx': b = split(b[1])[0]
            if b[0] == 'al' and not s.escaped(st, b) or keep(k):
                continue
            del st.mem[k]
        st.ep = {}
        st.ep0 = tag

    def loop_writes(s, h):
        """None if the loop may write anything, else list of store-like instructions"""
        c = s.__dict__.setdefault('_lw', {})
        if h in c:
            return c[h]
        r = []
        for b in s.fn.loops.get(h, ()):
            for x in s.fn.blocks[b]:
                if x.o in ('store', 'atomicrmw', 'cmpxchg'):
                    r.append(x)
                elif x.o == 'call':
                    if x.callee and x.callee.startswith('llvm.') and not x.callee.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                        continue
                    if s.call_havoc(None, x, x.callee, None) is not False or (x.callee or '').startswith('llvm.'):
                        c[h] = None
                        return None
        c[h] = r
        return r

    def loop_ids(s, h):
        c = s.__dict__.setdefault('_li', {})
        r = c.get(h)
        if r is None:
            r = c[h] = {x.i for b in s.fn.loops[h] for x in s.fn.blocks[b]}
        return r

    def widen(s, st, h):
        ids = s.loop_ids(h)
        w = s.loop_writes(h)
        if w is None:
            # locals whose address is passed to a call may change as well; non escaping locals survive unless stored to
            s.havoc(st, ('l', h))
            w = [x for b in s.fn.loops[h] for x in s.fn.blocks[b] if x.o in ('store', 'atomicrmw', 'cmpxchg')]
            full = True
        else:
            full = False
        # optimistic fixpoint: addresses of the loop's stores are evaluated in the surviving memory
        ch = True
        while ch:
            ch = False
            for x in w:
                a = s.loop_eval(st, x.a[1] if x.o == 'store' else x.a[0], h)
                sz = x.d.get('sz', 8)
                ab, ao = split(a)
                for k in list(st.mem):
                    if k is a:
                        hit = True
                    else:
                        kb, ko = split(k)
                        if kb is ab:
                            hit = ko < ao + sz and ao < ko + st.mem[k].sz
                        else:
                            hit = s.may_alias(st, a, k)
                    if hit:
                        del st.mem[k]; ch = True
        for x in w:
            if full: break
            a = s.loop_eval(st, x.a[1] if x.o == 'store' else x.a[0], h)
            ab, ao = split(a)
            bb = split(ab[1])[0] if ab[0] == 'idx' else ab
            if bb[0] == 'al' and not s.escaped(st, bb):
                continue
            if ab[0] == 'idx' or root(ab)[0] in ('phi', 'ins'):
                if ab[0] == 'idx': st.ep['idx'] = ('l', h)
                else: st.ep0 = ('l', h); st.ep = {}
            else:
                st.ep[ao] = ('l', h)

    def loop_eval(s, st, r, h, d=0):
        """value of an address inside the loop, with everything the loop computes itself left symbolic"""
        if not isinstance(r, int) or r < s.fn.nargs:
            return s.val(st, r)
        ids = s.loop_ids(h)
        if r not in ids:
            return s.val(st, r)
        x = s.fn.by[r]
        if d > 10:
            return mk('ins', r)
        if x.o == 'getelementptr':
            p = s.loop_eval(st, x.a[0], h, d + 1)
            off = x.d['off']
            if x.d['vars']:
                if p[0] == 'ptr': off += p[2]; p = p[1]
                if p[0] == 'gv': off += p[2]; p = mk('gv', p[1], 0)
                if p[0] == 'idx': p = p[1]
                if p[0] == 'ptr': off += p[2]; p = p[1]
                p = mk('idx', p, tuple((sc, mk('ins', v) if isinstance(v, int) else s.val(st, v)) for sc, v in x.d['vars']))
            return ptradd(p, off)
        if x.o in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            return s.loop_eval(st, x.a[0], h, d + 1)
        if x.o == 'load':
            a = s.loop_eval(st, x.a[0], h, d + 1)
            m = st.mem.get(a)
            if m is not None: return m.v
            return mk('ld', a, mk('tag', 'l', h)) if depth(a) < 10 and root(a)[0] not in ('phi', 'ins') else mk('ins', r)
        if x.o == 'alloca': return mk('al', r)
        if x.o == 'call': return mk('call', r)
        if x.o == 'phi':
            return mk('phi', r)
        return mk('ins', r)

    def rename_loop(s, st, h):
        """symbols created by the loop body now denote a previous iteration"""
        ids = s.loop_ids(h)
        m = {}

        def collect(v):
            for y in syms(v):
                if y[0] in ('call', 'ins', 'phi', 'undef') and len(y) > 1 and y[1] in ids or y[0] == 'join' and y[2] in ids or y[0] == 'joinm' and y[1] in s.fn.loops[h] or \
                        y[0] == 'tag' and (y[2] in ids if y[1] in ('s', 'c') else y[2] in s.fn.loops[h]):
                    m[y] = mk('old', y)
        for v in st.env.values(): collect(v)
        for k, e in st.mem.items(): collect(k); collect(e.v)
        for v in st.facts: collect(v)
        s.rename_ts(st, lambda v: (collect(v), v)[1])
        # ('old', x) stays ('old', x)
        if m:
            for y in list(m):
                m[m[y]] = m[y]
            memo = {}
            f = lambda v: subst(v, m, memo)
            # facts about loop symbols are only kept for values the typestate tracks
            live = set()
            s.rename_ts(st, lambda v: (live.update(syms(v)), v)[1])
            st.facts = {k: v for k, v in st.facts.items() if not any(y in m and y not in live for y in syms(k))}
            s.apply_subst(st, f)
            st.facts = {k: v for k, v in st.facts.items() if not any(y[0] == 'old' for y in syms(k)) or k[0] in ('old',)}

    # ---- engine
    def run(s):
        fn = s.fn
        st = State(); s.init(st)
        live = fn.live()
        seen = {}; reruns = {}
        cnt = 0
        heap = [(fn.rpon[0], 0, 0, None, st)]
        t0 = time.time()
        while heap:
            _, _, b, frm, st = heapq.heappop(heap)
            group = [(frm, st)]
            if s.merge:
                while heap and heap[0][2] == b:
                    _, _, _, f2, st2 = heapq.heappop(heap)
                    group.append((f2, st2))
            outs = {}
            for f, x in group:
                try:
                    y = s.enter(b, f, x)
                except Infeasible:
                    continue
                if y is None:
                    continue
                li = live[b]
                y.env = {k: v for k, v in y.env.items() if k in li or fn.by[k].bb == b}
                if s.merge:
                    k = (s.key(y), s.constkey(y, b, live))
                    outs[k] = s.join(b, outs[k], y) if k in outs else y
                else:
                    outs[len(outs)] = y
            for k, y in outs.items():
                if b in fn.heads:
                    hk = (b, k if s.merge else s.key(y))
                    old = seen.get(hk)
                    if old is not None:
                        if not s.merge:
                            continue
                        y = s.join(b, old.copy(), y)
                        if s.same(old, y):
                            continue
                        reruns[hk] = reruns.get(hk, 0) + 1
                        if reruns[hk] > 3:
                            y.facts = {a: c for a, c in y.facts.items() if old.facts.get(a) == c and not syms(a) - s.stable}
                            if reruns[hk] > 6:
                                y.facts = {}
                                y.mem = {}
                                y.ep = {}; y.ep0 = ('l', b)
                            if reruns[hk] > 8:
                                continue
                    seen[hk] = y.copy()
                s.nstates += 1
                if s.nstates > s.max_states or (s.nstates & 63) == 0 and time.time() - t0 > s.max_secs:
                    raise Budget('%s: more than %d states' % (fn.name, s.nstates))
                for tb, z in s.block(b, y):
                    cnt += 1
                    heapq.heappush(heap, (fn.rpon[tb], cnt, tb, b, z))
        return s

    @property
    def stable(s):
        r = s.__dict__.get('_stable')
        if r is None:
            r = s._stable = {mk('arg', i) for i in range(s.fn.nargs)}
        return r

    def same(s, a, b):
        return a.facts == b.facts and a.mem == b.mem and a.ep == b.ep and a.ep0 == b.ep0 and \
            all(b.env.get(k) is v for k, v in a.env.items())

    def constkey(s, st, b, live):
        if not s.phiconst:
            return None
        fn = s.fn
        r = []
        for i in live.get(b, ()):
            if i < fn.nargs: continue
            v = st.env.get(i)
            if v is not None and (v[0] == 'int' or v[0] == 'cmp' and False) and fn.by[i].o == 'phi':
                r.append((i, v))
        for x in fn.blocks[b]:
            if x.o != 'phi': break
            v = st.env.get(x.i)
            if v is not None and v[0] == 'int':
                r.append((x.i, v))
        if len(r) > 12:
            r = [z for z in r if -4096 < z[1][1] <= 1]
        return frozenset(r)

    def joinfact(s, v, w):
        lo = None if v[0] is None or w[0] is None else min(v[0], w[0])
        hi = None if v[1] is None or w[1] is None else max(v[1], w[1])
        return (lo, hi, v[2] and w[2])

    def join(s, b, x, y):
        env = {}
        for k, v in x.env.items():
            w = y.env.get(k)
            if w is None:
                continue
            env[k] = v if v is w else mk('join', b, k)
        mem = {}
        drop = []
        for k, v in x.mem.items():
            w = y.mem.get(k)
            if w is None:
                drop.append(k)
                continue
            if v == w:
                mem[k] = v
            else:
                mem[k] = Mem(v.v if v.v is w.v else mk('joinm', b, k), v.sz, v.dirty or w.dirty)
        for k in y.mem:
            if k not in x.mem:
                drop.append(k)
        nx = State()
        ep = {}
        if x.ep0 == y.ep0:
            nx.ep0 = x.ep0
            for k in set(x.ep) | set(y.ep):
                a, c = x.ep.get(k, x.ep0), y.ep.get(k, y.ep0)
                ep[k] = a if a == c else ('j', b)
        else:
            nx.ep0 = ('j', b)
            for k in set(x.ep) & set(y.ep):
                if x.ep[k] == y.ep[k]: ep[k] = x.ep[k]
        for k in drop:
            d = (x.mem.get(k) or y.mem.get(k))
            if d.dirty:
                bb, o = split(k)
                if bb[0] == 'al' and not s.escaped(x, bb):
                    mem[k] = Mem(mk('joinm', b, k), d.sz, True)
                else:
                    ep['idx' if bb[0] == 'idx' else o] = ('j', b)
        nx.ep = ep
        facts = {}
        for k, v in x.facts.items():
            w = y.facts.get(k)
            if w is None:
                if k[0] != 'cmp':
                    w = s.fact(y, k)
                else:
                    t = s.truth(y, k)
                    if t is not None and (t == (v[0] == 1)):
                        facts[k] = v
                    continue
            if v == w:
                facts[k] = v
            elif k[0] != 'cmp':
                f = s.joinfact(v, w)
                if f != FALSEF: facts[k] = f
        for k, v in y.facts.items():
            if k in x.facts: continue
            if k[0] == 'cmp':
                t = s.truth(x, k)
                if t is not None and (t == (v[0] == 1)):
                    facts[k] = v
                continue
            f = s.joinfact(v, s.fact(x, k))
            if f != FALSEF: facts[k] = f
        for k, v in env.items():
            if v[0] == 'join' and v[1] == b and (x.env[k] is not v or y.env[k] is not v):
                f = s.joinfact(s.fact(x, x.env[k]), s.fact(y, y.env[k]))
                if f != FALSEF: facts[v] = f
                elif v in facts: del facts[v]
        for k, m in mem.items():
            v = m.v
            if v[0] == 'joinm' and v[1] == b and k in x.mem and k in y.mem:
                f = s.joinfact(s.fact(x, x.mem[k].v), s.fact(y, y.mem[k].v))
                if f != FALSEF: facts[v] = f
                elif v in facts: del facts[v]
        nx.env, nx.mem, nx.facts = env, mem, facts
        nx.ts = x.ts; nx.trace = x.trace
        s.join_ts(b, nx, x, y)
        return nx

    def join_ts(s, b, n, x, y):
        pass

    def enter(s, b, frm, st):
        fn = s.fn
        s.on_edge(st, frm, b)
        phis = []
        for x in fn.blocks[b]:
            if x.o != 'phi': break
            phis.append(x)
        new = {}
        for x in phis:
            for pb, r in x.a:
                if pb == frm:
                    new[x.i] = s.val(st, r)
                    break
        if b in fn.heads:
            facts = {i: s.fact(st, v) for i, v in new.items()}
            for x in phis:
                s.on_phi(st, x, mk('phi', x.i), new.get(x.i))
            if frm is not None and fn.rpon[frm] >= fn.rpon[b]:
                s.on_backedge(st, b)
                s.rename_loop(st, b)
            s.widen(st, b)
            ids = s.loop_ids(b)
            st.env = {k: v for k, v in st.env.items() if k not in ids}
            for x in phis:
                sym = mk('phi', x.i)
                for k in [k for k in st.facts if sym in syms(k)]:
                    del st.facts[k]
                st.env[x.i] = sym
                f = facts.get(x.i)
                if f and f[2]:
                    st.facts[sym] = (None, None, True)
            return st
        st.env.update(new)
        for x in phis:
            if x.i in new:
                s.on_phi(st, x, new[x.i], new[x.i])
        return st

    def block(s, b, st):
        """yields (successor, state)"""
        fn = s.fn
        work = [(0, st)]
        bl = fn.blocks[b]
        while work:
            i, st = work.pop()
            dead = False
            while i < len(bl) - 1:
                x = bl[i]
                if x.o != 'phi':
                    if s.fork_alias and x.o in ('load', 'store', 'atomicrmw', 'cmpxchg'):
                        a = s.val(st, x.a[1] if x.o == 'store' else x.a[0])
                        fk = s.alias_fork(st, x, a)
                        if fk is not None:
                            for z in fk:
                                work.append((i, z))
                            dead = True
                            break
                    try:
                        r = s.step(st, x)
                    except Infeasible:
                        dead = True
                        break
                    if r is False:
                        dead = True
                        break
                    if isinstance(r, list):     # forked states [(state, value)]
                        for z, v in r:
                            z.env[x.i] = v
                            work.append((i + 1, z))
                        dead = True
                        break
                    if r is not None and r is not True:
                        if depth(r) > 14:
                            r = mk('ins', x.i)
                        st.env[x.i] = r
                i += 1
            if not dead:
                yield from s.term(bl[-1], st)

    def alias_fork(s, st, x, a):
        ab, ao = split(a)
        for k, e in st.mem.items():
            if k is a: continue
            if x.o == 'load' and not e.dirty: continue
            if split(k)[0] is ab: continue
            if s.may_alias(st, a, k):
                kb, ko = split(k)
                if ab[0] == 'idx' or kb[0] == 'idx': continue
                r = []
                y = st.copy()
                if s.assume(y, mk('cmp', 'eq', ab, kb), True) and s.alias_ok(y): r.append(y)
                y = st.copy()
                if s.assume(y, mk('cmp', 'ne', ab, kb), True) and s.alias_ok(y): r.append(y)
                return r
        return None

    def alias_ok(s, st):
        return True

    def term(s, x, st):
        o = x.o
        if o == 'br':
            if not x.a:
                yield x.d['s'][0], st
                return
            c = s.val(st, x.a[0])
            t = s.truth(st, c)
            if t is not None:
                if s.on_branch(st, x, c, t) is not False:
                    yield x.d['s'][0 if t else 1], st
                return
            for tv, tb in ((True, x.d['s'][0]), (False, x.d['s'][1])):
                z = st.copy()
                try:
                    if s.assume(z, c, tv) and s.alias_ok(z) and s.on_branch(z, x, c, tv) is not False:
                        yield tb, z
                except Infeasible:
                    pass
        elif o == 'switch':
            c = s.val(st, x.a[0])
            if isint(c):
                for cv, tb in x.d['cases']:
                    if cv[1] == c[1]:
                        yield tb, st
                        return
                yield x.d['def'], st
                return
            for cv, tb in x.d['cases']:
                z = st.copy()
                if s.assume(z, mk('cmp', 'eq', c, C(cv[1])), True):
                    s.on_branch(z, x, mk('cmp', 'eq', c, C(cv[1])), True)
                    yield tb, z
            z = st.copy()
            ok = True
            for cv, tb in x.d['cases']:
                ok = ok and s.assume(z, mk('cmp', 'ne', c, C(cv[1])), True)
            if ok:
                yield x.d['def'], z
        elif o == 'ret':
            s.on_ret(st, x, s.val(st, x.a[0]) if x.a else None)

    def step(s, st, x):
        o = x.o
        if o == 'load':
            a = s.val(st, x.a[0])
            s.on_load(st, x, a)
            return s.load(st, x, a, x.t)
        if o == 'store':
            v = s.val(st, x.a[0]); a = s.val(st, x.a[1])
            s.on_store(st, x, a, v)
            s.store(st, x, a, v)
            return None
        if o == 'getelementptr':
            p = s.val(st, x.a[0])
            vs = []
            off = x.d['off']
            for sc, r in x.d['vars']:
                v = s.val(st, r)
                while v[0] in ('sext', 'zext') and v[1] >= 32: v = v[2]
                if v[0] == 'op' and v[1] == 'add' and isint(v[4]) and v[2] == 'i64':
                    off += sc * v[4][1]; v = v[3]
                if isint(v):
                    off += sc * v[1]
                else:
                    vs.append((sc, v))
            if vs:
                if p[0] == 'ptr':
                    off += p[2]; p = p[1]
                elif p[0] == 'gv':
                    off += p[2]; p = mk('gv', p[1], 0)
                if p[0] == 'idx':
                    vs += list(p[2]); p = p[1]
                    if p[0] == 'ptr':
                        off += p[2]; p = p[1]
                vs = tuple(sorted(vs, key=lambda z: (z[0], order(z[1]))))
                p = mk('idx', p, vs)
            return ptradd(p, off)
        if o == 'call':
            cal = x.callee
            args = [s.val(st, r) for r in x.a]
            if cal is None and 'ind' in x.d:
                tgt = s.val(st, x.d['ind'])
                if tgt[0] == 'fn':
                    cal = tgt[1]
            if cal and cal.startswith('llvm.'):
                r = s.intrinsic(st, x, cal, args)
                if r is not NotImplemented:
                    return r
            r = s.on_call(st, x, cal, args)
            if r is False or isinstance(r, list):
                return r
            hv = s.call_havoc(st, x, cal, args)
            if hv is True:
                s.havoc(st, ('c', x.i))
            elif hv:
                for a in hv:
                    s.havoc_at(st, x, a)
            fnn = s.mod.fns.get(cal) if cal else None
            if cal in ('abort', 'exit', '__assert_fail') or (fnn and fnn.d.get('noret')):
                return False
            if r is None:
                r = mk('call', x.i)
            return r
        if o == 'icmp':
            a, b = s.val(st, x.a[0]), s.val(st, x.a[1])
            w = width(x.d.get('ot', 'i64'))
            t = s.eval_cmp(st, x.d['p'], a, b, w)
            if t is not None:
                return C(int(t))
            p, a, b = s.norm_cmp(st, x.d['p'], a, b)
            if p in ('eq', 'ne') and isint(b) and b[1] == 0 and a[0] in ('cmp', 'not'):
                return a if p == 'ne' else s.mknot(a)
            return mk('cmp', p, a, b)
        if o == 'select':
            c = s.val(st, x.a[0]); t = s.truth(st, c)
            if t is not None:
                return s.val(st, x.a[1] if t else x.a[2])
            a, b = s.val(st, x.a[1]), s.val(st, x.a[2])
            if a is b: return a
            r = []
            for tv, v in ((True, a), (False, b)):
                z = st.copy()
                if s.assume(z, c, tv): r.append((z, v))
            return r
        if o in ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            v = s.val(st, x.a[0])
            if o in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return v
            fw = width(x.d['ft'])
            if isint(v):
                if o == 'zext': return C(ux(v[1], fw))
                if o == 'sext': return C(sx(v[1], fw) if fw > 1 else -(v[1] & 1))
                w = width(x.t)
                return C(v[1] & 1) if w == 1 else C(sx(v[1], w))
            if o == 'trunc':
                if v[0] in ('zext', 'sext'):
                    if v[1] == width(x.t): return v[2]
                    if v[0] == 'zext' and v[1] == 1: return v
                return mk('trunc', width(x.t), v)
            if v[0] == 'zext' and v[1] < fw:
                return v
            if o == 'sext' and v[0] == 'sext':
                return v
            return mk(o, fw, v)
        if o == 'alloca':
            return mk('al', x.i)
        if o == 'freeze':
            return s.val(st, x.a[0])
        if o == 'xor' and x.t == 'i1':
            a, b = s.val(st, x.a[0]), s.val(st, x.a[1])
            if isint(b) and b[1] & 1: return s.mknot(a)
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return s.binop(o, x.t, s.val(st, x.a[0]), s.val(st, x.a[1]))
        if o in ('atomicrmw', 'cmpxchg'):
            return s.atomic(st, x)
        if o == 'extractvalue':
            v = s.val(st, x.a[0])
            return mk('xv', tuple(x.d['ix']), v)
        if o == 'fence':
            return None
        return mk('ins', x.i)

    def havoc_at(s, st, x, a):
        """memory reachable from pointer a may change (conservatively: everything but other locals)"""
        s.havoc(st, ('c', x.i), keep=lambda k: split(k)[0][0] == 'al' and split(k)[0] is not split(a)[0])

    def mknot(s, a):
        if a[0] == 'cmp': return mk('cmp', NEG[a[1]], a[2], a[3])
        if a[0] == 'not': return a[1]
        if isint(a): return C(1 - (a[1] & 1))
        return mk('not', a)

    def atomic(s, st, x):
        a = s.val(st, x.a[0])
        s.on_store(st, x, a, mk('ins', x.i))
        s.kill(st, x, a, 8)
        st.mem.pop(a, None)
        return mk('ins', x.i)

    def intrinsic(s, st, x, cal, args):
        if cal.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
            s.on_mem(st, x, cal, args)
            base, off = split(args[0])
            n = args[2][1] if isint(args[2]) else None
            zero = cal.startswith('llvm.memset') and args[1] is C(0)
            src = None
            if cal.startswith(('llvm.memcpy', 'llvm.memmove')) and n is not None:
                sb, so = split(args[1])
                src = {split(k)[1] - so: v for k, v in st.mem.items() if split(k)[0] is sb and so <= split(k)[1] and split(k)[1] + v.sz <= so + n}
                if sb[0] == 'gv' and not src:
                    src = s.global_init(sb[1], so, n)
            for k in list(st.mem):
                kb, ko = split(k)
                if kb is base:
                    if n is None or (ko < off + n and off < ko + st.mem[k].sz):
                        del st.mem[k]
                elif s.may_alias(st, args[0], k) or not (kb[0] == 'al' and not s.escaped(st, kb)) and kb[0] != 'gv' and not s.distinct(st, base, kb) and not (base[0] == 'al'):
                    del st.mem[k]
            if not (base[0] == 'al' and not s.escaped(st, base)):
                st.ep = {}; st.ep0 = ('c', x.i)
            if zero and n is not None and n <= 512:
                for o in range(0, n - n % 8, 8):
                    st.mem[ptradd(base, off + o)] = Mem(C(0), 8, True)
            elif src:
                for o, v in src.items():
                    st.mem[ptradd(base, off + o)] = Mem(v.v, v.sz, True)
            return True
        if cal.startswith('llvm.is.constant'):
            return C(0)
        if cal.startswith('llvm.expect'):
            return args[0]
        if cal.startswith(('llvm.stack', 'llvm.dbg', 'llvm.lifetime', 'llvm.va_', 'llvm.assume')):
            return mk('ins', x.i)
        return mk('op', cal, x.t, *args)

    def global_init(s, g, off, n):
        r = {}
        gd = s.mod.globals.get(g)
        if gd and 'init' in gd:
            for o, v in flat_init(gd['init']):
                o -= off
                if v[0] == 'c': e = Mem(C(v[1]), v[2] // 8, True)
                elif v[0] == 'n': e = Mem(NULL, 8, True)
                elif v[0] == 'g': e = Mem(mk('gv', v[1], v[2]), 8, True)
                elif v[0] == 'f': e = Mem(mk('fn', v[1]), 8, True)
                else: continue
                if 0 <= o and o + e.sz <= n:
                    r[o] = e
        return r


def flat_init(v, o=0):
    if v[0] == 's':
        for fo, fv in v[1]: yield from flat_init(fv, o + fo)
    elif v[0] == 'a':
        for k, fv in enumerate(v[2]): yield from flat_init(fv, o + k * v[1])
    elif v[0] == 'd':
        for k, c in enumerate(v[2]):
            if c is not None: yield o + k * v[1], ['c', c, v[1] * 8]
    elif v[0] == 'z':
        for q in range(0, v[1] - v[1] % 8, 8): yield o + q, ['c', 0, 64]
    else:
        yield o, v


def alloca_escapes(fn, ai):
    """address of the local stored to memory or passed to a call"""
    seen = {ai}; work = [ai]
    users = fn.__dict__.get('_users')
    if users is None:
        users = {}
        for x in fn.instrs():
            ops = [v for _, v in x.a] if x.o == 'phi' else vals(x)
            for v in ops:
                if isinstance(v, int): users.setdefault(v, []).append(x)
        fn._users = users
    while work:
        v = work.pop()
        for x in users.get(v, ()):
            if x.o in ('getelementptr', 'bitcast', 'phi', 'select', 'addrspacecast'):
                if x.i not in seen:
                    seen.add(x.i); work.append(x.i)
            elif x.o == 'store':
                if x.a[0] == v: return True
            elif x.o == 'call':
                if not (x.callee or '').startswith('llvm.'): return True
            elif x.o in ('load', 'icmp', 'ret'):
                pass
            else:
                return True
    return False


def cmpint(q, lo, hi, y):
    if q == 'lt':
        if hi is not None and hi < y: return True
        if lo is not None and lo >= y: return False
    elif q == 'ge':
        if lo is not None and lo >= y: return True
        if hi is not None and hi < y: return False
    elif q == 'gt':
        if lo is not None and lo > y: return True
        if hi is not None and hi <= y: return False
    elif q == 'le':
        if hi is not None and hi <= y: return True
        if lo is not None and lo > y: return False
    return None


IMPL = {
    'eq': (('ult', False), ('ugt', False), ('slt', False), ('sgt', False)),
    'ne': (('ult', True), ('ugt', True), ('slt', True), ('sgt', True)),
    'ult': (('uge', False), ('ugt', False), ('eq', False)),
    'ule': (('ult', True), ('ugt', False), ('eq', True)),
    'ugt': (('ule', False), ('ult', False), ('eq', False)),
    'uge': (('ugt', True), ('ult', False), ('eq', True)),
    'slt': (('sge', False), ('sgt', False), ('eq', False)),
    'sle': (('slt', True), ('sgt', False), ('eq', True)),
    'sgt': (('sle', False), ('slt', False), ('eq', False)),
    'sge': (('sgt', True), ('slt', False), ('eq', True)),
}
