"""Python model of the IR dump."""
import re


class Instr:
    __slots__ = ('i', 'o', 't', 'a', 'd', 'fn', 'bb', 'pos')

    def __init__(s, d, fn, bb, pos):
        s.i = d['i']; s.o = d['o']; s.t = d['t']; s.a = d.get('a', []); s.d = d; s.fn = fn; s.bb = bb; s.pos = pos

    def get(s, k, dflt=None):
        return s.d.get(k, dflt)

    @property
    def callee(s):
        return s.d.get('callee')

    @property
    def loc(s):
        """innermost source location: (file, line, function)"""
        l = s.d.get('l')
        return tuple(l[0]) if l else (s.fn.file, s.fn.line, s.fn.src)

    @property
    def where(s):
        f, l, fn = s.loc
        r = '%s:%d (%s)' % (relf(f), l, fn)
        ls = s.d.get('l') or []
        if len(ls) > 1:
            r += ' <- ' + ' <- '.join('%s:%d' % (relf(x[0]), x[1]) for x in ls[1:])
        return r


def relf(f):
    f = f or '?'
    for p in ('/include/', '/src/', '/arch/', '/witness/', '/generated/', '/testsuite/', '/examples/'):
        k = f.find(p)
        if k >= 0:
            return f[k + 1:]
    return f


class Fn:
    def __init__(s, d, mod):
        s.d = d; s.mod = mod; s.name = d['name']; s.src = d.get('src') or re.sub(r'\.\d+$', '', d['name'])
        s.decl = d['decl']; s.local = d['local']; s.args = d['args']; s.nargs = len(s.args); s.ret = d['ret']
        s.file = d.get('file', ''); s.line = d.get('line', 0); s.dt = d.get('dt', [])
        s.blocks = []; s.by = {}
        if not s.decl:
            for bi, b in enumerate(d['blocks']):
                bl = [Instr(x, s, bi, k) for k, x in enumerate(b)]
                s.blocks.append(bl)
                for x in bl:
                    s.by[x.i] = x
            s._cfg()

    def argtype(s, k):
        # dt[0] is the return type
        return s.dt[k + 1] if k + 1 < len(s.dt) else ''

    def _cfg(s):
        n = len(s.blocks)
        s.succ = [[] for _ in range(n)]; s.pred = [[] for _ in range(n)]
        for b, bl in enumerate(s.blocks):
            t = bl[-1]
            if t.o == 'br':
                ss = t.d['s']
            elif t.o == 'switch':
                ss = [c[1] for c in t.d['cases']] + [t.d['def']]
            else:
                ss = []
            for x in ss:
                if x not in s.succ[b]:
                    s.succ[b].append(x)
                    s.pred[x].append(b)
        # reverse postorder, dominators, loops
        s._rpo()
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while s.rpon[x] > s.rpon[y]:
                            x = idom[x]
                        while s.rpon[y] > s.rpon[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new; ch = True
        s.idom = idom
        s.loops = {}
        for b in s.rpo:
            for x in s.succ[b]:
                if s.dom(x, b):
                    body = s.loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y); st.extend(p for p in s.pred[y] if p in s.rpon)
        # second numbering: loop exits are visited first so that loop bodies come before their exits
        if s.loops:
            s._rpo(lambda b: sorted(s.succ[b], key=lambda x: sum(1 for l in s.loops.values() if b in l and x in l)))
        # retreating edges to non dominating targets (irreducible) are treated as loop headers as well
        s.heads = set(s.loops)
        for b in s.rpo:
            for x in s.succ[b]:
                if s.rpon[x] <= s.rpon[b]:
                    s.heads.add(x)
                    s.loops.setdefault(x, set(s.rpo))

    def _rpo(s, key=None):
        sc = key or (lambda b: s.succ[b])
        order = []; seen = {0}
        stack = [(0, iter(sc(0)))]
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); stack.append((x, iter(sc(x)))); break
            else:
                order.append(b); stack.pop()
        s.rpo = order[::-1]; s.rpon = {b: i for i, b in enumerate(s.rpo)}

    def dom(s, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = s.idom[b]

    def base(s, ref):
        """kind of object an address is computed from: alloca / arg / global / load / ..."""
        for _ in range(40):
            if isinstance(ref, list): return {'g': 'global', 'n': 'null'}.get(ref[0], ref[0])
            if ref < s.nargs: return 'arg'
            x = s.by[ref]
            if x.o in ('getelementptr', 'bitcast'): ref = x.a[0]
            else: return x.o
        return '?'

    def instrs(s):
        for b in s.rpo:
            yield from s.blocks[b]

    def live(s):
        """live-in sets (SSA ids) per block; phi operands are live out of the predecessor"""
        if hasattr(s, '_live'):
            return s._live
        use = {}; de = {}; phiuse = {}
        for b in s.rpo:
            u = set(); d = set()
            for x in s.blocks[b]:
                if x.o == 'phi':
                    for pb, v in x.a:
                        if isinstance(v, int):
                            phiuse.setdefault((pb, b), set()).add(v)
                    d.add(x.i); continue
                for v in vals(x):
                    if v not in d:
                        u.add(v)
                d.add(x.i)
            use[b] = u; de[b] = d
        li = {b: set() for b in s.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(s.rpo):
                o = set()
                for x in s.succ[b]:
                    o |= li[x]; o |= phiuse.get((b, x), set())
                n = use[b] | (o - de[b])
                if n != li[b]:
                    li[b] = n; ch = True
        s._live = li
        return li


def vals(x):
    """SSA ids used by an instruction (not phi)"""
    r = []

    def rec(v):
        if isinstance(v, int):
            r.append(v)
    for v in x.a:
        rec(v)
    if x.o == 'getelementptr':
        for sc, v in x.d['vars']:
            rec(v)
    if 'ind' in x.d:
        rec(x.d['ind'])
    return r


class Module:
    def __init__(s, d):
        s.types = d['types']; s.fns = {}; s.globals = {g['name']: g for g in d['globals']}; s.aliases = d.get('aliases', [])
        s.bysrc = {}
        for f in d['functions']:
            fn = Fn(f, s); s.fns[fn.name] = fn
            if not fn.decl:
                s.bysrc.setdefault(fn.src, fn)
        s.gbysrc = {}
        for g in d['globals']:
            s.gbysrc.setdefault(g.get('src') or g['name'], g)

    def fn(s, name):
        """function by source name"""
        f = s.fns.get(name)
        if f is not None and not f.decl:
            return f
        return s.bysrc.get(name)

    def defined(s):
        return [f for f in s.fns.values() if not f.decl]

    def member(s, st, off):
        """(name, typestring, moff) of the innermost-level member of struct st covering byte offset off"""
        t = s.types.get(st)
        if not t:
            return None
        best = None
        for n, o, ty, sz in t['m']:
            if o <= off < o + max(sz, 1) or (o == off):
                best = (n, ty, o)
                if o == off and sz:
                    break
        return best


def pointee(fn, ref, d=0):
    """struct name a pointer value points to, from declared types ('' if unknown)"""
    if not isinstance(ref, int) or d > 8: return ''
    def st(t):
        t = t.replace('const ', '').replace('volatile ', '')
        return t[8:] if t.startswith('*struct ') else ''
    if ref < fn.nargs: return st(fn.argtype(ref))
    x = fn.by.get(ref)
    if x is None: return ''
    if x.o == 'load':
        c = cell(fn, x.a[0], d + 1)
        if c:
            m = fn.mod.member(*c)
            if m: return st(m[1])
        return ''
    if x.o == 'phi':
        for _, v in x.a:
            r = pointee(fn, v, d + 1)
            if r: return r
    if x.o == 'select':
        return pointee(fn, x.a[1], d + 1) or pointee(fn, x.a[2], d + 1)
    if x.o == 'getelementptr':
        k = None
        for n, o in x.d['path']:
            if n and n != '[]': k = (n.replace('struct.', ''), o)
        if k:
            m = fn.mod.member(*k)
            if m and m[1].startswith('struct '): return m[1][7:]
    if x.o == 'call' and x.callee in fn.mod.fns:
        g = fn.mod.fns[x.callee]
        if g.dt: return st(g.dt[0])
    return ''


def cell(fn, ref, d=0):
    """(struct, offset) of the member an address denotes, or None"""
    x = fn.by.get(ref) if isinstance(ref, int) and ref >= fn.nargs else None
    if x is not None and x.o == 'getelementptr':
        k = None
        for n, o in x.d['path']:
            if n and n != '[]': k = (n.replace('struct.', ''), o)
        if k: return k
        if not x.d['vars']:
            p = pointee(fn, x.a[0], d + 1)
            return (p, x.d['off']) if p else None
        return None
    p = pointee(fn, ref, d + 1)
    return (p, 0) if p else None


def slotof(fn, ins):
    """(struct, offset) of the member an indirect call goes through"""
    x = fn.by.get(ins.d['ind']) if isinstance(ins.d.get('ind'), int) else None
    while x is not None and x.o in ('bitcast',): x = fn.by.get(x.a[0])
    if x is None or x.o != 'load': return None
    return cell(fn, x.a[0])
