"""Interprocedural, flow insensitive side effect analysis.

Abstract pointers ("origins"):
  ('A',i,d)  reached from argument i by d loads (d capped at DEEP)
  ('G',n,d)  global n (d loads away)
  ('L',id)   local variable           ('N',id)  memory obtained from an allocation in this function
  ('F',n)    function                 ('?',)    unknown
"""
from ir import *

DEEP = 3
ALLOC = {'malloc', 'calloc', 'realloc'}
LIBW = {'memcpy': [0], 'memmove': [0], 'memset': [0], 'strcpy': [0], 'strncpy': [0], 'vsnprintf': [0], 'snprintf': [0], 'sprintf': [0], 'vsprintf': [0]}
LIBPURE = {'strlen', 'strnlen', 'strcmp', 'strncmp', 'memcmp', 'strcspn', 'strspn', 'strchr', 'strrchr', 'memchr', 'toupper', 'tolower', 'isspace', 'abs', 'abort', 'free', 'fwrite', 'fflush', 'rand', 'srand', 'fputs', 'puts', 'printf', 'fprintf', 'bcmp', 'time'}
LIBRET0 = {'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strchr', 'strrchr', 'memchr'}


class Sum:
    def __init__(s):
        s.w = {}          # origin -> example instruction
        s.r = set()       # returned origins
        s.st = set()      # (dst origin, src origin) pointer stores
        s.cb = {}         # user callbacks invoked: description -> instr
        s.ext = {}        # unknown external functions called


def deeper(o, n=1):
    if o[0] in ('A', 'G'):
        return (o[0], o[1], min(DEEP, o[2] + n))
    return o


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.sum = {f.name: Sum() for f in mod.fns.values()}
        self.fieldfns = self._fieldfns()
        self.local = {}
        order = self._order()
        for _ in range(12):
            ch = False
            for f in order:
                if self._fn(f):
                    ch = True
            if not ch:
                break

    def _fieldfns(self):
        """(struct, offset) -> functions stored there by constant initialisers"""
        r = {}

        def place(ty, off, name):
            t = self.mod.types.get(ty)
            r.setdefault((ty, off), set()).add(name)
            if t:
                for n, o, mt, sz in t['m']:
                    if mt.startswith('struct ') and o <= off < o + max(sz, 1):
                        place(mt[7:], off - o, name)
        from flow import flat_init
        for g in self.mod.globals.values():
            if 'init' not in g: continue
            dt = (g.get('dt') or '').replace('const ', '')
            for o, v in flat_init(g['init']):
                if v[0] == 'f' and dt.startswith('struct '):
                    place(dt[7:], o, v[1])
                elif v[0] == 'f' and dt.startswith('arr'):
                    place(dt, 0, v[1])
        return r

    def _order(self):
        seen = set(); out = []

        def rec(f):
            if f.name in seen: return
            seen.add(f.name)
            for x in f.instrs():
                if x.o == 'call' and x.callee in self.mod.fns and not self.mod.fns[x.callee].decl:
                    rec(self.mod.fns[x.callee])
            out.append(f)
        import sys
        sys.setrecursionlimit(10000)
        for f in self.mod.defined():
            rec(f)
        return out

    def targets(self, f, x):
        """possible callees of an indirect call: (known set, callback description or None)"""
        ref = x.d.get('ind')
        if isinstance(ref, list):
            return ({ref[1]} if ref[0] == 'f' else set()), None
        if isinstance(ref, int) and ref < f.nargs:
            return set(), 'argument %s' % f.args[ref][0]
        seen = set(); work = [ref]; known = set(); desc = None
        while work:
            r = work.pop()
            if isinstance(r, list):
                if r[0] == 'f': known.add(r[1])
                continue
            if r in seen: continue
            seen.add(r)
            if r < f.nargs:
                desc = 'argument %s' % f.args[r][0]; continue
            d = f.by[r]
            if d.o == 'phi': work += [v for _, v in d.a]
            elif d.o == 'select': work += d.a[1:]
            elif d.o == 'load':
                g = f.by.get(d.a[0]) if isinstance(d.a[0], int) else None
                key = None
                if g is not None and g.o == 'getelementptr':
                    for n, o in g.d['path']:
                        if n and n != '[]': key = (n.replace('struct.', ''), o)
                k = self.fieldfns.get(key) if key else None
                if k: known |= k
                desc = 'slot %s' % (key,)
            else:
                desc = 'value'
        return known, desc

    def origins(self, fname, ref):
        return self.local[fname](ref)

    def _fn(self, f):
        S = self.sum[f.name]
        n0 = (len(S.w), len(S.r), len(S.st), len(S.cb), len(S.ext))
        pts = {}
        cont = {}

        def P(r):
            if isinstance(r, int):
                if r < f.nargs:
                    return {('A', r, 0)}
                return pts.get(r, set())
            k = r[0]
            if k == 'g': return {('G', r[1], 0)}
            if k == 'f': return {('F', r[1])}
            if k == 'ce' and r[1] == 'gep': return P(r[2][0])
            return set()

        def follow(os, n=1):
            cur = set(os)
            for _ in range(n):
                nx = set()
                for o in cur:
                    if o[0] in ('A', 'G'): nx.add(deeper(o))
                    nx |= cont.get(o, set())
                cur = nx
            return cur

        def tr(o, args):
            """translate a callee origin"""
            if o[0] == 'A':
                if o[1] >= len(args): return {('?',)}
                return follow(args[o[1]], o[2]) if o[2] else set(args[o[1]])
            if o[0] == 'G': return {o}
            if o[0] == 'F': return {o}
            return set()

        def put(m, k, v):
            s = m.setdefault(k, set())
            n = len(s)
            s |= v
            return len(s) != n

        for _ in range(20):
            ch = False
            for x in f.instrs():
                o = x.o
                if o == 'phi':
                    u = set()
                    for _, v in x.a: u |= P(v)
                    ch |= put(pts, x.i, u)
                elif o in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
                    ch |= put(pts, x.i, P(x.a[0]))
                elif o in ('add', 'sub', 'and', 'or', 'xor'):
                    if x.t == 'i64': ch |= put(pts, x.i, P(x.a[0]) | P(x.a[1]))
                elif o == 'select':
                    ch |= put(pts, x.i, P(x.a[1]) | P(x.a[2]))
                elif o == 'alloca':
                    ch |= put(pts, x.i, {('L', x.i)})
                elif o == 'load':
                    if x.t in ('ptr', 'i64') or x.t.startswith('{') or x.t.startswith('%'):
                        ch |= put(pts, x.i, follow(P(x.a[0])))
                elif o == 'store':
                    src = P(x.a[0]); dst = P(x.a[1])
                    for d in dst:
                        if d[0] in ('A', 'G', '?'): S.w.setdefault(d, x)
                        if src:
                            ch |= put(cont, d, src)
                            for q in src: 
                                if d[0] in ('A', 'G') and q[0] in ('A', 'G', 'N', 'F'): S.st.add((d, q if q[0] != 'N' else ('N',)))
                elif o in ('atomicrmw', 'cmpxchg'):
                    for d in P(x.a[0]):
                        if d[0] in ('A', 'G', '?'): S.w.setdefault(d, x)
                        ch |= put(cont, d, P(x.a[-1]))
                    ch |= put(pts, x.i, follow(P(x.a[0])))
                elif o == 'extractvalue' or o == 'insertvalue':
                    u = P(x.a[0])
                    if o == 'insertvalue': u = u | P(x.a[1])
                    ch |= put(pts, x.i, u)
                elif o == 'ret':
                    if x.a: S.r |= {q for q in P(x.a[0]) if q[0] != 'L'} | ({('N',)} if any(q[0] == 'N' for q in P(x.a[0])) else set())
                elif o == 'call':
                    args = [P(a) for a in x.a]
                    cal = x.callee
                    cands = []
                    if cal is None:
                        kn, desc = self.targets(f, x)
                        cands = [c for c in kn if c in self.mod.fns]
                        if not cands: S.cb.setdefault(desc or 'value', x)
                        elif desc: S.cb.setdefault(desc, x)
                    else:
                        cands = [cal]
                    for c in cands:
                        if c.startswith('llvm.'):
                            if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                                for d in args[0]:
                                    if d[0] in ('A', 'G', '?'): S.w.setdefault(d, x)
                                if not c.startswith('llvm.memset'):
                                    for d in args[0]: ch |= put(cont, d, follow(args[1]))
                            elif c.startswith('llvm.va_start'):
                                pass
                            elif args and x.t in ('i64', 'ptr'):
                                ch |= put(pts, x.i, args[0])
                            continue
                        fn = self.mod.fns.get(c)
                        if c == 'asm':
                            for a in args:
                                for d in a:
                                    if d[0] in ('A', 'G', '?'): S.w.setdefault(d, x)
                            continue
                        if fn is None or fn.decl:
                            if c in ALLOC:
                                ch |= put(pts, x.i, {('N', x.i)})
                            elif c in LIBW:
                                for k in LIBW[c]:
                                    for d in args[k]:
                                        if d[0] in ('A', 'G', '?'): S.w.setdefault(d, x)
                            elif c not in LIBPURE:
                                S.ext.setdefault(c, x)
                            if c in LIBRET0 and args: ch |= put(pts, x.i, args[0])
                            continue
                        T = self.sum[c]
                        for d in list(T.w):
                            for q in tr(d, args) if d[0] != '?' else {d}:
                                if q[0] in ('A', 'G', '?'): S.w.setdefault(q, x)
                        for d, q in list(T.st):
                            src = tr(q, args) if q[0] != 'N' else {('N', x.i)}
                            for dd in tr(d, args):
                                ch |= put(cont, dd, src)
                                for z in src:
                                    if dd[0] in ('A', 'G') and z[0] in ('A', 'G', 'N', 'F'): S.st.add((dd, z if z[0] != 'N' else ('N',)))
                        u = set()
                        for q in list(T.r):
                            u |= {('N', x.i)} if q[0] == 'N' else tr(q, args)
                        ch |= put(pts, x.i, u)
                        for k, v in list(T.cb.items()):
                            if not k.startswith('argument'): S.cb.setdefault(k, x)
                            else:
                                # callback passed by us: a known function or our own argument
                                an = k.split(' ', 1)[1]
                                ai = [i for i, a in enumerate(fn.args) if a[0] == an]
                                os = args[ai[0]] if ai and ai[0] < len(args) else set()
                                if not os: S.cb.setdefault('value', x)
                                for q in os:
                                    if q[0] == 'F': pass
                                    elif q[0] == 'A' and q[2] == 0: S.cb.setdefault('argument %s' % f.args[q[1]][0], x)
                                    else: S.cb.setdefault('value', x)
                        for k, v in list(T.ext.items()): S.ext.setdefault(k, x)
            if not ch:
                break
        self.local[f.name] = P
        f._pts = pts; f._cont = cont
        return n0 != (len(S.w), len(S.r), len(S.st), len(S.cb), len(S.ext))
