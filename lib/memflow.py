"""Memory typestate: allocation results, ownership, release, failure reporting.

Every allocation (and every call of a function whose summary says it can fail for lack of memory) is
analysed in both outcomes.  ts keys:
  ('o', A)  -> allocator value     memory A allocated here, not yet released
  ('h', A)  -> frozenset of holders ('ext' | other allocation)
  ('f', v)  -> site                v was released (v: any pointer value)
  ('L', al) -> 1                   local container that may own memory
  'fail'    -> frozenset of failing call sites on this path
"""
from flow import *

# operation slots whose contract is to obtain / release memory on behalf of the caller
TREES = {'bfdev_btree_root', 'bfdev_radix_root'}   # root links move through the tree: decided by the structure, not by this rule
SLOT_ALLOC = {('bfdev_btree_ops', 0)}
SLOT_FREE = {('bfdev_btree_ops', 8): 1}
DEREF = {'strlen': [0], 'strcpy': [0, 1], 'strncpy': [0, 1], 'strcmp': [0, 1], 'strncmp': [0, 1], 'strnlen': [0], 'strcspn': [0], 'strspn': [0], 'vsnprintf': []}


class Summary:
    __slots__ = ('fallible', 'failvals', 'kind', 'frees', 'owned', 'acquires', 'releases', 'mayfree')

    def __init__(s):
        s.fallible = None    # example site
        s.failvals = set()
        s.kind = None
        s.frees = set()      # argument indexes released on every path
        s.mayfree = set()
        s.owned = False      # returns memory owned by the caller
        s.acquires = set()   # argument objects that may own memory afterwards
        s.releases = set()   # argument objects whose owned memory is released


class MemFlow(Flow):
    max_states = 60000

    def __init__(self, fn, W):
        super().__init__(fn)
        self.W = W; self.seenrep = set(); self.exits = []; self.allocsites = {}; self.freesites = {}; self.nret = 0
        self.escv = {}; self.links = set(); self.auses = {}; self.ablocks = {}; self.alocals = {}
        rt = (fn.dt[0] if fn.dt else '').replace('const ', '')
        self.rtoff = W.aoff.get(rt[8:]) if rt.startswith('*struct ') else None

    def rep(s, kind, ins, text, st=None):
        k = (kind, ins.i, text)
        if k in s.seenrep: return
        s.seenrep.add(k)
        s.reports.append((kind, ins, text))

    # --- base facts
    def names(s):
        return [a[0] for a in s.fn.args]

    def sh(s, v):
        return show(v, s.names())

    def key(s, st):
        return frozenset(st.ts.items())

    def rename_ts(s, st, f):
        n = {}
        for k, v in st.ts.items():
            if isinstance(k, tuple):
                k2 = (k[0], f(k[1]))
                if k[0] == 'f' and k2[1] is not k[1] and k2[1][0] == 'old':
                    continue
                if k[0] == 'h':
                    v = frozenset(x if x == 'ext' else f(x) for x in v)
                elif k[0] in ('o', 'A') and v != 'sub':
                    v = f(v)
                n[k2] = v
            else:
                n[k] = v
        st.ts = n

    def distinct(s, st, a, b):
        ra, rb = a, b
        for x, y in ((a, b), (b, a)):
            r = root(x)
            if ('o', r) in st.ts and x is r:
                # fresh memory is distinct from everything not derived from it, until it is linked somewhere
                if root(y) is not r and not st.ts.get(('h', r)):
                    return True
                if y[0] in ('arg', 'gv', 'al'):
                    return True
                if y[0] in ('ptr', 'idx') and root(y) is not r and y[1][0] in ('arg', 'gv', 'al'):
                    return True
                if ('o', y) in st.ts and y is not x:
                    return True
        return False

    # --- checks on memory access
    def deref(s, st, ins, addr, what):
        b, off = split(addr)
        while b[0] == 'idx':
            b = split(b[1])[0]
        if b is NULL or b[0] == 'int' and 0 <= b[1] < 4096:
            if st.ts.get('fail'):
                s.rep('null', ins, '%s through a null pointer: allocation failure at %s is not checked' % (what, ', '.join(sorted(st.ts['fail']))))
            elif s.W.strictnull:
                s.rep('null0', ins, '%s through a null pointer' % what)
            return
        if s.fact(st, b)[0:2] == (0, 0) and st.ts.get('fail'):
            s.rep('null', ins, '%s through a null pointer after allocation failure' % what)
        if b[0] in ('arg', 'phi', 'join', 'ld') and off < 4096:
            st.facts[b] = s.fact(st, b)[0:2] + (True,)     # control got past the access
        if ('f', b) in st.ts:
            s.rep('uaf', ins, '%s of memory released at %s (%s)' % (what, st.ts[('f', b)], s.sh(b)))

    def on_load(s, st, ins, addr):
        s.deref(st, ins, addr, 'read')

    def on_store(s, st, ins, addr, val):
        s.deref(st, ins, addr, 'write')
        s.hold(st, addr, val)
        if s.rtoff is not None and val is not NULL or s.rtoff:
            b, o = split(addr)
            if o == s.rtoff and ('o', b) in st.ts: st.ts[('A', b)] = val
        c0 = cell(s.fn, ins.a[1]) if ins.o == 'store' and ins.d.get('vt') == 'ptr' else None
        if c0 and c0[0] in s.W.aoff:
            ao = s.W.aoff[c0[0]]
            if c0[1] == ao:
                s.auses.setdefault((ins.i, 'store'), (ins, 0, val, None, 'store'))
            elif ('o', val) in st.ts:
                # a block is handed to an object: it must come from the object's allocator
                ob = ptradd(addr, -c0[1])
                s.ablocks.setdefault(ins.i, []).append((ins, ob, ao, st.ts[('o', val)], ('o', split(ob)[0]) in st.ts))
        # overwriting the only reference to an owned block
        if s.owner(st, val) is val or val is NULL or val[0] == 'ld':
            b = split(addr)[0]
            while b[0] == 'idx': b = split(b[1])[0]
            c = cell(s.fn, ins.a[1])
            if c and b[0] != 'al' and s.owner(st, b) is None:
                if s.owner(st, val) is val: s.W.cells.setdefault(c, set()).add(s.fn.name)
                if c in s.W.cells and c[0] not in TREES and s.readcells(c, ins):
                    e = st.mem.get(addr)
                    old = e.v if e is not None else s.load(st, ins, addr, 'ptr')
                    if old is not val and old is not NULL and s.fact(st, old)[0:2] != (0, 0) and ('f', old) not in st.ts and old[0] != 'undef':
                        st.ts[('w', old)] = s.site(ins)

    def on_mem(s, st, ins, cal, args):
        s.deref(st, ins, args[0], 'write')
        if not cal.startswith('llvm.memset'):
            s.deref(st, ins, args[1], 'read')
            b, o = split(args[1])
            # copying an object copies what it holds
            for k, e in list(st.mem.items()):
                if split(k)[0] is b:
                    s.hold(st, args[0], e.v)

    def readcells(s, c, ins):
        # the function looks at the cell before it replaces it (an initialiser does not)
        r = s.__dict__.setdefault('_rc', {})
        if not r:
            for x in s.fn.instrs():
                if x.o == 'load' and x.t == 'ptr':
                    r.setdefault(cell(s.fn, x.a[0]), []).append((s.fn.rpon[x.bb], x.pos))
            r.setdefault(None, [])
        p = (s.fn.rpon[ins.bb], ins.pos)
        return any(q < p for q in r.get(c, ()))

    def owner(s, st, v):
        """allocation a pointer value points into"""
        b = v
        while True:
            if ('o', b) in st.ts: return b
            if b[0] in ('ptr', 'idx'): b = b[1]
            else: return None

    def hold(s, st, addr, val):
        a = s.owner(st, val)
        if a is None: return
        r = split(addr)[0]
        while r[0] == 'idx': r = split(r[1])[0]
        o = s.owner(st, r)
        q = r
        while o is None and q[0] in ('ld', 'ptr', 'idx'):   # memory reached through a block belongs to it
            q = q[1]; o = s.owner(st, q)
        if o is a: return
        if o is not None:
            h = o
            if r is o and val is a: s.links.add((o, split(addr)[1], a))
        elif r[0] == 'al':
            if not s.escaped(st, r): return
            h = r
            st.ts[('L', addr)] = 1
        else:
            h = 'ext'
        st.ts[('h', a)] = frozenset(st.ts.get(('h', a), frozenset()) | {h})

    # --- calls
    def call_havoc(s, st, ins, callee, args):
        if callee is None:
            return True
        if callee in ('bfdev_malloc', 'bfdev_zalloc', 'bfdev_free', 'bfdev_realloc'):
            return False
        if callee.startswith('llvm.'):
            return False
        E = s.W.eff
        S = E.sum.get(callee)
        if S is None:
            return True
        fn = s.mod.fns[callee]
        if fn.decl:
            return [args[i] for i in (0,)] if callee in ('strcpy', 'strncpy', 'vsnprintf', 'memcpy') and args else False
        if S.cb:
            return True
        if any(o[0] == '?' for o in S.w): return True
        w = {o for o in S.w if o[0] in ('A', 'G')}
        if not w:
            return False
        if args is None:
            return True
        if any(o[0] == 'G' for o in w) or any(o[2] for o in w if o[0] == 'A'):
            return True
        return [args[o[1]] for o in w if o[1] < len(args)]

    def site(s, ins):
        f, l, fn = ins.loc
        return '%s:%d' % (relf(f), l)

    def fail(s, st, ins):
        st.ts['fail'] = frozenset(st.ts.get('fail', frozenset()) | {s.site(ins)})

    def release(s, st, ins, v, allocator=None):
        if v is NULL or s.fact(st, v)[0:2] == (0, 0):
            return
        s.freesites.setdefault(ins.i, (ins, v, allocator))
        if ('f', v) in st.ts:
            s.rep('dfree', ins, '%s is released twice (first at %s)' % (s.sh(v), st.ts[('f', v)]))
            return
        if v[0] == 'ptr' and ('o', v[1]) in st.ts or v[0] in ('gv', 'al') or v[0] == 'idx' and s.owner(st, v):
            s.rep('badfree', ins, 'release of %s which is not the start of an allocated block' % s.sh(v))
        # releasing elements loaded from an owned table: the loop releases what the table holds
        e = split(v)[0]
        if e[0] == 'ld' and split(e[1])[0][0] == 'idx':
            o = s.owner(st, split(e[1])[0])
            if o is not None: st.ts[('e', o)] = 1
        if ('o', v) in st.ts:
            a = st.ts.pop(('o', v))
            st.ts.pop(('h', v), None)
            if allocator is not None and a is not allocator and a != 'sub':
                s.rep('wrongalloc', ins, 'block obtained from allocator %s is released to %s' % (s.sh(a), s.sh(allocator)))
        st.ts[('f', v)] = s.site(ins)

    def alloc2(s, st, ins, allocator, extra=None):
        """success / failure split"""
        z1 = st.copy(); z2 = st.copy()
        v = mk('call', ins.i)
        # a second evaluation of the same site (loop): the old one was renamed by the back edge
        z1.facts[v] = (None, None, True)
        z1.ts[('o', v)] = allocator
        s.fail(z2, ins)
        return z1, z2, v

    def alloc_use(s, st, ins, callee, args):
        fn = s.mod.fns.get(callee) if callee else None
        if fn is None: return
        for k, v in enumerate(args):
            ty = fn.argtype(k).replace('const ', '')
            if ty == '*struct bfdev_alloc':
                blk = args[1] if callee in ('bfdev_free', 'bfdev_realloc') else None
                s.auses.setdefault((ins.i, k, v, blk), (ins, k, v, blk, callee))
            elif ty.startswith('*struct ') and ty[8:] in s.W.aoff and split(v)[0][0] == 'al':
                ad = ptradd(v, s.W.aoff[ty[8:]])
                e = st.mem.get(ad)
                s.alocals.setdefault((ins.i, k), (ins, callee, e.v if e is not None else None, e is not None and not (e.v is NULL)))

    def on_call(s, st, ins, callee, args):
        s.alloc_use(st, ins, callee, args)
        if callee in ('bfdev_malloc', 'bfdev_zalloc'):
            s.allocsites[ins.i] = (ins, args[0], args[1])
            z1, z2, v = s.alloc2(st, ins, args[0])
            if callee == 'bfdev_zalloc':
                s.zero(z1, v, args[1])
            return [(z1, v), (z2, NULL)]
        if callee == 'bfdev_realloc':
            s.allocsites[ins.i] = (ins, args[0], args[2])
            z1, z2, v = s.alloc2(st, ins, args[0])
            old = args[1]
            if s.fact(st, old)[0:2] != (0, 0) and old is not NULL:
                s.release(z1, ins, old, args[0])
                z2.ts[('r', old)] = s.site(ins)
            return [(z1, v), (z2, NULL)]
        if callee == 'bfdev_free':
            s.release(st, ins, args[1], args[0])
            return None
        if callee is None:
            # operation slots: the implementations in the library stand for the contract
            slot = slotof(s.fn, ins)
            if slot in SLOT_ALLOC:
                z1, z2, v = s.alloc2(st, ins, 'sub')
                return [(z1, v), (z2, NULL)]
            if slot in SLOT_FREE:
                s.release(st, ins, args[SLOT_FREE[slot]])
                return None
            ts = sorted(s.W.eff.targets(s.fn, ins)[0])
            ss = [s.W.summ[t] for t in ts if t in s.W.summ]
            if not ss or len(ss) != len(ts) or len({(bool(q.fallible), q.owned, q.kind, frozenset(q.frees)) for q in ss}) != 1:
                return None
            callee = ts[0]
        for k in DEREF.get(callee, ()):
            if k < len(args): s.deref(st, ins, args[k], 'access')
        S = s.W.summ.get(callee)
        if S is not None:
            rel = set(S.frees)
            for k in sorted(rel):
                s.release(st, ins, args[k], None)
            for k, off in S.releases:
                ad = ptradd(args[k], off)
                st.ts.pop(('L', ad), None)
                st.ts[('R', ad)] = 1
            acq = [ptradd(args[k], off) for k, off in S.acquires if k < len(args) and split(args[k])[0][0] == 'al']
            if S.fallible:
                z1 = st.copy(); z2 = st.copy()
                v = mk('call', ins.i)
                for a in acq: z1.ts[('L', a)] = 1
                s.fail(z2, ins)
                z1.facts[v] = FALSEF
                for z in (z1, z2):
                    hv = s.call_havoc(z, ins, callee, args)
                    if hv is True: s.havoc(z, ('c', ins.i))
                    elif hv:
                        for a in hv: s.havoc_at(z, ins, a)
                s.keep(z1, callee, args)
                if S.kind == 'ptr':
                    z1.facts[v] = (None, None, True)
                    if S.owned: z1.ts[('o', v)] = 'sub'
                    r = [(z1, v), (z2, NULL)]
                    if S.fallible == 'maynull':
                        r.append((st.copy(), NULL))
                    return r
                if S.kind == 'int':
                    z1.facts[v] = (0, None, False) if S.failvals <= {'neg'} else FALSEF
                    vs = []
                    z1ok = z1
                    if S.failvals == {'neg'}:
                        z2.facts[v] = (None, -1, True)
                    vs.append((z2, v))
                    # success, and unrelated errors
                    zc = z1.copy(); zc.facts[v] = (0, 0, False)
                    vs.append((zc, C(0)))
                    if S.kind == 'int' and S.failvals:
                        zo = st.copy(); zo.facts[v] = (None, None, True)
                        hv = s.call_havoc(zo, ins, callee, args)
                        if hv is True: s.havoc(zo, ('c', ins.i))
                        elif hv:
                            for a in hv: s.havoc_at(zo, ins, a)
                        vs.append((zo, v))
                    return vs
            if S.owned:
                v = mk('call', ins.i)
                z1 = st.copy(); z1.facts[v] = (None, None, True); z1.ts[('o', v)] = 'sub'
                return [(z1, v), (st, NULL)]
        s.keep(st, callee, args)
        return None

    def keep(s, st, callee, args):
        # pointers handed to a callee that keeps them
        E = s.W.eff.sum.get(callee)
        for i, a in enumerate(args):
            o = s.owner(st, a)
            if o is None: continue
            if E is not None:
                for d, q in E.st:
                    if q[0] == 'A' and q[1] == i and q[2] == 0 and not (d[0] == 'A' and d[1] == i):
                        if d[0] == 'A' and d[1] < len(args):
                            s.hold(st, args[d[1]], a)
                        else:
                            st.ts[('h', o)] = frozenset(st.ts.get(('h', o), frozenset()) | {'ext'})
            if E is None and not (callee or '').startswith(('str', 'mem', 'llvm', 'vsnprintf')):
                st.ts[('h', o)] = frozenset(st.ts.get(('h', o), frozenset()) | {'ext'})

    def widen(s, st, h):
        super().widen(st, h)
        # a loop that releases the elements of an owned table releases what the table holds
        for b in s.fn.loops[h]:
            for x in s.fn.blocks[b]:
                if x.o == 'call' and x.callee == 'bfdev_free':
                    y = s.fn.by.get(x.a[1]) if isinstance(x.a[1], int) else None
                    while y is not None and y.o in ('getelementptr', 'bitcast'):
                        y = s.fn.by.get(y.a[0]) if isinstance(y.a[0], int) else None
                    if y is None or y.o != 'load': continue
                    e = split(s.loop_eval(st, y.a[0], h))[0]
                    if e[0] == 'idx':
                        o = s.owner(st, split(e[1])[0])
                        if o is not None: st.ts[('e', o)] = 1
        # a loop that links a block allocated before it is taken to link it
        ids = s.loop_ids(h)
        for k in list(st.ts):
            if isinstance(k, tuple) and k[0] == 'o' and k[1][0] == 'call' and k[1][1] not in ids and not st.ts.get(('h', k[1])):
                der = {i for i, v in st.env.items() if s.owner(st, v) is k[1]}
                for b in s.fn.loops[h]:
                    for x in s.fn.blocks[b]:
                        if x.o in ('getelementptr', 'bitcast') and isinstance(x.a[0], int) and x.a[0] in der: der.add(x.i)
                for b in s.fn.loops[h]:
                    for x in s.fn.blocks[b]:
                        if x.o == 'store' and isinstance(x.a[0], int) and x.a[0] in der and not (isinstance(x.a[1], int) and x.a[1] in der):
                            s.hold(st, s.loop_eval(st, x.a[1], h), k[1])

    def zero(s, st, v, size):
        if isint(size) and size[1] <= 4096:
            for o in range(0, size[1] - size[1] % 8, 8):
                st.mem[ptradd(v, o)] = Mem(C(0), 8, True)

    # --- exits
    def on_ret(s, st, ins, val):
        s.nret += 1
        rv = s.owner(st, val) if val is not None else None
        live = {k[1] for k in st.ts if isinstance(k, tuple) and k[0] == 'o'}
        reach = set()
        def ok(a, seen=()):
            if a is rv: return True
            for h in st.ts.get(('h', a), ()):
                if h == 'ext': return True
                if h in seen: continue
                if h[0] == 'al': return True
                if ('e', h) in st.ts: return True
                if h in live and ok(h, seen + (a,)): return True
            return False
        for a in live:
            if a[0] == 'old' and rv is not None and False: continue
            if s.fact(st, a)[0:2] == (0, 0): continue
            if not ok(a):
                x = a
                while x[0] == 'old': x = x[1]
                src = s.fn.by.get(x[1]) if len(x) > 1 and isinstance(x[1], int) else None
                s.rep('leak', ins, 'memory obtained at %s is neither released nor reachable from the result on this exit%s' % (s.site(src) if src else '?', ' (after failure at %s)' % ', '.join(sorted(st.ts['fail'])) if st.ts.get('fail') else ''))
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == 'L':
                s.rep('leak', ins, 'local object still owns memory on this exit%s' % (' (after failure at %s)' % ', '.join(sorted(st.ts['fail'])) if st.ts.get('fail') else ''))
            if isinstance(k, tuple) and k[0] == 'r':
                # failed realloc: the old block must still be referenced where it was
                v = k[1]
                if v[0] == 'ld' and ('f', v) not in st.ts:
                    e = st.mem.get(v[1])
                    if e is not None and e.v is not v:
                        s.rep('leak', ins, 'block %s is lost: reallocation failed at %s and the reference was overwritten' % (s.sh(v), st.ts[k]))
        # a released block still reachable through the object it was released from
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == 'f' and k[1][0] == 'ld':
                v = k[1]
                ad = v[1]
                r = split(ad)[0]
                gone = False
                while True:
                    if ('f', r) in st.ts or r[0] == 'al': gone = True
                    if r[0] in ('ptr', 'idx', 'ld', 'old'): r = r[1]
                    else: break
                if gone: continue
                e = st.mem.get(ad)
                if e is not None and e.v is v:
                    s.rep('dangle', ins, '%s is released at %s but the object still refers to it on return' % (s.sh(v), st.ts[k]))
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == 'w':
                v = k[1]
                if ('f', v) in st.ts or s.fact(st, v)[0:2] == (0, 0) or v is val: continue
                if any(e.v is v for a, e in st.mem.items() if not (split(a)[0][0] == 'al')): continue
                s.rep('lost', ins, 'the reference to block %s is overwritten at %s without releasing the block' % (s.sh(v), st.ts[k]))
        s.exits.append((st, ins, val, rv))


class World:
    """bottom-up summaries over the call graph"""

    def __init__(s, mod, eff, log=None):
        s.mod = mod; s.eff = eff; s.summ = {}; s.flows = {}; s.strictnull = False; s.log = log
        s.budget = []; s.cells = {}
        s.aoff = {t: o for t, d in mod.types.items() for n, o, ty, sz in d['m'] if ty.replace('const ', '') == '*struct bfdev_alloc'}

    def run(s, fns=None):
        order = s.eff._order()
        for rnd in range(2):
            for f in order:
                s.one(f)
        return s

    def one(s, f):
        F = MemFlow(f, s)
        try:
            F.run()
        except Budget as e:
            s.budget.append(f.name)
            return
        s.flows[f.name] = F
        S = Summary()
        S.kind = 'ptr' if f.ret == 'ptr' else 'int' if f.ret.startswith('i') else 'void'
        allfreed = None
        for st, ins, val, rv in F.exits:
            fr = set()
            for k in st.ts:
                if isinstance(k, tuple) and k[0] == 'f' and k[1][0] == 'arg': fr.add(k[1][1])
            for i in range(f.nargs):
                if F.fact(st, mk('arg', i))[0:2] == (0, 0): fr.add(i)
            allfreed = fr if allfreed is None else allfreed & fr
            S.mayfree |= {i for i in fr if ('f', mk('arg', i)) in st.ts}
            if rv is not None and 'ext' not in st.ts.get(('h', rv), ()) and S.kind == 'ptr':
                S.owned = True
            failed = st.ts.get('fail')
            for k in st.ts:
                if isinstance(k, tuple) and k[0] == 'h' and ('o', k[1]) in st.ts and 'ext' in st.ts[k]:
                    pass
            if failed:
                if S.kind == 'ptr':
                    if val is not None and (val is NULL or F.fact(st, val)[0:2] == (0, 0)): S.fallible = S.fallible or True
                elif S.kind == 'int' and val is not None:
                    lo, hi, nz = F.fact(st, val)
                    if hi is not None and hi < 0: S.fallible = True; S.failvals.add('neg')
                    elif nz: S.fallible = True; S.failvals.add('nz')
        S.frees = {i for i in (allfreed or set()) if i in S.mayfree}
        # objects that may own memory afterwards / whose memory is released
        for ai in range(f.nargs):
            S.acquires |= {(ai, o) for o in s.owns(F, ai)}
        rel = None
        for st, ins, val, rv in F.exits:
            r = set()
            for k in st.ts:
                if isinstance(k, tuple) and k[0] == 'R': r.add(k[1])
                if isinstance(k, tuple) and k[0] == 'f' and k[1][0] == 'ld': r.add(k[1][1])
            for v, fa in st.facts.items():
                if v[0] == 'ld' and fa[0:2] == (0, 0): r.add(v[1])
            rel = r if rel is None else rel & r
        for ad in rel or ():
            b, o = split(ad)
            if b[0] == 'arg': S.releases.add((b[1], o))
        s.summ[f.name] = S

    def owns(s, F, ai):
        """offsets of the argument object at which memory obtained by the function is left"""
        f = F.fn
        a = mk('arg', ai)
        r = set()
        for st, ins, val, rv in F.exits:
            for ad, e in st.mem.items():
                o = F.owner(st, e.v)
                if o is not None and split(ad)[0] is a:
                    r.add(split(ad)[1])
        # passes the object on to something that acquires
        for x in f.instrs():
            if x.o == 'call' and x.callee in s.summ:
                for k, off in s.summ[x.callee].acquires:
                    if k < len(x.a):
                        q = x.a[k]; o2 = off
                        while isinstance(q, int) and q >= f.nargs and f.by[q].o == 'getelementptr' and not f.by[q].d['vars']:
                            o2 += f.by[q].d['off']; q = f.by[q].a[0]
                        if q == ai: r.add(o2)
        return r
