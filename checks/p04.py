from common import *
from memflow import *
from trace import Trace
import effects
RULE = 'allocator provenance: the allocator of every allocation and release is the caller\'s allocator argument or the allocator kept in the object concerned; constructors and initialisers keep the caller\'s allocator; only the allocator front end reaches the C library allocator'
EXPLANATION = 'Provenance of the allocator operand of every allocation, reallocation, release and delegated call; stores to allocator members; blocks handed to objects compared with the object\'s allocator.'
LIBC = {'malloc', 'calloc', 'realloc', 'free', 'reallocarray', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc', 'strdup', 'strndup', 'asprintf', 'vasprintf', 'getline', 'cfree'}
FRONT = {'bfdev_malloc', 'bfdev_zalloc', 'bfdev_realloc', 'bfdev_free'}
PORT = {'bfport_malloc', 'bfport_calloc', 'bfport_realloc', 'bfport_free'}


def strip(v):
    while v[0] == 'old': v = v[1]
    return v


def isarg(f, v):
    return v[0] == 'arg' and f.argtype(v[1]).replace('const ', '') == '*struct bfdev_alloc'


def resolve(f, ref, W, seen=None):
    """allocator provenance of an SSA operand: set of 'arg' / ('obj', base ref) / 'bad'"""
    seen = seen if seen is not None else set()
    if not isinstance(ref, int): return {'bad'}
    if ref in seen: return set()
    seen.add(ref)
    if ref < f.nargs:
        return {'arg'} if f.argtype(ref).replace('const ', '') == '*struct bfdev_alloc' else {'bad'}
    x = f.by[ref]
    if x.o == 'phi': return set().union(*[resolve(f, v, W, seen) for b, v in x.a])
    if x.o == 'select': return resolve(f, x.a[1], W, seen) | resolve(f, x.a[2], W, seen)
    if x.o == 'load':
        c = cell(f, x.a[0])
        if c and c[0] in W.aoff and c[1] == W.aoff[c[0]]: return {'obj'}
    return {'bad'}


def ldbase(v):
    """object an allocator value was read from (None for an argument)"""
    v = strip(v)
    return v[1] if v[0] == 'ld' else None


def same_addr(a, b):
    return a is b or plain(a) == plain(b)


def plain(v):
    """address without memory version tags"""
    v = strip(v)
    if v[0] == 'ld': return ('ld', plain(v[1]))
    if v[0] == 'ptr': return ('ptr', plain(v[1]), v[2])
    if v[0] == 'idx': return ('idx', plain(v[1]))
    return v


def below(v, base):
    """v is a path starting at the object whose address is base"""
    b = plain(split(base)[0])
    p = plain(v)
    while True:
        if p == b: return True
        if isinstance(p, tuple) and p[0] in ('ld', 'ptr', 'idx') and not isinstance(p, V): p = p[1]
        else: return False


def run(ctx, res):
    for dbg in ctx.configs:
        W = ctx.world(dbg)
        libc(W.mod, FRONT, res)
        h = ctx.hdr(dbg)
        libc(h, PORT, res)
        n0 = 0
        for n, F in W.flows.items():
            f = F.fn
            if n in FRONT: continue
            nobj = len([1 for k in range(f.nargs) if f.argtype(k).replace('const ', '')[1:].replace('struct ', '') in W.aoff])
            for ins, k, v, blk, callee in F.auses.values():
                res.count('allocator_uses')
                ref = ins.a[k]
                w = strip(v)
                ok = isarg(f, w)
                if not ok:
                    r = resolve(f, ref, W)
                    ok = 'bad' not in r and bool(r)
                if not ok:
                    res.bad('%s:allocator' % f.src, ins.where, 'allocator provenance', '%s: %s uses allocator %s, which is neither the caller\'s allocator nor the one kept in the object' % (f.src, 'member store' if callee == 'store' else 'call of ' + callee, F.sh(v)))
                    continue
                res.sample('%s: %s with %s' % (ins.where, callee, F.sh(v)))
                if blk is not None and callee == 'bfdev_free' and blk is not NULL:
                    base = ldbase(w)
                    b = strip(blk)
                    if base is not None and b[0] == 'ld' and nobj > 1:
                        res.count('release_provenance')
                        if not below(b, base):
                            res.bad('%s:release' % f.src, ins.where, 'allocator of the object', '%s releases %s to the allocator of a different object (%s)' % (f.src, F.sh(blk), F.sh(v)))
            for lst in F.ablocks.values():
                for ins, ob, ao, al, fresh in lst:
                    if al == 'sub': continue
                    res.count('blocks_kept')
                    al = strip(al)
                    base = ldbase(al)
                    if base is None:
                        # the caller's allocator: the object must be under construction or be given that allocator
                        if not (fresh or isarg(f, al)):
                            res.bad('%s:keeps' % f.src, ins.where, 'allocator of the object', '%s keeps a block from allocator %s in an object with an allocator of its own' % (f.src, F.sh(al)))
                    elif not same_addr(base, ptradd(ob, ao)):
                        res.bad('%s:keeps' % f.src, ins.where, 'allocator of the object', '%s keeps a block obtained from %s in an object whose allocator is %s' % (f.src, F.sh(al), F.sh(ptradd(ob, ao))))
            for ins, callee, v, known in F.alocals.values():
                if callee and W.summ.get(callee) is None: continue
                res.count('local_objects')
                if v is None: continue
                w = strip(v)
                if w is NULL or w[0] in ('gv', 'int'):
                    res.bad('%s:local' % f.src, ins.where, 'allocator provenance', '%s hands a local object without the caller\'s allocator to %s' % (f.src, callee))
            for k, ins, t in F.reports:
                if k == 'wrongalloc': res.bad('%s:wrongalloc' % f.src, ins.where, 'allocator pairing', '%s: %s' % (f.src, t))
            # constructors
            aa = [k for k in range(f.nargs) if f.argtype(k).replace('const ', '') == '*struct bfdev_alloc']
            rt = (f.dt[0] if f.dt else '').replace('const ', '')
            if aa and not f.local and rt.startswith('*struct ') and rt[8:] in W.aoff:
                res.count('constructors')
                for st, ins, val, rv in F.exits:
                    if rv is None: continue
                    a = st.ts.get(('A', rv))
                    if a is None or strip(a) is not mk('arg', aa[0]):
                        res.bad('%s:keep' % f.src, ins.where, 'constructor keeps the allocator', '%s returns an object that %s' % (f.src, 'does not keep the caller\'s allocator' if a is None else 'keeps allocator %s' % F.sh(a)))
        # initialisers in the public headers
        aoff = {t: o for t, d in h.types.items() for n, o, ty, sz in d['m'] if ty.replace('const ', '') == '*struct bfdev_alloc'}
        for f in h.defined():
            aa = [k for k in range(f.nargs) if f.argtype(k).replace('const ', '') == '*struct bfdev_alloc']
            if not aa or not f.nargs: continue
            ot = f.argtype(0).replace('const ', '')
            if aa[0] == 0:
                for x in f.instrs():
                    if x.o == 'call' and x.callee in FRONT:
                        res.count('header_wrappers')
                        if x.a[0] != 0: res.bad('%s:allocator' % f.src, x.where, 'allocator provenance', '%s does not pass on the caller\'s allocator' % f.src)
                        if x.callee == 'bfdev_realloc' and x.a[1] != 1: res.bad('%s:block' % f.src, x.where, 'allocator provenance', '%s does not pass on the caller\'s block' % f.src)
                continue
            offs = members(h, ot[8:]) if ot.startswith('*struct ') else []
            if not offs: continue
            res.count('initialisers')
            F = Trace(f).run()
            for st, ins, val in F.exits:
                for o in offs:
                    e = st.mem.get(ptradd(mk('arg', 0), o))
                    if e is None or e.v is not mk('arg', aa[0]):
                        res.bad('%s:keep' % f.src, ins.where, 'initialiser keeps the allocator', '%s does not keep the caller\'s allocator in the object' % f.src)
    res.need('allocator_uses', 60); res.need('blocks_kept', 8); res.need('constructors', 4); res.need('initialisers', 4); res.need('local_objects', 4)


def members(m, st, base=0, d=0):
    r = []
    if st not in m.types or d > 4: return r
    for n, o, ty, sz in m.types[st]['m']:
        t = ty.replace('const ', '')
        if t == '*struct bfdev_alloc': r.append(base + o)
        elif t.startswith('struct '): r += members(m, t[7:], base + o, d + 1)
    return r


def libc(m, allowed, res):
    for f in m.defined():
        for x in f.instrs():
            if x.o == 'call' and x.callee in LIBC:
                res.count('libc_allocator_calls')
                if f.src not in allowed and x.loc[2] not in allowed:
                    res.bad('%s:libc' % f.src, x.where, 'allocator front end', '%s calls %s directly instead of the caller\'s allocator' % (f.src, x.callee))
            # address of an allocator function taken elsewhere
            for v in x.a:
                if isinstance(v, list) and v and v[0] == 'f' and v[1] in LIBC:
                    res.bad('%s:libc' % f.src, x.where, 'allocator front end', '%s refers to %s' % (f.src, v[1]))
