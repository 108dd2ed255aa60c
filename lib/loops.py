"""Affine index coverage of counting loops (no execution: induction variable pattern only)."""


def live_in(fn, x, loop):
    """incoming values of a phi that can reach the rest of the loop (a short-circuit condition in the same block may send others out)"""
    t = fn.blocks[x.bb][-1]
    r = list(x.a)
    if loop and t.o == 'br' and t.a and isinstance(t.a[0], int):
        c = fn.by.get(t.a[0])
        if c is not None and c.o == 'phi' and c.bb == x.bb:
            for pb, v in c.a:
                if isinstance(v, list) and v[0] == 'c' and t.d['s'][0 if v[1] else 1] not in loop:
                    r = [(b, w) for b, w in r if b != pb]
    return r


def affine(fn, ref, phi, d=0, loop=None):
    """ref == phi + c -> c, else None"""
    if ref == phi: return 0
    if not isinstance(ref, int) or ref < fn.nargs or d > 8: return None
    x = fn.by.get(ref)
    if x is None: return None
    if x.o in ('zext', 'sext', 'trunc', 'freeze'):
        return affine(fn, x.a[0], phi, d + 1, loop)
    if x.o == 'phi' and loop and x.bb in loop:
        cs = {affine(fn, v, phi, d + 1, loop) for b, v in live_in(fn, x, loop)}
        return next(iter(cs)) if len(cs) == 1 else None
    if x.o in ('add', 'sub') and isinstance(x.a[1], list) and x.a[1][0] == 'c':
        c = affine(fn, x.a[0], phi, d + 1, loop)
        if c is None: return None
        k = x.a[1][1]
        w = int(x.t[1:])
        if k >= 1 << (w - 1): k -= 1 << w
        return c + (k if x.o == 'add' else -k)
    return None


def adj(fn, ref, d=0):
    """(base, constant) of a value"""
    if isinstance(ref, int) and ref >= fn.nargs and d < 8:
        x = fn.by.get(ref)
        if x.o in ('zext', 'sext', 'trunc'): return adj(fn, x.a[0], d + 1)
        if x.o in ('add', 'sub') and isinstance(x.a[1], list) and x.a[1][0] == 'c':
            b, c = adj(fn, x.a[0], d + 1)
            k = x.a[1][1]
            return b, c + (k if x.o == 'add' else -k)
    if isinstance(ref, list) and ref[0] == 'c': return None, ref[1]
    return ref, 0


def counter(fn, h):
    """[(phi id, entry ref, step, entry block)] induction variables of the loop with header h"""
    r = []
    for x in fn.blocks[h]:
        if x.o != 'phi': break
        ent = [(b, v) for b, v in x.a if b not in fn.loops[h]]
        bk = [v for b, v in x.a if b in fn.loops[h]]
        if len(ent) != 1 or not bk: continue
        st = {affine(fn, v, x.i, 0, fn.loops[h]) for v in bk}
        if len(st) == 1 and next(iter(st)) in (1, -1):
            r.append((x.i, ent[0][1], next(iter(st))))
    return r


def exits(fn, h):
    """conditions under which the loop goes on: (pred, lhs ref, rhs ref)"""
    r = []
    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
    for b in fn.loops[h]:
        t = fn.blocks[b][-1]
        if t.o == 'br' and t.a:
            s = t.d['s']
            ins = [x in fn.loops[h] for x in s]
            if all(ins) or not any(ins): continue
            c = fn.by.get(t.a[0]) if isinstance(t.a[0], int) else None
            pol = ins[0]
            if c is not None and c.o == 'phi' and c.bb == b:
                # short-circuit conjunction: both conjuncts hold when the loop goes on
                vs = [(pb, v) for pb, v in c.a]
                bad = [(pb, v) for pb, v in vs if isinstance(v, list) and v[0] == 'c' and bool(v[1]) != pol]
                rest = [(pb, v) for pb, v in vs if (pb, v) not in bad]
                if len(rest) == 1 and isinstance(rest[0][1], int):
                    for pb, v in bad:
                        q = fn.blocks[pb][-1]
                        qc = fn.by.get(q.a[0]) if q.o == 'br' and q.a and isinstance(q.a[0], int) else None
                        if qc is not None and qc.o == 'icmp':
                            r.append((qc.d['p'] if q.d['s'][1] == b else NEG[qc.d['p']], qc.a[0], qc.a[1], pb))
                    c = fn.by.get(rest[0][1])
            while c is not None and c.o == 'xor':
                pol = not pol
                c = fn.by.get(c.a[0]) if isinstance(c.a[0], int) else None
            if c is not None and c.o == 'icmp':
                p = c.d['p'] if pol else NEG[c.d['p']]
                r.append((p, c.a[0], c.a[1], b))
            else:
                r.append((None, None, None, b))
    return r


def coverage(fn, h, idxref, use=None, n=None):
    """is every index from 0 visited?  returns (ok, description) or None when the loop is not of a recognised form.
    use: block of the use, to tell tests before it from tests after it; n: number of elements when the table has a fixed size"""
    good = None
    for phi, ent, step in counter(fn, h):
        c = affine(fn, idxref, phi, 0, fn.loops[h])
        if c is None: continue
        for p, l, r, b in exits(fn, h):
            if p is None: continue
            k = affine(fn, l, phi, 0, fn.loops[h])
            if k is None:
                k = affine(fn, r, phi, 0, fn.loops[h])
                if k is None: continue
                l, r = r, l
                p = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}[p]
            bb, bc = adj(fn, r)
            eb, ec = adj(fn, ent)
            # a test after the use decides about the index of the next iteration
            ce = c if use is None or b == use and b == h or fn.dom(b, use) and b != use else c + step
            if step == 1:
                if eb is not None: continue
                first = ec + c
                if p in ('ne', 'ult', 'slt'): last = bc - 1 - k + ce
                elif p in ('ule', 'sle'): last = bc - k + ce
                else: continue
                if first != 0: return False, 'starts at index %d' % first
                if bb is not None and last < -1: return False, 'stops at bound%+d' % (last + 1)
                if bb is None and n and last < n - 1: return False, 'stops after index %d of %d' % (last, n)
                if bb is not None and last == -1 or bb is None: good = 'ascending from 0'
                elif good is None: return False, 'runs past its bound'
            else:
                if bb is not None: continue
                if p in ('ne', 'ugt', 'sgt'): lo = 1 + bc - k + ce
                elif p in ('uge', 'sge'): lo = bc - k + ce
                else: continue
                if lo > 0: return False, 'stops before index %d' % (lo - 1)
                if eb is not None and ec + c != -1: return False, 'starts at count%+d' % (ec + c)
                if lo < 0 and good is None and p not in ('ne',): return False, 'runs below index 0'
                if lo == 0: good = 'descending to 0'
    return (True, good) if good else None
