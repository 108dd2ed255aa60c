"""Local shape specifications: given the links around the operands, the exact links afterwards.

Nodes are arguments and fresh symbols, pairwise distinct.  A case gives the cells known before the operation
and the cells that must hold afterwards; every other cell must stay unwritten."""
from trace import *


def S(n): return mk('sym', n)


class Shape(Trace):
    def distinct(s, st, a, b):
        a, b = split(a)[0], split(b)[0]
        return a is not b and a[0] in ('arg', 'sym', 'gv') and b[0] in ('arg', 'sym', 'gv')

    def fact(s, st, v):
        if v[0] == 'sym' or v[0] == 'arg' and v[1] in s.nodes: return (None, None, True)
        if v[0] in ('ptr', 'cmp') or v not in st.facts: pass
        return super().fact(st, v)

    def eval_cmp(s, st, p, a, b, w=64):
        if p in ('eq', 'ne'):
            (ba, oa), (bb, ob) = split(a), split(b)
            if s.distinct(st, ba, bb): return p == 'ne'
        return super().eval_cmp(st, p, a, b, w)

    def fork_needed(s): return False


def ring(seq, off, closed=True):
    """doubly linked cells; off = (next offset, prev offset)"""
    r = {}
    n = len(seq)
    for i in range(n if closed else n - 1):
        a, b = seq[i], seq[(i + 1) % n]
        r[ptradd(a, off[0])] = b
        r[ptradd(b, off[1])] = a
    return r


def run_case(res, f, rule, name, pre, post, retval=None, model=None, nodes=(), free=(), facts=(), pure=()):
    """pre/post: {address: value}; cells in `free` may hold anything afterwards unless in post"""
    res.count('cases')
    F = Shape.__new__(Shape)
    F.nodes = set(nodes)
    Shape.__init__(F, f, [('mem', a, v) for a, v in pre.items()] + list(facts), pure, model)
    F.run()
    if not F.exits:
        res.bad('%s:%s' % (f.src, name), '%s:%d' % (relf(f.file), f.line), rule, '%s does not return when %s' % (f.src, name))
        return F
    names = [a[0] for a in f.args]
    want = dict(pre); want.update(post)
    for st, ins, val in F.exits:
        res.count('exits')
        bad = []
        for a, v in want.items():
            if a in free and a not in post: continue
            e = st.mem.get(a)
            got = e.v if e is not None else None
            if v == 'poison':
                if got is None or got[0] not in ('int', 'op', 'gv') or a in pre and got is pre[a]: bad.append('%s is %s, not a poison value' % (show(a, names), show(got, names) if got else 'unknown'))
            elif got is not v and not (v is NULL and got is not None and F.fact(st, got)[0:2] == (0, 0)):
                bad.append('%s is %s, expected %s' % (show(a, names), show(got, names) if got is not None else 'unknown', show(v, names)))
        for a, e in st.mem.items():
            if e.dirty and a not in want and a not in free and not (split(a)[0][0] == 'al'):
                bad.append('%s is written' % show(a, names))
        if retval is not None:
            if retval in (True, False):
                t = F.truth(st, val) if val is not None else None
                if t is not retval: bad.append('result is %s, expected %s' % (show(val, names), retval))
            elif val is not retval and not (retval is NULL and isnull(F, st, val)): bad.append('result is %s, expected %s' % (show(val, names), show(retval, names)))
        if st.ts.get('tr'):
            bad.append('calls %s' % ', '.join(str(c if isinstance(c, str) else 'callback') for c, a, i in st.ts['tr']))
        if bad:
            res.bad('%s:%s' % (f.src, name), ins.where, rule, '%s, %s: %s' % (f.src, name, '; '.join(bad[:3])))
    return F
