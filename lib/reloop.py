from memflow import SLOT_FREE
from ir import slotof
from loops import coverage


def releasing_loops(W, m, res):
    """every loop releasing the elements of a table visits every index"""
    for f in m.defined():
        for h, body in f.loops.items():
            for b in body:
                for x in f.blocks[b]:
                    if x.o != 'call': continue
                    k = None
                    if x.callee == 'bfdev_free': k = 1
                    elif x.callee is None and slotof(f, x) in SLOT_FREE: k = 1
                    elif x.callee in W.summ and W.summ[x.callee].frees: k = min(W.summ[x.callee].frees)
                    if k is None or not isinstance(x.a[k], int): continue
                    y = f.by.get(x.a[k])
                    while y is not None and y.o in ('getelementptr', 'bitcast', 'inttoptr') and not y.d.get('vars'):
                        y = f.by.get(y.a[0]) if isinstance(y.a[0], int) else None
                    if y is None or y.o != 'load': continue
                    g = f.by.get(y.a[0]) if isinstance(y.a[0], int) else None
                    if g is None or g.o != 'getelementptr' or len(g.d['vars']) != 1: continue
                    c = coverage(f, h, g.d["vars"][0][1], x.bb, g.d["arr"][0][0] if len(g.d.get("arr") or []) == 1 else None)
                    if c is None: continue
                    res.count('releasing_loops'); res.sample('loop %s: %s' % (x.where, c[1]))
                    if not c[0]:
                        res.bad('%s:cover' % f.src, x.where, 'releasing loop covers the table', 'the loop releasing table elements in %s %s' % (f.src, c[1]))
