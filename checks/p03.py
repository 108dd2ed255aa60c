from common import *
from flow import NULL
RULE = 'on every path on which an allocation (or a call that failed for lack of memory) failed and which still reaches a return, the returned value is null (pointer results) or a negative error code (integer results)'
EXPLANATION = 'Every failing allocation site is followed through all callers to every return of every library function.'
# the operation itself does not need the memory: a table that could not be shrunk stays larger
OPTIONAL = {'bfdev_hashmap_del': 'shrinking is an optimisation; the larger table stays valid'}


def run(ctx, res):
    for dbg in ctx.configs:
        W = ctx.world(dbg)
        for n, F in W.flows.items():
            S = W.summ[n]
            hit = False
            for st, ins, val, rv in F.exits:
                fl = st.ts.get('fail')
                if not fl: continue
                hit = True
                res.count('failing_exits')
                if F.fn.src in OPTIONAL: continue
                if S.kind == 'ptr': ok = val is NULL or F.fact(st, val)[0:2] == (0, 0)
                elif S.kind == 'int': ok = F.fact(st, val)[1] is not None and F.fact(st, val)[1] < 0
                else: ok = False
                if not ok:
                    res.bad('%s:dropped' % F.fn.src, ins.where, 'failure not reported', '%s returns %s although the allocation at %s failed' % (F.fn.src, F.sh(val) if val is not None else 'nothing', ', '.join(sorted(fl))))
            if hit:
                res.count('fallible_functions'); res.sample(n)
    res.need('fallible_functions', 50); res.need('failing_exits', 60)
