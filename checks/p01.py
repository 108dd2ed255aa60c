from common import *
RULE = 'every allocation (and every call that can fail for lack of memory) is forked into success and failure; on the failure path no load, store or block operation may go through the failed pointer'
EXPLANATION = 'Path sensitive dataflow over the compiled IR of every library function; the failure outcome of each allocation site is followed to every access.'


def run(ctx, res):
    for dbg in ctx.configs:
        W = ctx.world(dbg)
        for n, F in W.flows.items():
            res.count('functions')
            res.count('allocation_sites', len(F.allocsites))
            res.count('fallible_calls', sum(1 for x in F.fn.instrs() if x.o == 'call' and x.callee in W.summ and W.summ[x.callee].fallible))
            for i, (ins, al, sz) in F.allocsites.items(): res.sample('%s: %s' % (n, ins.where))
            for k, ins, t in F.reports:
                if k == 'null': res.bad('%s:null' % F.fn.src, ins.where, 'unchecked allocation', '%s: %s' % (F.fn.src, t))
    res.need('allocation_sites', 22); res.need('functions', 250); res.need('fallible_calls', 60)
