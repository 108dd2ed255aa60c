from common import *
from reloop import releasing_loops
RULE = 'ownership typestate: obtained -> (linked into a live object | returned | released exactly once); released memory is neither accessed, released again, nor still referenced by the object on return; a reference to an owned block is not overwritten before the block is released or moved'
EXPLANATION = 'Path sensitive ownership analysis of every library function on every path, including every allocation failure path.'
KINDS = {'leak', 'lost', 'uaf', 'dfree', 'badfree', 'dangle'}


def run(ctx, res):
    for dbg in ctx.configs:
        W = ctx.world(dbg)
        for n, F in W.flows.items():
            res.count('functions')
            res.count('allocation_sites', len(F.allocsites))
            res.count('release_sites', len(F.freesites))
            res.count('exit_states', len(F.exits))
            for i, (ins, v, al) in F.freesites.items(): res.sample('release %s: %s of %s' % (n, ins.where, F.sh(v)))
            for k, ins, t in F.reports:
                if k in KINDS: res.bad('%s:%s' % (F.fn.src, k), ins.where, k, '%s: %s' % (F.fn.src, t))
        releasing_loops(W, W.mod, res)
    res.need('allocation_sites', 22); res.need('release_sites', 30); res.need('functions', 250)
