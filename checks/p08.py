from common import *
from shape import *
RULE = 'for every local shape around the operands (empty list, one element, neighbours equal or distinct) the operation leaves exactly the specified next/prev links and writes nothing else'
EXPLANATION = 'Case-wise heap effect summaries of every doubly linked list operation over the compiled IR, with consistency checks taken as passed; next and prev of all nodes involved are compared with the specified ring.'
CHECKS = {'bfdev_list_check_add', 'bfdev_list_check_del'}


def model(F, st, ins, c, args):
    if c in CHECKS: return [(st, ONE)]
    return None


def segs(x, others):
    """neighbourhoods of x: (ring, closed)"""
    A, B = others
    return [([x, A], True), ([x, A, B], True), ([B, x, A], False)]


def run(ctx, res):
    for dbg in ctx.configs:
        m = ctx.hdr(dbg)
        mm = {n: o for n, o, ty, sz in m.types['bfdev_list_head']['m']}
        off = (mm['next'], mm['prev'])
        nx, pv = off
        a0, a1, a2 = arg(0), arg(1), arg(2)
        A, B, D, E = S('A'), S('B'), S('D'), S('E')
        R = 'list links'

        def go(fn, name, before, after, poison=(), selfn=(), ret=None, nodes=(0, 1), free=(), post=None, facts=()):
            f = need_fn(m, fn)
            pre = {}
            for seq, cl in before: pre.update(ring(seq, off, cl))
            po = {}
            for seq, cl in after: po.update(ring(seq, off, cl))
            fr = set()
            for x in free:
                fr |= {ptradd(x, nx), ptradd(x, pv)}
            for x in poison:
                po[ptradd(x, nx)] = 'poison'; po[ptradd(x, pv)] = 'poison'
            for x in selfn: po.update(ring([x], off))
            po.update(post or {})
            return run_case(res, f, R, name, pre, po, ret, model, nodes, free=fr, facts=facts)
        # initialisation
        go('bfdev_list_head_init', 'any head', [], [([a0], True)], nodes=(0,))
        # insertion after / before a node
        for before, fn, place in (([a0], 'bfdev_list_add', 1), ([a0], 'bfdev_list_add_prev', 0)):
            for nm, seq, cl in (('single', [a0], True), ('two in the ring', [a0, A], True), ('three in the ring', [a0, A, B], True), ('inside a longer list', [B, a0, A], False)):
                i = seq.index(a0)
                if place: out = seq[:i + 1] + [a1] + seq[i + 1:]
                elif i == 0: out = seq + [a1]
                else: out = seq[:i] + [a1] + seq[i:]
                go(fn, nm, [(seq, cl)], [(out, cl)])
        go('bfdev_list_insert', 'between two nodes', [([a0, a1], False)], [([a0, a2, a1], False)], nodes=(0, 1, 2))
        # removal
        for fn, kw in (('bfdev_list_deluf', dict(free=[a0])), ('bfdev_list_del', dict(poison=[a0])), ('bfdev_list_del_init', dict(selfn=[a0]))):
            for nm, seq, cl in (('last element', [a0, A], True), ('one of two', [a0, A, B], True), ('inside a longer list', [B, a0, A], False)):
                go(fn, nm, [(seq, cl)], [([x for x in seq if x is not a0], cl)], nodes=(0,), **kw)
        go('bfdev_list_del_init', 'unlinked element', [([a0], True)], [([a0], True)], nodes=(0,))
        # replacement: old, new
        for fn, kw in (('bfdev_list_replace', dict(free=[a0])), ('bfdev_list_replace_init', dict(selfn=[a0]))):
            for nm, seq, cl in (('last element', [a0, A], True), ('one of two', [a0, A, B], True), ('inside a longer list', [B, a0, A], False)):
                go(fn, nm, [(seq, cl)], [([a1 if x is a0 else x for x in seq], cl)], **kw)
        # splicing: head, list
        for fn, place, init in (('bfdev_list_splice', 1, 0), ('bfdev_list_splice_prev', 0, 0), ('bfdev_list_splice_init', 1, 1), ('bfdev_list_splice_tail_init', 0, 1)):
            for hn, seq, cl in (('into an empty list', [a0], True), ('into a list of one', [a0, A], True), ('into a list of two', [a0, A, B], True), ('into a longer list', [B, a0, A], False)):
                i = seq.index(a0)
                go(fn, hn + ', nothing to move', [(seq, cl), ([a1], True)], [(seq, cl), ([a1], True)])
                for ln, l in (('one element', [D]), ('two elements', [D, E])):
                    if place: out = seq[:i + 1] + l + seq[i + 1:]
                    elif i == 0: out = seq + l
                    else: out = seq[:i] + l + seq[i:]
                    go(fn, '%s, %s' % (hn, ln), [(seq, cl), ([a1] + l, True)], [(out, cl)], **(dict(selfn=[a1]) if init else dict(free=[a1])))
        # moving: head, node (same or different list)
        for fn, place in (('bfdev_list_move', 1), ('bfdev_list_move_prev', 0)):
            for nm, seqs in (('from another list', [([a0], True), ([D, a1], True)]), ('from another list into a longer one', [([B, a0, A], False), ([D, a1, E], False)]),
                             ('only element', [([a0, a1], True)]), ('first of two', [([a0, a1, A], True)]), ('last of two', [([a0, A, a1], True)]), ('middle of three', [([a0, A, a1, B], True)])):
                aft = []
                for seq, cl in seqs:
                    s2 = [x for x in seq if x is not a1]
                    if a0 in s2:
                        i = s2.index(a0)
                        if place: s2 = s2[:i + 1] + [a1] + s2[i + 1:]
                        elif i == 0: s2 = s2 + [a1]
                        else: s2 = s2[:i] + [a1] + s2[i:]
                    aft.append((s2, cl))
                go(fn, nm, seqs, aft)
        # swapping two nodes
        for nm, seq, cl in (('adjacent', [A, a0, a1, B], False), ('adjacent, reversed', [A, a1, a0, B], False), ('adjacent in a list of two', [A, a0, a1], True), ('reversed in a list of two', [A, a1, a0], True),
                            ('one between', [A, a0, D, a1, B], False), ('one between, reversed', [A, a1, D, a0, B], False), ('apart', [A, a0, D], False)):
            sw = lambda s: [a1 if x is a0 else a0 if x is a1 else x for x in s]
            seqs = [(seq, cl)] + ([([B, a1, E], False)] if nm == 'apart' else [])
            go('bfdev_list_swap', nm, seqs, [(sw(s), c) for s, c in seqs])
        # queries
        for fn, cs in {
            'bfdev_list_check_empty': [([([a0], True)], True), ([([a0, A], True)], False), ([([B, a0, A], False)], False)],
            'bfdev_list_check_first': [([([a0, a1, A], True)], True), ([([a0, A, a1], True)], False)],
            'bfdev_list_check_end': [([([a0, A, a1], True)], True), ([([a0, a1, A], True)], False)],
            'bfdev_list_check_another': [([([a0, a1], True)], True), ([([a0, a1, A], True)], False), ([([a0, A, a1], True)], False), ([([a0, A, a1, B], True)], False)],
            'bfdev_list_check_head': [([([a0, a1], True)], False)],
        }.items():
            for k, (seqs, r) in enumerate(cs):
                go(fn, 'shape %d' % k, seqs, seqs, ret=r)
        res.count('operations', 20)
    res.need('cases', 90)
