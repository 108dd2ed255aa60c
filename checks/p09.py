from common import *
from shape import *
RULE = 'for every local shape around the operands the operation leaves exactly the specified forward links and back references and writes nothing else; searches start at the head and follow every forward link'
EXPLANATION = 'Case-wise heap effect summaries of the singly linked list and hash list operations over the compiled IR, with consistency checks taken as passed.'


def model(F, st, ins, c, args):
    if isinstance(c, str) and c.startswith(('bfdev_hlist_check_', 'bfdev_slist_check_')) and c.endswith(('_add', '_del')): return [(st, ONE)]
    return None


def run(ctx, res):
    for dbg in ctx.configs:
        m = ctx.hdr(dbg)
        so = {n: o for n, o, ty, sz in m.types['bfdev_slist_head']['m']}['next']
        hm = {n: o for n, o, ty, sz in m.types['bfdev_hlist_node']['m']}
        ho = {n: o for n, o, ty, sz in m.types['bfdev_hlist_head']['m']}['node']
        hn, hp = hm['next'], hm['pprev']
        a0, a1, a2 = arg(0), arg(1), arg(2)
        A, B, D = S('A'), S('B'), S('D')
        H = S('H')

        def chain(seq, head=None):
            """hash list cells: head first, None terminated"""
            r = {}
            prev = None if head is None else ptradd(head, ho)
            for i, x in enumerate(seq):
                if prev is not None:
                    r[prev] = x if x is not None else NULL
                    if x is not None: r[ptradd(x, hp)] = prev
                prev = ptradd(x, hn) if x is not None else None
            return r

        def sl(seq):
            return {ptradd(a, so): (b if b is not None else NULL) for a, b in zip(seq, seq[1:])}

        def go(fn, name, pre, post, ret=None, nodes=(0, 1), free=(), **kw):
            return run_case(res, need_fn(m, fn), 'list links', name, pre, post, ret, model, nodes, free=set(free), **kw)
        # singly linked
        go('bfdev_slist_head_init', 'any head', {}, {ptradd(a0, so): NULL}, nodes=(0,))
        for nm, n in (('at the end', None), ('before another', A)):
            go('bfdev_slist_add', nm, sl([a0, n]), sl([a0, a1, n]))
        for fn, cs in {
            'bfdev_slist_check_empty': [(sl([a0, None]), True), (sl([a0, A]), False)],
            'bfdev_slist_check_end': [(sl([a0, None]), True), (sl([a0, A]), False)],
            'bfdev_slist_check_first': [(sl([a0, a1]), True), (sl([a0, A, a1]), False), (sl([a0, None]), False)],
            'bfdev_slist_check_another': [(sl([a0, a1, None]), True), (sl([a0, a1, A]), False), (sl([a0, A, a1, None]), False)],
        }.items():
            for k, (c, r) in enumerate(cs): go(fn, 'shape %d' % k, c, {}, ret=r)
        walker(res, need_fn(m, 'bfdev_slist_del'), so, a0, a1, None)
        walker(res, need_fn(m, 'bfdev_slist_replace'), so, a0, a1, a2)
        # hash list
        go('bfdev_hlist_head_init', 'any head', {}, {ptradd(a0, ho): NULL}, nodes=(0,))
        go('bfdev_hlist_node_init', 'any node', {}, {ptradd(a0, hn): NULL, ptradd(a0, hp): NULL}, nodes=(0,))
        for nm, n in (('empty list', None), ('non-empty list', A)):
            go('bfdev_hlist_head_add', nm, chain([n], a0), chain([a1, n], a0))
        for nm, n in (('at the end', None), ('before another', A)):
            go('bfdev_hlist_next_add', nm, chain([a0, n]), chain([a0, a1, n]))
        go('bfdev_hlist_prev_add', 'first element', chain([a0], H), chain([a1, a0], H), free=[ptradd(a0, hn)])
        go('bfdev_hlist_prev_add', 'after another', chain([A, a0]), chain([A, a1, a0]), free=[ptradd(a0, hn)])
        for fn, kw in (('bfdev_hlist_deluf', None), ('bfdev_hlist_del', 'poison'), ('bfdev_hlist_del_init', NULL)):
            own = {ptradd(a0, hn): kw, ptradd(a0, hp): kw} if kw is not None else {}
            fr = [ptradd(a0, hn), ptradd(a0, hp)]
            for nm, n in (('last', None), ('not last', A)):
                go(fn, 'first and ' + nm, chain([a0, n], H), dict(chain([n], H), **{}) | own, nodes=(0,), free=fr)
                go(fn, 'not first and ' + nm, chain([B, a0, n]), chain([B, n]) | own, nodes=(0,), free=fr)
        for nm, n in (('last', None), ('not last', A)):
            fr = [ptradd(a0, hn), ptradd(a0, hp)]
            go('bfdev_hlist_replace', 'first and ' + nm, chain([a0, n], H), chain([a1, n], H), free=fr)
            go('bfdev_hlist_replace', 'not first and ' + nm, chain([B, a0, n]), chain([B, a1, n]), free=fr)
        go('bfdev_hlist_head_replace', 'empty list', chain([None], a0), {ptradd(a0, ho): NULL, ptradd(a1, ho): NULL})
        go('bfdev_hlist_head_replace', 'non-empty list', chain([A], a0), {ptradd(a0, ho): NULL} | chain([A], a1))
        for fn, cs in {
            'bfdev_hlist_check_empty': [(chain([None], a0), True), (chain([A], a0), False)],
            'bfdev_hlist_check_end': [(chain([a0, None]), True), (chain([a0, A]), False)],
            'bfdev_hlist_check_first': [(chain([a1], a0), True), (chain([A, a1], a0), False), (chain([None], a0), False)],
            'bfdev_hlist_check_another': [(chain([a1, None], a0), True), (chain([a1, A], a0), False), (chain([A, a1, None], a0), False)],
            'bfdev_hlist_check_unhashed': [({ptradd(a0, hp): NULL}, True), (chain([B, a0]), False)],
        }.items():
            for k, (c, r) in enumerate(cs): go(fn, 'shape %d' % k, c, {}, ret=r)
    res.need('cases', 50); res.need('searches', 2)


class Walk(Shape):
    def distinct(s, st, a, b):
        # elements visited before the node sought differ from it and from a node that is not in the list
        a, b = split(a)[0], split(b)[0]
        for x, y in ((a, b), (b, a)):
            if x[0] == 'phi' and y[0] in ('arg', 'sym') and y is not mk('arg', 0): return True
        return super().distinct(st, a, b)

    def on_phi(s, st, ins, sym, val):
        s.phis.setdefault(ins.i, []).append((val, s.load_at(st, sym)))

    def load_at(s, st, sym):
        e = st.mem.get(ptradd(sym, s.so))
        return e.v if e is not None else None


def walker(res, f, so, head, old, new):
    """search from the head for the predecessor, then relink"""
    res.count('searches'); res.count('cases')
    F = Walk.__new__(Walk); F.nodes = {0, 1, 2}; F.phis = {}; F.so = so
    nxt = S('next of old')
    Shape.__init__(F, f, [('mem', ptradd(old, so), nxt)], (), model)
    F.run()
    where = '%s:%d' % (relf(f.file), f.line)
    R = 'list links'
    if not F.exits: res.bad('%s:walk' % f.src, where, R, '%s never returns' % f.src)
    names = [a[0] for a in f.args]
    for i, vs in F.phis.items():
        sym = mk('phi', i)
        ent = [v for v, n in vs if v is not None and not _mentions(v, i)]
        back = [(v, n) for v, n in vs if v is not None and _mentions(v, i)]
        if not any(v is head for v in ent): res.bad('%s:start' % f.src, where, R, '%s does not search from the head (starts at %s)' % (f.src, show(ent[0], names) if ent else '?'))
        for v, n in back:
            if not (v[0] == 'ld' and v[1] is ptradd(sym, so)): res.bad('%s:step' % f.src, where, R, '%s does not follow the forward link (steps to %s)' % (f.src, show(v, names)))
    for st, ins, val in F.exits:
        if st.ts.get('tr'): continue
        w = {a: e.v for a, e in st.mem.items() if e.dirty and split(a)[0][0] != 'al'}
        P = [a for a in w if split(a)[0][0] == 'phi' and split(a)[1] == so]
        bad = None
        if len(P) != 1 and not (head in [split(a)[0] for a in w]): bad = 'the predecessor is not relinked'
        elif P:
            p = split(P[0])[0]
            # the loop was left because the predecessor's forward link is the node
            e = [v for v in st.facts if v[0] == 'cmp' and v[1] == 'eq' and st.facts[v][0] == 1 and (v[2] is old or v[3] is old) and any(x[0] == 'ld' and x[1] is ptradd(p, so) for x in v[2:4])]
            if not e: bad = 'the relinked element is not known to be the predecessor'
            elif new is None:
                if w[P[0]] is not nxt: bad = 'the predecessor is linked to %s instead of the successor' % show(w[P[0]], names)
                rest = {a: v for a, v in w.items() if a is not P[0]}
                if set(rest) != {ptradd(old, so)} or rest[ptradd(old, so)][0] != 'int': bad = bad or 'the removed element keeps its link or something else is written'
            else:
                if w[P[0]] is not new: bad = 'the predecessor is linked to %s instead of the replacement' % show(w[P[0]], names)
                if w.get(ptradd(new, so)) is not nxt or len(w) != 2: bad = bad or 'the replacement is not linked to the successor'
        if bad: res.bad('%s:relink' % f.src, ins.where, R, '%s: %s' % (f.src, bad))


def _mentions(v, i):
    return any(y is mk('phi', i) for y in syms(v))
