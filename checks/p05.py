from common import *
from flow import *
from ir import slotof, cell
from memflow import SLOT_FREE
from loops import coverage
from reloop import releasing_loops
RULE = 'what a constructor (or growing operation) leaves owned in the object is determined by the ownership analysis; the paired destructor must release the object, each owned member, the elements of each owned table (loops must visit every index from 0), and every node-based container must release its nodes'
EXPLANATION = 'Constructor/destructor pairing computed from ownership summaries; index coverage of releasing loops from their induction variables; unlink-before-release for node removal.'

# (producers, consumer, argument of the consumer): producers returning the object
CREATE = [
    (['bfdev_bloom_create'], 'bfdev_bloom_destroy', 0),
    (['bfdev_cache_create'], 'bfdev_cache_destroy', 0),
    (['bfdev_skiplist_create'], 'bfdev_skiplist_destroy', 0),
    (['bfdev_argv_split'], 'bfdev_argv_destroy', 1),
    (['bfdev_bitmap_alloc', 'bfdev_bitmap_zalloc'], 'bfdev_bitmap_free', 1),
    (['bfdev_btree_alloc'], 'bfdev_btree_free', 1),
]
# producers storing into an object argument
GROW = [
    (['bfdev_array_push', 'bfdev_array_resize', 'bfdev_array_reserve'], 'bfdev_array_release'),
    (['bfdev_fifo_dynamic_alloc'], 'bfdev_fifo_dynamic_free'),
    (['bfdev_ringbuf_dynamic_alloc'], 'bfdev_ringbuf_dynamic_free'),
    (['bfdev_matrix_add', 'bfdev_matrix_set', 'bfdev_matrix_import', 'bfdev_matrix_trans'], 'bfdev_matrix_release'),
    (['bfdev_mpi_add', 'bfdev_mpi_set', 'bfdev_mpi_import', 'bfdev_mpi_mul', 'bfdev_mpi_div'], 'bfdev_mpi_release'),
]
CELLS = [('bfdev_hashmap', 'bfdev_hashmap_release'), ('bfdev_radix_root', 'bfdev_radix_root_release'), ('bfdev_btree_root', 'bfdev_btree_release')]
NODES = [('bfdev_skiplist_insert', ['bfdev_skiplist_destroy', 'bfdev_skiplist_reset'])]
OPS = [('bfdev_cache_algo', 'create', 'destroy'), ('bfdev_ts_algorithm', 'prepare', 'destroy')]


def slotfns(m, st):
    """implementations by initialiser: {global: {member: function}}"""
    mem = {o: n for n, o, ty, sz in m.types[st]['m']}
    r = {}
    for g in m.globals.values():
        if (g.get('dt') or '').replace('const ', '') == 'struct ' + st and 'init' in g:
            for o, v in flat_init(g['init']):
                if v[0] == 'f' and o in mem: r.setdefault(g['name'], {})[mem[o]] = v[1]
    return r


def held(F, res):
    """(owned member offsets, offsets of owned tables of owned blocks) of the returned object"""
    offs = set(); tabs = set()
    rvs = {rv for st, ins, val, rv in F.exits if rv is not None}
    cells = {}
    for o, off, a in F.links:
        if o in rvs: offs.add(off); cells[a] = off
    for st, ins, val, rv in F.exits:
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == 'h':
                for h in st.ts[k]:
                    if h in cells and k[1] is not h: tabs.add(cells[h])
    return offs, tabs


def consumer(res, W, F, argi, offs, tabs, who, obj=True):
    S = W.summ[F.fn.name]
    ex = F.exits[0][1] if F.exits else next(F.fn.instrs())
    if obj:
        res.count('obligations')
        if argi not in S.frees:
            res.bad('%s:object' % F.fn.src, ex.where, 'destroy releases the object', '%s does not release the object %s obtained on every path' % (F.fn.src, who))
    rel = {o for a, o in S.releases if a == argi}
    for o in sorted(offs):
        res.count('obligations')
        if o not in rel:
            res.bad('%s:member' % F.fn.src, ex.where, 'destroy releases owned members', '%s does not release the block %s keeps at offset %d on every path' % (F.fn.src, who, o))
    for o in sorted(tabs):
        res.count('obligations')
        ok = False
        for ins, v, al in F.freesites.values():
            b = split(v)[0]
            if b[0] == 'ld' and b[1][0] == 'idx' or b[0] == 'ld' and split(b[1])[0][0] == 'idx':
                t = split(split(b[1])[0][1])[0]
                while t[0] == 'ptr': t = t[1]
                if t[0] == 'ld' and split(t[1])[1] == o: ok = True
        if not ok:
            res.bad('%s:elements' % F.fn.src, ex.where, 'destroy releases table elements', '%s does not release the elements of the table %s keeps at offset %d' % (F.fn.src, who, o))


def run(ctx, res):
    for dbg in ctx.configs:
        W = ctx.world(dbg); m = W.mod
        for ps, c, ai in CREATE:
            for p in ps:
                fp, fc = need_fn(m, p, c)
                offs, tabs = held(W.flows[fp.name], res)
                if not W.summ[fp.name].owned: raise AnalysisBroken('%s no longer returns owned memory' % p)
                res.count('pairs'); res.sample('%s / %s: members %s tables %s' % (p, c, sorted(offs), sorted(tabs)))
                consumer(res, W, W.flows[fc.name], ai, offs, tabs, p)
        n = 0
        for st, a, b in OPS:
            if st not in m.types: raise AnalysisBroken('type %s not found' % st)
            for g, d in slotfns(m, st).items():
                if a in d and b in d:
                    fa, fb = W.flows[d[a]], W.flows[d[b]]
                    offs, tabs = held(fa, res)
                    n += 1
                    res.count('pairs'); res.sample('%s / %s: members %s tables %s' % (d[a], d[b], sorted(offs), sorted(tabs)))
                    consumer(res, W, fb, 0, offs, tabs, d[a])
        res.count('ops_pairs', n)
        for ps, c in GROW:
            fc = need_fn(m, c)
            for p in ps:
                fp = need_fn(m, p)
                acq = {o for a, o in W.summ[fp.name].acquires if a == 0}
                if not acq: raise AnalysisBroken('%s no longer obtains memory' % p)
                res.count('pairs')
                consumer(res, W, W.flows[fc.name], 0, acq, set(), p, obj=False)
        for stn, c in CELLS:
            fc = need_fn(m, c)
            offs = {o for s, o in W.cells if s == stn}
            if not offs: raise AnalysisBroken('no owned member found in %s' % stn)
            res.count('pairs')
            consumer(res, W, W.flows[fc.name], 0, offs, set(), stn, obj=False)
        for p, cs in NODES:
            for c in cs:
                fc = need_fn(m, c); F = W.flows[fc.name]
                res.count('pairs'); res.count('obligations')
                loops = [l for l in fc.loops.values()]
                if not any(any(ins.bb in l for l in loops) for ins, v, al in F.freesites.values()):
                    res.bad('%s:nodes' % c, F.exits[0][1].where, 'destroy releases the nodes', '%s does not release the nodes %s obtained' % (c, p))
        releasing_loops(W, m, res)
        # removal of one node unlinks it from what still refers to it
        f = need_fn(m, 'bfdev_radix_root_free')
        unlink(res, W, f)
        f = need_fn(m, 'bfdev_skiplist_delete')
        n = 0
        for h, body in f.loops.items():
            if not any(u.o == 'store' and u.d.get('vt') == 'ptr' for b in body for u in f.blocks[b]): continue
            for b in body:
                for x in f.blocks[b]:
                    if x.o != 'getelementptr' or len(x.d['vars']) != 1 or not through(f, x, 'bfdev_skip_node'): continue
                    n += 1
                    c = coverage(f, h, x.d["vars"][0][1], x.bb)
                    if c is not None and not c[0]: res.bad('bfdev_skiplist_delete:levels', x.where, 'unlink before release', 'a released node stays linked: the unlinking loop %s' % c[1])
        res.count('unlink_sites', n)
        # every exit on which a node was found releases it
        F = W.flows[f.name]
        vs = {v for ins, v, al in F.freesites.values()}
        for st, ins, val, rv in F.exits:
            res.count('removal_exits')
            if any(F.fact(st, v)[2] and v in st.facts for v in vs) and not any(('f', v) in st.ts for v in vs):
                res.bad('bfdev_skiplist_delete:kept', ins.where, 'removal releases the node', 'bfdev_skiplist_delete returns without releasing the node it found')
        if not n:
            res.bad('bfdev_skiplist_delete:unlink', '%s:%d' % (relf(f.file), f.line), 'unlink before release', 'no loop unlinks the node from the levels it is linked at before it is released')
    res.need('pairs', 20); res.need('ops_pairs', 4); res.need('releasing_loops', 4)


def through(f, x, stn):
    """does the address computation go through a member of the struct?"""
    while x is not None and x.o == 'getelementptr':
        if any(n.replace('struct.', '') == stn for n, o in x.d['path']): return True
        x = f.by.get(x.a[0]) if isinstance(x.a[0], int) else None
    return False


def unlink(res, W, f):
    """each release of a node inside a loop: the same iteration replaces the link that leads to it"""
    F = W.flows[f.name]
    for ins, v, al in F.freesites.values():
        hs = [h for h in f.loops if ins.bb in f.loops[h]]
        if not hs: continue
        h = min(hs, key=lambda q: len(f.loops[q]))
        res.count('unlink_sites')
        ok = any(x.o == 'store' and x.d.get('vt') == 'ptr' and (f.dom(b, ins.bb) or f.dom(ins.bb, b)) and f.base(x.a[1]) != 'alloca' for b in f.loops[h] for x in f.blocks[b])
        if not ok:
            res.bad('%s:unlink' % f.src, ins.where, 'unlink before release', '%s releases a node without replacing the link that leads to it' % f.src)
