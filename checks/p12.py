import collections
from common import *
from lazy import *
RULE = 'a traversal macro hands its body exactly the elements of the container from its starting point on, in order, each once; the safe forms do so while the body removes and releases the current element'
EXPLANATION = 'Shape analysis of every traversal macro, instantiated one by one, over the compiled IR: for every shape of the container up to a bound and every starting point, the sequence handed to the body is compared with the order the links define. The body of a safe form unlinks the element and from then on any access to it is a violation, as is any decision on a variable that was never set.'

PRE = r'''
#include <bfdev.h>
#include <bfdev/list.h>
#include <bfdev/ilist.h>
#include <bfdev/slist.h>
#include <bfdev/hlist.h>
#include <bfdev/hashtbl.h>
#include <bfdev/hashmap.h>
#include <bfdev/skiplist.h>
#include <bfdev/rbtree.h>
#include <bfdev/heap.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
extern void body(void *pos, unsigned long index);
struct e_list { long pad; bfdev_list_head_t m; };
struct e_ilist { long pad; bfdev_ilist_node_t m; };
struct e_slist { long pad; bfdev_slist_head_t m; };
struct e_hlist { long pad; bfdev_hlist_node_t m; };
struct e_rb { long pad; bfdev_rb_node_t m; };
struct e_heap { long pad; bfdev_heap_node_t m; };
O(list_next, bfdev_list_head_t, next) O(list_prev, bfdev_list_head_t, prev) O(list_m, struct e_list, m)
O(ilist_node, bfdev_ilist_node_t, node_list) O(ilist_head, bfdev_ilist_head_t, node_list) O(ilist_m, struct e_ilist, m)
O(slist_next, bfdev_slist_head_t, next) O(slist_head, bfdev_slist_head_t, next) O(slist_m, struct e_slist, m)
O(hlist_next, bfdev_hlist_node_t, next) O(hlist_pprev, bfdev_hlist_node_t, pprev) O(hlist_head, bfdev_hlist_head_t, node) O(hlist_m, struct e_hlist, m)
O(skip_list, bfdev_skip_node_t, list) O(skip_nodes, bfdev_skip_head_t, nodes)
O(rb_left, bfdev_rb_node_t, left) O(rb_right, bfdev_rb_node_t, right) O(rb_parent, bfdev_rb_node_t, parent) O(rb_color, bfdev_rb_node_t, color) O(rb_m, struct e_rb, m) O(rb_root, bfdev_rb_root_t, node)
O(rbc_root, bfdev_rb_root_cached_t, root) O(rbc_left, bfdev_rb_root_cached_t, leftmost)
O(heap_node, bfdev_heap_root_t, node) O(heap_count, bfdev_heap_root_t, count) O(heap_m, struct e_heap, m)
O(map_buckets, bfdev_hashmap_t, buckets) O(map_cap, bfdev_hashmap_t, capacity)
const unsigned long off_map_capsz = sizeof(((bfdev_hashmap_t *)0)->capacity), off_heap_countsz = sizeof(((bfdev_heap_root_t *)0)->count), off_rb_colorsz = sizeof(((bfdev_rb_node_t *)0)->color);
'''


class It(World):
    """a container with all its links; the traversal may look at nothing else"""
    def __init__(s, mods):
        super().__init__(mods, None); s.seen = []; s.dead = set(); s.rm = None; s.size = {}; s.MAXSTEP = 20000

    def split(s, key): raise Bad('reads what is no link of the container (%s+%d)' % key[:2], s.where)

    def undef(s, t):
        if isinstance(t, tuple): return 'undef' in t[:1] or any(s.undef(x) for x in t if isinstance(x, tuple))
        return False

    def decide(s, t):
        if s.undef(t): raise Bad('decides on a variable that was never set', s.where)
        raise Stuck('decision at %s' % s.where.where)

    def addr(s, p, size, ins, write):
        q = s.force(p)
        if isterm(q) and s.undef(q): raise Bad('follows a variable that was never set', ins)
        return super().addr(q, size, ins, write)

    def check_access(s, p, size, ins, write):
        if p[1] in s.dead: raise Bad('%s an element the body has released' % ('writes' if write else 'reads'), ins)

    def outside(s, fn, ins, c, args):
        if c == 'body':
            s.seen.append((s.force(args[0]), s.force(args[1])))
            if len(s.seen) > 40: raise Bad('does not end', ins)
            if s.rm: s.rm(s, s.seen[-1][0])
            return None
        if isinstance(c, str) and ('log' in c or 'bug' in c): raise Bad('reaches %s' % c, ins)
        raise Stuck('call of %s at %s' % (c, ins.where))


def where(macro):
    """header line that defines the macro"""
    d = os.path.join(REPO, 'include/bfdev')
    for h in sorted(os.listdir(d)):
        if h.endswith('.h'):
            for i, l in enumerate(open(os.path.join(d, h), errors='replace')):
                if re.match(r'#\s*define\s+%s\(' % macro, l): return 'include/bfdev/%s:%d (%s)' % (h, i + 1, macro)
    return 'include/bfdev (%s)' % macro


def trees(n, first=1):
    """all binary trees of n nodes numbered from first in order: (root, {node: (left, right)})"""
    if n == 0: yield 0, {}; return
    for k in range(n):
        for l, a in trees(k, first):
            for r, b in trees(n - 1 - k, first + k + 1):
                yield first + k, {**a, **b, first + k: (l, r)}


def complete(n): return (1 if n else 0), {i: (2 * i if 2 * i <= n else 0, 2 * i + 1 if 2 * i + 1 <= n else 0) for i in range(1, n + 1)}


def walk(root, t, order):
    if not root: return []
    l, r = walk(t[root][0], t, order), walk(t[root][1], t, order)
    return l + [root] + r if order == 'in' else [root] + l + r if order == 'pre' else l + r + [root]


def run(ctx, res):
    mx = 3 if ctx.tier == 'quick' else 5
    L = []; cases = []     # witness lines; cases (macro, text name, function giving the runs)
    def inst(macro, sig, decl, call, fn, idx='0'):
        nm = 't%d' % len(L)
        L.append((macro, 'void %s(%s) { %s %s body(pos, %s); }' % (nm, sig, decl, call, idx)))
        cases.append((macro, nm, fn))
    forms = [('', 'plain'), ('_from', 'from'), ('_continue', 'continue')]

    def sequence(f, form, rev, order, circ):
        """(start, expected) pairs"""
        q = order[::-1] if rev else order
        if form == 'plain': return [(None, q)]
        r = [(x, q[k if form == 'from' else k + 1:]) for k, x in enumerate(q)]
        if circ: r.append(('head', [] if form == 'from' else q))
        elif form == 'from' or f in ('slist', 'hlist'): r.append((0, []))
        return r

    # ---- linear lists
    for f in ('list', 'ilist', 'slist', 'hlist', 'skiplist'):
        circ = f in ('list', 'ilist', 'skiplist')
        nt = {'list': 'bfdev_list_head_t', 'ilist': 'bfdev_list_head_t', 'slist': 'bfdev_slist_head_t', 'hlist': 'bfdev_hlist_node_t', 'skiplist': 'bfdev_skip_node_t'}[f]
        ht = {'list': 'bfdev_list_head_t', 'ilist': 'bfdev_ilist_head_t', 'slist': 'bfdev_slist_head_t', 'hlist': 'bfdev_hlist_head_t', 'skiplist': 'bfdev_skip_head_t'}[f]
        for entry in ((False, True) if f != 'skiplist' else (False,)):
            for rev in ((False, True) if circ else (False,)):
                for suf, form in forms:
                    for safe in (False, True):
                        m = 'bfdev_%s_for_each%s%s%s%s' % (f, '_entry' if entry else '', '_reverse' if rev else '', suf, '_safe' if safe else '')
                        t = 'struct e_%s' % f if entry else nt
                        a = ['pos'] + (['tmp'] if safe else []) + (['head'] if circ or form == 'plain' else []) + (['m'] if entry else [])
                        for level in ((0, 1) if f == 'skiplist' else (None,)):
                            sig = '%s *head' % ht + (', %s *pos' % t if form != 'plain' else '')
                            inst(m, sig, ('%s *pos; ' % t if form == 'plain' else '') + ('%s *tmp; ' % t if safe else ''), '%s(%s)' % (m, ', '.join(a + (['%d' % level] if level is not None else []))),
                                 lambda f=f, entry=entry, rev=rev, form=form, safe=safe, circ=circ, level=level: linear(f, entry, rev, form, safe, circ, level))
    # ---- hash tables
    for tab in ('hashtbl', 'hashmap'):
        for entry in (False, True):
            for safe in (False, True):
                t = 'struct e_hlist' if entry else 'bfdev_hlist_node_t'
                d = '%s *pos; ' % t + ('%s *tmp; ' % t if safe else '')
                a = 'pos, ' + ('tmp, ' if safe else '')
                e = ('_entry' if entry else '') + ('_safe' if safe else '')
                m = 'bfdev_%s_for_each%s' % (tab, e)
                if tab == 'hashmap': inst(m, 'bfdev_hashmap_t *map', d + 'unsigned long i;', '%s(%smap, %si)' % (m, a, 'm, ' if entry else ''), lambda entry=entry, safe=safe: table(entry, safe, 'map'), 'i')
                else:
                    inst(m, 'bfdev_hlist_head_t *tab', d + 'unsigned long i;', '%s(%stab, 4, %si)' % (m, a, 'm, ' if entry else ''), lambda entry=entry, safe=safe: table(entry, safe, 'tab'), 'i')
                    inst(m, 'bfdev_hlist_head_t *tab', d + 'unsigned long i;', '%s(%stab + 0, 2 + 2, %si)' % (m, a, 'm, ' if entry else ''), lambda entry=entry, safe=safe: table(entry, safe, 'tab'), 'i')
                    m = 'bfdev_hashtbl_for_each_idx%s' % e
                    inst(m, 'bfdev_hlist_head_t *tab, unsigned long i', d, '%s(%stab, 4, %si)' % (m, a, 'm, ' if entry else ''), lambda entry=entry, safe=safe: table(entry, safe, 'idx'), 'i')
                    inst(m, 'bfdev_hlist_head_t *tab, unsigned long i', d, '%s(%stab + 0, 4, %s(i & 1) | (i & ~1UL))' % (m, a, 'm, ' if entry else ''), lambda entry=entry, safe=safe: table(entry, safe, 'idx'), 'i')
    # ---- trees
    for entry in (False, True):
        t = 'struct e_rb' if entry else 'bfdev_rb_node_t'; e = '_entry' if entry else ''; mm = ['m'] if entry else []
        for fam in ('rb', 'rb_pre', 'rb_post'):
            order = {'rb': 'in', 'rb_pre': 'pre', 'rb_post': 'post'}[fam]
            for rev in ((False, True) if fam == 'rb' else (False,)):
                for suf, form in forms:
                    for safe in ((False, True) if fam == 'rb_post' else (False,)):
                        end = suf + '_safe' if entry and safe else '_safe' + suf if safe else suf
                        m = 'bfdev_%s_for_each%s%s%s' % (fam, e, '_reverse' if rev else '', end)
                        a = ['pos'] + (['tmp'] if safe else []) + (['root'] if form == 'plain' else []) + mm
                        inst(m, 'bfdev_rb_root_t *root' + (', %s *pos' % t if form != 'plain' else ''), ('%s *pos; ' % t if form == 'plain' else '') + ('%s *tmp; ' % t if safe else ''), '%s(%s)' % (m, ', '.join(a)),
                             lambda entry=entry, rev=rev, form=form, safe=safe, order=order: tree('rb', entry, rev, form, safe, order))
                for safe in ((False, True) if fam == 'rb_post' else (False,)):
                    m = 'bfdev_rb_cached%s_for_each%s%s%s' % (fam[2:], e, '_reverse' if rev else '', '_safe' if safe else '')
                    inst(m, 'bfdev_rb_root_cached_t *root', '%s *pos; ' % t + ('%s *tmp; ' % t if safe else ''), '%s(%s)' % (m, ', '.join(['pos'] + (['tmp'] if safe else []) + ['root'] + mm)),
                         lambda entry=entry, rev=rev, safe=safe, order=order: tree('rbc', entry, rev, 'plain', safe, order))
        t = 'struct e_heap' if entry else 'bfdev_heap_node_t'
        for suf, form in forms:
            m = 'bfdev_heap_for_each%s%s' % (e, suf)
            inst(m, 'bfdev_heap_root_t *root, unsigned long *ip' + (', %s *pos' % t if form != 'plain' else ''), '%s%s' % ('%s *pos; ' % t if form == 'plain' else '', 'unsigned long i%s;' % (' = *ip' if form != 'plain' else '')),
                 '%s(%s)' % (m, ', '.join(['pos', '&i', 'root'] + mm)), lambda entry=entry, form=form: tree('heap', entry, False, form, False, 'level'), '0')
            for safe in (False, True):
                end = suf + '_safe' if entry and safe else '_safe' + suf if safe else suf
                m = 'bfdev_heap_post_for_each%s%s' % (e, end)
                inst(m, 'bfdev_heap_root_t *root' + (', %s *pos' % t if form != 'plain' else ''), ('%s *pos; ' % t if form == 'plain' else '') + ('%s *tmp; ' % t if safe else ''),
                     '%s(%s)' % (m, ', '.join(['pos'] + (['tmp'] if safe else []) + (['root'] if form == 'plain' else []) + mm)), lambda entry=entry, form=form, safe=safe: tree('heap', entry, False, form, safe, 'post'))

    mod = ctx.instantiate('w_p12', PRE, L, res)
    mods = [mod, ctx.lib(True)]
    K = {}
    for n, g in mod.globals.items():
        if n.startswith('off_'):
            from flow import flat_init
            K[n[4:]] = next(v[1] for o, v in flat_init(g['init']))

    def P_(x, off): return 0 if x == 0 else P('n%d' % x, off)

    def kill(links):
        """removal of one element: the links around it close, the element is gone"""
        def rm(w, p):
            if not isp(p) or not p[1].startswith('n'): return
            links(w, p[1]); w.dead.add(p[1])
        return rm

    def linear(f, entry, rev, form, safe, circ, level):
        EO = 0 if f == 'skiplist' else K[f + '_m']
        for n in range(mx + 1):
            for start, exp in sequence(f, form, rev, list(range(1, n + 1)), circ):
                w = It(mods); ring = list(range(1, n + 1))
                if circ:
                    lo = {'list': EO, 'ilist': EO + K['ilist_node'], 'skiplist': K['skip_list'] + 16 * (level or 0)}[f]
                    hp = P('head', {'list': 0, 'ilist': K['ilist_head'], 'skiplist': K['skip_nodes'] + 16 * (level or 0)}[f])
                    at = lambda x: hp if x == 0 else P('n%d' % x, lo)
                    r = [0] + ring
                    for i, x in enumerate(r):
                        a = at(x); w.res[(a[1], a[2] + K['list_next'], 8)] = at(r[(i + 1) % len(r)]); w.res[(a[1], a[2] + K['list_prev'], 8)] = at(r[i - 1])
                    def links(w, o):
                        nx, pv = w.force(w.read(o, lo + K['list_next'])), w.force(w.read(o, lo + K['list_prev']))
                        w.mem[(pv[1], pv[2] + K['list_next'])] = (nx, 8); w.mem[(nx[1], nx[2] + K['list_prev'])] = (pv, 8)
                else:
                    lo = EO; hl = f == 'hlist'
                    hd = P('head', K[f + '_head'])
                    at = lambda x: P_(x, lo)
                    w.res[('head', hd[2], 8)] = at(ring[0]) if ring else 0
                    for i, x in enumerate(ring):
                        w.res[('n%d' % x, lo + K[f + '_next'], 8)] = at(ring[i + 1]) if i + 1 < n else 0
                        if hl: w.res[('n%d' % x, lo + K['hlist_pprev'], 8)] = P('n%d' % ring[i - 1], lo + K['hlist_next']) if i else hd
                    def links(w, o):
                        nx = w.force(w.read(o, lo + K[f + '_next']))
                        for k in [('head', hd[2])] + [('n%d' % x, lo + K[f + '_next']) for x in ring if 'n%d' % x not in w.dead]:
                            if w.force(w.read(*k)) == P(o, lo): w.mem[k] = (nx, 8)
                        if hl and isp(nx): w.mem[(nx[1], lo + K['hlist_pprev'])] = (w.force(w.read(o, lo + K['hlist_pprev'])), 8)
                if safe: w.rm = kill(links)
                po = 0 if entry or f == 'skiplist' else lo
                if start == 'head': sp = P('head', hp[2] - (lo if entry or f == 'skiplist' else 0))
                else: sp = None if start is None else P_(start, po)
                yield w, [P('head')] + ([sp] if form != 'plain' else []), [(P('n%d' % x, po), 0) for x in exp], 'a list of %d elements%s' % (n, '' if start is None else ' from %s' % ('the head' if start == 'head' else 'null' if start == 0 else 'element %d' % start))

    def table(entry, safe, kind):
        EO = K['hlist_m']; NB = 4
        dist = [(0, 0, 0, 0), (1, 0, 2, 0), (0, 3, 0, 1), (2, 1, 1, 2)]
        for ds in dist:
            for only in (range(NB) if kind == 'idx' else (None,)):
                w = It(mods); i = 0; exp = []
                if kind == 'map':
                    w.res[('map', K['map_buckets'], 8)] = P('tab'); w.res[('map', K['map_cap'], K['map_capsz'])] = NB
                own = {}
                for b, c in enumerate(ds):
                    prev = P('tab', 8 * b + K['hlist_head'])
                    w.res[(prev[1], prev[2], 8)] = 0
                    for _ in range(c):
                        i += 1; n = 'n%d' % i; own[n] = b
                        w.res[(prev[1], prev[2], 8)] = P(n, EO); w.res[(n, EO + K['hlist_pprev'], 8)] = prev
                        prev = P(n, EO + K['hlist_next']); w.res[(n, prev[2], 8)] = 0
                        if only in (None, b): exp.append((P(n, 0 if entry else EO), b))
                def links(w, o):
                    nx, pp = w.force(w.read(o, EO + K['hlist_next'])), w.force(w.read(o, EO + K['hlist_pprev']))
                    w.mem[(pp[1], pp[2])] = (nx, 8)
                    if isp(nx): w.mem[(nx[1], EO + K['hlist_pprev'])] = (pp, 8)
                if safe: w.rm = kill(links)
                yield w, [P('map') if kind == 'map' else P('tab')] + ([only] if kind == 'idx' else []), exp, 'buckets of %s elements%s' % ('/'.join(map(str, ds)), '' if only is None else ', bucket %d' % only)

    def tree(f, entry, rev, form, safe, order):
        hp = f == 'heap'
        EO = K['heap_m'] if hp else K['rb_m']
        for n in range((mx + 1) if not hp else 2 * mx + 2):
            for root, t in ([complete(n)] if hp else trees(n)):
                q = list(range(1, n + 1)) if order == 'level' else walk(root, t, order)
                if rev: q = q[::-1]
                starts = [(None, q)] if form == 'plain' else [(x, q[k if form == 'from' else k + 1:]) for k, x in enumerate(q)] + ([(0, [])] if form == 'from' else [])
                for start, exp in starts:
                    w = It(mods)
                    for x, (l, r) in t.items():
                        w.res[('n%d' % x, EO + K['rb_left'], 8)] = P_(l, EO); w.res[('n%d' % x, EO + K['rb_right'], 8)] = P_(r, EO)
                        w.res[('n%d' % x, EO + K['rb_parent'], 8)] = next((P_(y, EO) for y, c in t.items() if x in c), 0)
                        if not hp: w.res[('n%d' % x, EO + K['rb_color'], K['rb_colorsz'])] = 0
                    ro = {'rb': K['rb_root'], 'rbc': K['rbc_root'] + K['rb_root'], 'heap': K['heap_node'] + K['rb_root']}[f]
                    w.res[('root', ro, 8)] = P_(root, EO)
                    if f == 'rbc': w.res[('root', K['rbc_left'], 8)] = P_(walk(root, t, 'in')[0], EO) if n else 0
                    if hp: w.res[('root', K['heap_count'], K['heap_countsz'])] = n
                    if safe: w.rm = kill(lambda w, o: None)
                    args = [P('root')]
                    if order == 'level': w.res[('ip', 0, 8)] = start - 1 if start else 0; args.append(P('ip'))
                    if form != 'plain': args.append(P_(start, 0 if entry else EO))
                    yield w, args, [(P('n%d' % x, 0 if entry else EO), 0) for x in exp], '%s of %d elements%s' % ('a heap' if hp else 'a tree', n, '' if start is None else ' from %s' % ('null' if start == 0 else 'element %d' % start))

    def name(p): return 'null' if p == 0 else p[1] if isp(p) else '?'
    def show(q): return '[' + ' '.join(name(p) + ('/%s' % (i,) if i else '') for p, i in q) + ']'

    done = set()
    for macro, nm, fn in cases:
        f = mod.fn(nm)
        if f is None or f.decl: continue
        loc = where(macro)
        res.count('traversal macros instantiated')
        bad = False
        for w, args, exp, what in fn():
            try:
                w.run(f, args)
                if w.seen != exp:
                    res.bad('seq:%s' % macro, loc, RULE, '%s over %s hands its body %s instead of %s' % (macro, what, show(w.seen), show(exp))); bad = True
            except Bad as e:
                res.bad('seq:%s' % macro, loc, RULE, '%s over %s %s%s' % (macro, what, e.text, ' at %s' % relf(e.ins.where) if e.ins else '')); bad = True
            except Bound: res.bad('seq:%s' % macro, loc, RULE, '%s over %s does not end' % (macro, what)); bad = True
            except Stuck as e: res.undecided('%s over %s' % (macro, what), str(e)); break
            res.count('shapes and starting points')
            if bad: break
        done.add(macro)
        if not bad and len(done) in (1, 40, 80, 120): res.sample('%s: %s -> %s' % (macro, what, show(exp)))
    have = set()
    for h in ('list', 'ilist', 'slist', 'hlist', 'skiplist', 'hashtbl', 'hashmap', 'rbtree', 'heap'):
        try: txt = open(os.path.join(REPO, 'include/bfdev/%s.h' % h)).read()
        except OSError: continue
        have |= set(re.findall(r'#\s*define\s+(bfdev_[a-z_]*for_each[a-z_]*)\(', txt))
    for m in sorted(have - done): res.undecided(m, 'a traversal macro this check does not know')
    res.need('traversal macros instantiated', 100)
    res.need('shapes and starting points', 400)
