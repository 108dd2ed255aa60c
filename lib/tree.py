"""Binary trees with parent links on top of lazy.World: red-black trees and heaps."""
from lazy import *


class Tree(World):
    def __init__(s, mods, oracle, lay, rb=True, maxup=4, maxdown=4):
        super().__init__(mods, oracle)
        s.L, s.R, s.Pp, s.C, s.rootoff = lay; s.rb = rb; s.maxup = maxup; s.maxdown = maxdown
        s.n = 0; s.dep = {}; s.up = {}; s.d = {}; s.col = {}; s.hlo = 0; s.hfix = None; s.wild = set(); s.dead = set()
        s.cb = []; s.aug = {}; s.nodes = []; s.cut = set()

    # ---- black heights: every height is h + d with one unknown h
    def atleast(s, d, k):
        if s.hfix is not None:
            if s.hfix + d < k: raise Infeasible()
        else: s.hlo = max(s.hlo, k - d)

    def equals(s, d, k):
        v = k - d
        if s.hfix is not None:
            if s.hfix != v: raise Infeasible()
        elif v < s.hlo: raise Infeasible()
        else: s.hfix = v

    def can(s, d, k):
        v = k - d
        return s.hfix == v if s.hfix is not None else v >= s.hlo

    def canleast(s, d, k): return s.hfix is None or s.hfix + d >= k

    def new(s, color, d, dep, up, name=None):
        s.n += 1; n = name or 'n%d' % s.n
        s.dep[n] = dep; s.up[n] = up; s.nodes.append(n)
        if s.rb:
            s.col[n] = color; s.d[n] = d; s.res[(n, s.C, 1)] = color
            s.atleast(d, 1 if color else 0)
        return n

    def start(s, name='node', color=None, d=None):
        """a node anywhere in a valid tree"""
        if s.rb and color is None: color = s.choose([0, 1])
        return s.new(color, color if d is None else d, 0, 0, name)

    def cells(s, obj):
        if obj in s.dep: return [(s.L, 8), (s.R, 8), (s.Pp, 8)] + ([(s.C, 1)] if s.C is not None else [])
        return None

    def split(s, key):
        n, off, size = key
        if n == 'root' and off == s.rootoff: return s.split_root()
        if n not in s.dep: return s.split_other(key)
        if off in (s.L, s.R):
            opts = []
            if s.rb:
                dc = s.d[n] - s.col[n]
                if s.can(dc, 0): opts.append(None)
                if s.dep[n] < s.maxdown:
                    if s.col[n] and s.canleast(dc, 0): opts.append(0)
                    if s.canleast(dc, 1): opts.append(1)
            else:
                opts = [None] + ([0] if s.dep[n] < s.maxdown else [])
                opts = s.shape_opts(n, off, opts)
            c = s.choose(opts)
            if c is None:
                if s.rb: s.equals(dc, 0)
                return 0
            m = s.new(c, dc if s.rb else None, s.dep[n] + 1, 0)
            s.res[(m, s.Pp, 8)] = P(n)
            return P(m)
        if off == s.Pp:
            opts = []
            if not s.rb or s.col[n] or n in s.wild: opts.append(None)
            if s.up[n] < s.maxup: opts += [(sd, c) for sd in (s.L, s.R) for c in ((0, 1) if s.rb and (s.col[n] or n in s.wild) and s.up[n] + 1 < s.maxup else (1,))]
            c = s.choose(opts)
            if c is None: return 0
            sd, c = c
            m = s.new(c, s.d[n] + c if s.rb else None, 0, s.up[n] + 1)
            s.res[(m, sd, 8)] = P(n)
            return P(m)
        return s.split_other(key)

    def shape_opts(s, n, off, opts): return opts

    def split_root(s):
        """the tree from its root"""
        tops = [n for n in s.nodes if s.dep[n] == 0]
        if tops:
            # the root is the topmost known node, or further up than we look
            t = max(tops, key=lambda n: s.up[n])
            v = s.force(('z', (t, s.Pp, 8)))
            while v != 0:
                t = v[1]; v = s.force(('z', (t, s.Pp, 8)))
            return P(t)
        if s.choose([True, False]): return 0
        r = s.new(1, 1, 0, 0)
        s.res[(r, s.Pp, 8)] = 0
        return P(r)

    def split_other(s, key): raise Stuck('cell %s' % (key,))

    def check_access(s, p, size, ins, write):
        if p[1] in s.dead: raise Bad('%s a released node' % ('writes to' if write else 'reads'), ins)

    # ---- original and final structure
    def old(s, n, off):
        k = (n, off, 8)
        v = s.res.get(k)
        return ('z', k) if v is None else v

    def cur(s, n, off): return s.peek(s.read(n, off, 8))

    def fold(s, get, v, seen, order='in'):
        """sequence of nodes and summarised subtrees"""
        if v == 0: return []
        if isz(v): return [('T',) + v[1][:2]]
        if not isp(v): raise Bad('a link holds %s' % (v,))
        n = v[1]
        if n not in s.dep or v[2]: raise Bad('a link leads to something that is not a node of the tree')
        if n in seen: raise Bad('node %s is linked twice' % n)
        seen.add(n)
        l = s.fold(get, get(n, s.L), seen, order)
        r = s.fold(get, get(n, s.R), seen, order)
        return l + [n] + r if order == 'in' else [n] + l + r if order == 'pre' else l + r + [n]

    def oldtop(s):
        """topmost node known originally, and whether it is the root"""
        t = max((n for n in s.nodes if s.dep[n] == 0), key=lambda n: s.up[n], default=None)
        if t is None: return None, True
        return t, s.old(t, s.Pp) == 0

    def newtop(s, top, isroot, newroot=None):
        """what stands at the place of the original top"""
        if isroot:
            v = s.peek(s.read('root', s.rootoff, 8))
            if isz(v) and v[1][0] == 'root': return P(top) if top else 0
            return v
        if ('root', s.rootoff) in s.mem: raise Bad('the root link is changed although the node is not below the root')
        return P(top)

    def check_links(s, v, up):
        """parent links of the final tree"""
        if v == 0 or isz(v): return
        n = v[1]
        p = s.cur(n, s.Pp)
        if up == 'same':
            if not (isz(p) and p[1] == (n, s.Pp, 8)): raise Bad('the parent link of the subtree is changed')
        elif p != up: raise Bad('the parent link of %s does not lead to its parent' % n)
        for off in (s.L, s.R):
            c = s.cur(n, off)
            if isz(c):
                if c[1][0] != n: raise Bad('a subtree is moved below %s without changing its parent link' % n)
            else: s.check_links(c, P(n))

    def bheight(s, v, pred):
        """black height offset of the final tree ('d' value, None for an empty one)"""
        if v == 0: return ('abs', 0)
        if isz(v):
            n, off = v[1][:2]
            if pred: pass
            return ('rel', s.d[n] - s.col[n])
        n = v[1]
        c = s.peek(s.read(n, s.C, 1))
        if c not in (0, 1): raise Bad('the colour of %s is neither red nor black' % n)
        for off in (s.L, s.R):
            w = s.cur(n, off)
            if c == 0:
                if isz(w):
                    if s.col[w[1][0]] == 1: raise Bad('red node %s may have a red child' % n)
                elif isp(w) and s.peek(s.read(w[1], s.C, 1)) == 0: raise Bad('red node %s has the red child %s' % (n, w[1]))
        a, b = (s.bheight(s.cur(n, off), n) for off in (s.L, s.R))
        if not s.sameh(a, b): raise Bad('the black heights below %s differ' % n)
        k = a if a[0] == 'rel' or s.hfix is None else a
        return (k[0], k[1] + c)

    def sameh(s, a, b):
        if a[0] == b[0]: return a[1] == b[1]
        if s.hfix is None: return False
        v = lambda x: x[1] + (s.hfix if x[0] == 'rel' else 0)
        return v(a) == v(b)

    def check_rb(s, v, top, isroot):
        bh = s.bheight(v, None)
        if isroot:
            if isp(v) and s.peek(s.read(v[1], s.C, 1)) != 1: raise Bad('the root is red')
        else:
            if not s.sameh(bh, ('rel', s.d[top])): raise Bad('the black height of the subtree changes')
            if s.col[top] == 1 and isp(v) and s.peek(s.read(v[1], s.C, 1)) == 0: raise Bad('a black node below an unknown one becomes red')
