"""Shared context, result collection, evidence and known findings."""
import glob, json, os, re, sys, time
from build import Tree, AnalysisBroken, REPO, VERIF
from ir import Module, relf


class Ctx:
    def __init__(s, tier):
        s.tier = tier
        s._tree = {}; s._lib = {}; s._hdr = {}; s._eff = {}; s._world = {}; s._wit = {}
        s.configs = [True] if tier == 'quick' else [True, False]

    def tree(s, debug=True):
        if debug not in s._tree: s._tree[debug] = Tree(debug)
        return s._tree[debug]

    def lib(s, debug=True, opts=()):
        k = (debug, tuple(opts))
        if k not in s._lib:
            t = s.tree(debug)
            bc = t.dir + '/all.bc'
            if not os.path.exists(bc): t.bitcode()
            s._lib[k] = Module(t.dump(bc, list(opts)))
        return s._lib[k]

    def headers(s):
        inc = REPO + '/include'
        hs = sorted(os.path.relpath(p, inc) for p in glob.glob(inc + '/bfdev/**/*.h', recursive=True))
        return [h for h in hs if not any(x in h for x in ('asm-generic', '/port/', '/compiler/', 'byteorder/'))]

    def hdr(s, debug=True, opts=()):
        """every inline function of the public headers, forced out of line"""
        k = (debug, tuple(opts))
        if k not in s._hdr:
            t = s.tree(debug)
            w = t.dir + '/hdr.c'
            with open(w, 'w') as f:
                f.write(''.join('#include <%s>\n' % h for h in s.headers()))
            t.cc(w, t.dir + '/hdr.bc', extra=['-Dinline=inline __attribute__((used))'])
            s._hdr[k] = Module(t.dump(t.dir + '/hdr.bc', list(opts)))
        return s._hdr[k]

    def witness(s, name, debug=True, opts=(), extra=()):
        """one of our own translation units that instantiates the repository's macros and inline functions"""
        k = (name, debug, tuple(opts))
        if k not in s._wit:
            t = s.tree(debug)
            out = '%s/w_%s.bc' % (t.dir, os.path.basename(name).replace('.', '_'))
            t.cc(name if os.path.isabs(name) else os.path.join(VERIF, 'witness', name), out, extra=['-I' + os.path.join(VERIF, 'witness')] + list(extra))
            s._wit[k] = Module(t.dump(out, list(opts)))
        return s._wit[k]

    def instantiate(s, name, prelude, lines, res, debug=True, extra=(), link_tables=True):
        """witness unit with one instantiation per line: lines = [(what, text)].  An instantiation the compiler
        rejects is a violation for that line (the construct cannot be used at all); the rest is analysed."""
        t = s.tree(debug)
        path = '%s/%s.c' % (t.dir, name); dead = set()
        base = prelude.count('\n') + 1
        for _ in range(4):
            with open(path, 'w') as f:
                f.write(prelude + '\n')
                for i, (_, x) in enumerate(lines):
                    assert '\n' not in x
                    f.write(('' if i in dead else x) + '\n')
            out = '%s/%s.bc' % (t.dir, name)
            try:
                t.cc(path, out, extra=['-ferror-limit=0'] + list(extra)); break
            except AnalysisBroken as e:
                new = {}
                for ln, msg in re.findall(re.escape(path) + r':(\d+):\d+: (?:fatal )?error: (.*)', str(e.args[0] if not hasattr(e, 'full') else e.full)):
                    i = int(ln) - base - 1
                    if 0 <= i < len(lines): new.setdefault(i, msg)
                if not new: raise
                for i, msg in new.items():
                    dead.add(i)
                    res.bad('%s:compiles' % lines[i][0], 'include/bfdev', 'the construct compiles when it is used', '%s cannot be instantiated: %s' % (lines[i][0], msg))
        else: raise AnalysisBroken('witness %s does not compile' % name)
        m = Module(t.dump(out))
        if link_tables:
            for g, gd in s.lib(debug).globals.items():
                if g in m.globals and 'init' not in m.globals[g] and 'init' in gd: m.globals[g] = gd
        m.dead = {lines[i][0] for i in dead}
        return m

    def eff(s, mod):
        from effects import Effects
        if id(mod) not in s._eff: s._eff[id(mod)] = Effects(mod)
        return s._eff[id(mod)]

    def world(s, debug=True):
        from memflow import World
        if debug not in s._world:
            m = s.lib(debug)
            s._world[debug] = World(m, s.eff(m)).run()
            if s._world[debug].budget:
                raise AnalysisBroken('state budget exceeded in %s' % s._world[debug].budget)
        return s._world[debug]


class Result:
    def __init__(s):
        s.viol = []; s.keys = set(); s.cov = {}; s.assume = []; s.samples = []

    def bad(s, key, where, rule, text):
        """key: stable identity of the finding (no line numbers)"""
        if (key, where) in s.keys: return
        s.keys.add((key, where))
        s.viol.append({'key': key, 'where': where, 'rule': rule, 'text': text})

    def undecided(s, what, why):
        """an instance the analysis could not express: listed, and bounded by the coverage the check demands"""
        s.count('undecided_instances')
        s.assume.append('undecided on this tree: %s (%s)' % (what, why))
        print('UNDECIDED %s: %s' % (what, why))

    def count(s, name, n=1):
        s.cov[name] = s.cov.get(name, 0) + n

    def need(s, name, n):
        if s.cov.get(name, 0) < n:
            raise AnalysisBroken('%s: %d instances analysed, at least %d expected' % (name, s.cov.get(name, 0), n))

    def sample(s, x):
        if len(s.samples) < 12: s.samples.append(x)


def need_fn(mod, *names):
    r = []
    for n in names:
        f = mod.fn(n)
        if f is None:
            raise AnalysisBroken('function %s not found in the analysed program' % n)
        r.append(f)
    return r[0] if len(r) == 1 else r
