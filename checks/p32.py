import os, re, subprocess
from common import *
from build import tool
from par import par
RULE = 'a public header stands alone, and whatever it declares is defined by the library, visible, with the declared type'
EXPLANATION = 'Every public header is compiled alone and twice in one unit, as C, in the debug and the release configuration; every function and variable its preprocessed text declares external is looked up in the library: defined, not local, not hidden, with the result and parameter types of the declaration; every group of declarations that is opened for C++ is closed.'


def declared(text):
    """names declared external at file level of a preprocessed unit, with the file of the declaration"""
    out = {}; f = ''; buf = ''; depth = 0
    for line in text.split('\n'):
        m = re.match(r'# \d+ "([^"]*)"', line)
        if m: f = m.group(1); continue
        if line.startswith('#'): continue
        for part in re.split(r'([{};])', line):
            if part == '{': depth += 1; buf += ' '
            elif part == '}':
                depth -= 1
                if depth == 0 and '=' not in buf and 'struct' not in buf.split('(')[0] and 'enum' not in buf and 'union' not in buf: buf = ''
            elif part == ';':
                if depth == 0:
                    d = re.sub(r'__attribute__\s*\(\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)\)', ' ', buf).strip()
                    if re.match(r'(?:__extension__\s+)?extern\b', d):
                        d2 = re.sub(r'\(\s*\*\s*\w+\s*\)', ' ', d)
                        m = re.search(r'(\w+)\s*\(', d) or re.search(r'(\w+)\s*(?:\[[^\]]*\]\s*)*$', d)
                        if m: out.setdefault(m.group(1), (f, d, '(' in d))
                    buf = ''
            elif depth == 0: buf += ' ' + part
    return out


def run(ctx, res):
    INC = os.environ.get('VP_REPO', '/repo') + '/include/bfdev'
    heads = ctx.headers()
    def one(r, h, debug):
        t = ctx.tree(debug); src = '#include <%s>\n' % h
        for what, text in (('alone', src), ('twice', src * 2)):
            p = subprocess.run([tool('clang'), '-w'] + list(t.flags) + ['-x', 'c', '-fsyntax-only', '-'], input=text, capture_output=True, text=True)
            r.count('compilations')
            if p.returncode:
                e = [x for x in p.stderr.split('\n') if 'error' in x][:1]
                r.bad('header %s' % h, 'include/%s' % h, RULE, '%s does not compile %s: %s' % (h, what, e[0] if e else '?')); return
        try: body = open(os.path.join(INC, '..', h)).read()
        except OSError: return
        depth = 0
        body = re.sub(r'/\*.*?\*/|//[^\n]*', '', body, flags=re.S)
        for m in re.finditer(r'^[ \t]*(?!#)(BFDEV_(BEGIN|END)_DECLS)\b', body, flags=re.M):
            depth += 1 if m.group(2) == 'BEGIN' else -1
            if depth not in (0, 1): r.bad('declarations %s' % h, 'include/%s' % h, RULE, '%s opens or closes its declarations twice' % h); return
        if depth: r.bad('declarations %s' % h, 'include/%s' % h, RULE, '%s does not close its declarations' % h)
        r.count('headers')

    def decls(r, debug):
        t = ctx.tree(debug); lib = ctx.lib(debug)
        p = subprocess.run([tool('clang'), '-w'] + list(t.flags) + ['-x', 'c', '-E', '-'], input=''.join('#include <%s>\n' % h for h in heads), capture_output=True, text=True)
        if p.returncode: raise Broken('the headers cannot be preprocessed together')
        D = {n: v for n, v in declared(p.stdout).items() if '/bfdev/' in v[0] and re.match(r'(bfdev|bfport|BFDEV)_', n)}
        if len(D) < 150: raise Broken('only %d declarations were found' % len(D))
        q = subprocess.run([tool('clang'), '-w'] + list(t.flags) + ['-x', 'c', '-E', '-dM', '-'], input=''.join('#include <%s>\n' % h for h in heads), capture_output=True, text=True).stdout
        macros = {x.split()[1].split('(')[0] for x in q.split('\n') if x.startswith('#define')}
        names = sorted(n for n in D if n not in macros)       # a macro of the same name is what programs use
        m = ctx.instantiate('w_p32%d' % debug, ''.join('#include <%s>\n' % h for h in heads), [('bfdev', 'void *const w_use_%d = (void *)&%s;' % (i, n)) for i, n in enumerate(names)], r, debug=debug)
        for n in names:
            f, text, isf = D[n]; where = relf(f); r.count('declarations')
            d = lib.fns.get(n) if isf else None; g = lib.globals.get(n)
            what = 'function' if isf else 'variable'
            if n in m.fns and not m.fns[n].decl: continue          # an inline definition
            if isf and d is None and n in getattr(lib, 'aliases', {}): continue
            if (isf and (d is None or d.decl)) or (not isf and (g is None or g['decl'])):
                r.bad('%s %s' % (what, n), where, RULE, '%s is declared but the library does not define it' % n); continue
            q = d.d if isf else g
            if q.get('local'): r.bad('%s %s' % (what, n), where, RULE, '%s is declared but local to %s' % (n, relf(q.get('file', '?')))); continue
            if q.get('hidden'): r.bad('%s %s' % (what, n), where, RULE, '%s is declared but hidden: no program can link it' % n); continue
            if isf and n in m.fns:
                w = m.fns[n]
                a, b = [x[1] for x in w.d['args']], [x[1] for x in d.d['args']]
                if (a, w.ret, w.d.get('va')) != (b, d.ret, d.d.get('va')): r.bad('function %s' % n, where, RULE, '%s is declared with %s -> %s and defined with %s -> %s' % (n, a, w.ret, b, d.ret))
    par(res, [lambda r, h=h, d=d: one(r, h, d) for d in (True, False) for h in heads] + [lambda r, d=d: decls(r, d) for d in (True, False)], 8)
    res.need('headers', 100); res.need('declarations', 300)
