import functools, itertools, random, re
from common import *
from sim import *
from par import par
RULE = 'copies, words, differences, bounded lengths, error names and edit distances are exactly those of the strings, inside the buffers'
EXPLANATION = 'The string helpers are followed over the compiled IR for every short string over representative characters, with buffers of exactly the size of the string; error names for every number against the list of the header; the edit distance for all short strings up to renaming and several weights against the recursive definition, with uninitialised memory tracked.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/string.h>
#include <bfdev/argv.h>
#include <bfdev/scnprintf.h>
#include <bfdev/errname.h>
#include <bfdev/levenshtein.h>
'''
AL = 'const bfdev_alloc_t *a'
LINES = [
    ('bfdev_strdup', 'void *w_dup(%s, const char *s) { return bfdev_strdup(a, s); }' % AL),
    ('bfdev_strndup', 'void *w_ndup(%s, const char *s, unsigned long n) { return bfdev_strndup(a, s, n); }' % AL),
    ('bfdev_strdiff', 'void *w_sdiff(const char *s, int c) { return bfdev_strdiff(s, c); }'),
    ('bfdev_memdiff', 'void *w_mdiff(const void *s, int c, unsigned long n) { return bfdev_memdiff(s, c, n); }'),
    ('bfdev_argv_count', 'unsigned w_count(const char *s) { return bfdev_argv_count(s); }'),
    ('bfdev_argv_split', 'void *w_split(%s, const char *s, unsigned *n) { return bfdev_argv_split(a, s, n); }' % AL),
    ('bfdev_argv_destroy', 'void w_destroy(%s, void *v) { bfdev_argv_destroy(a, v); }' % AL),
    ('bfdev_vscnprintf', 'int w_vsc(char *b, unsigned long n, const char *f, va_list v) { return bfdev_vscnprintf(b, n, f, v); }'),
    ('bfdev_errname', 'void *w_ename(int e, const char **i) { return (void *)bfdev_errname(e, i); }'),
    ('bfdev_errname_find', 'void *w_efind(int e) { return bfdev_errname_find(e); }'),
    ('bfdev_levenshtein_len', 'unsigned w_lev(%s, const char *x, const char *y, unsigned long n, unsigned long m, unsigned s, unsigned w, unsigned i, unsigned d) { return bfdev_levenshtein_len(a, x, y, n, m, s, w, i, d); }' % AL),
    ('bfdev_levenshtein', 'unsigned w_levs(%s, const char *x, const char *y, unsigned s, unsigned w, unsigned i, unsigned d) { return bfdev_levenshtein(a, x, y, s, w, i, d); }' % AL),
]
ALLOCP = P('no allocator')


class Wrong(Exception): pass


class Str(Sim):
    """standard string functions over the cells of memory"""
    def hook(s):
        H = s.handlers
        def at(p, i, ins, w=False):
            q = s.addr(P(p[1], p[2] + i) if isp(p) else p, 1, ins, w); return q
        def ch(p, i, ins):
            q = at(p, i, ins); v = s.force(s.read(q[1], q[2], 1))
            if not isinstance(v, int): raise Stuck('character is a term')
            return v
        def length(p, ins, lim=1 << 30):
            n = 0
            while n < lim and ch(p, n, ins): n += 1
            return n
        def text(p, ins): return [ch(p, i, ins) for i in range(length(p, ins))]
        def setc(p, i, v, ins):
            q = at(p, i, ins, True); s.put(q[1], q[2], v, 1)
        def cpy(a, ins):
            for i, c in enumerate(text(a[1], ins) + [0]): setc(a[0], i, c, ins)
            return a[0]
        def ncpy(a, ins):
            n = a[2]
            if not isinstance(n, int) or n > 4096: raise Stuck('strncpy of %s' % (n,))
            m = length(a[1], ins, n)
            for i in range(n): setc(a[0], i, ch(a[1], i, ins) if i < m else 0, ins)
            return a[0]
        def span(a, ins, want):
            acc = text(a[1], ins); n = 0
            while True:
                c = ch(a[0], n, ins)
                if c == 0 or (c in acc) != want: return n
                n += 1
        def chr_(a, ins):
            n = 0
            while True:
                c = ch(a[0], n, ins)
                if c == a[1] & 255: return P(a[0][1], a[0][2] + n)
                if c == 0: return 0
                n += 1
        def mchr(a, ins):
            for i in range(a[2]):
                if ch(a[0], i, ins) == a[1] & 255: return P(a[0][1], a[0][2] + i)
            return 0
        def pbrk(a, ins):
            n = span(a, ins, False)
            return P(a[0][1], a[0][2] + n) if ch(a[0], n, ins) else 0
        H.update(strlen=lambda a, ins: length(a[0], ins), strnlen=lambda a, ins: length(a[0], ins, a[1]), strcpy=cpy, strncpy=ncpy, strspn=lambda a, ins: span(a, ins, True),
                 strcspn=lambda a, ins: span(a, ins, False), strchr=chr_, memchr=mchr, strpbrk=pbrk, stpcpy=lambda a, ins: (cpy(a, ins), P(a[0][1], a[0][2] + length(a[1], ins)))[1])
        return s

    def bytes_(s, name, data, extra=()):
        s.new(name, len(data) + len(extra), False)
        for i, c in enumerate(list(data) + list(extra)): s.put(name, i, c, 1)
        s.ro.add(name); return P(name)

    def text_at(s, p):
        if not isp(p): raise Wrong('gives no string')
        out = []
        while True:
            if p[1] in s.size and not 0 <= p[2] + len(out) < s.size[p[1]]: raise Wrong('the string is not terminated in its block')
            c = s.cell(p[1], p[2] + len(out), 1)
            if not isinstance(c, int): raise Wrong('the string was not set')
            if c == 0: return bytes(out)
            out.append(c)


def run(ctx, res):
    quick = ctx.tier == 'quick'
    mod = ctx.instantiate('w_p31', PRE, LINES, res); lib = ctx.lib(False); mods = [mod, lib]

    def go(r, api, file, case, job):
        try: return job()
        except Wrong as e: t = str(e)
        except Bad as e: t = e.text + (' at %s' % relf(e.ins.where) if e.ins else '')
        except (Stuck, Bound) as e: r.undecided(api, '%s: %s' % (case, str(e) or 'does not end')); return None
        r.bad(api, '%s (bfdev_%s)' % (file, api), RULE, 'bfdev_%s of %s: %s' % (api, case, t)); return None

    def strings(alpha, upto):
        for n in range(upto + 1): yield from (bytes(x) for x in itertools.product(alpha, repeat=n))

    def copies(r):
        for t in strings([97, 98, 255], 4 if quick else 6):
            for fail in (None, {1}):
                def dup():
                    a = Str(mods).hook(); a.failat = fail; p = a.do('w_dup', 0, a.bytes_('s', t, [0])); r.count('cases')
                    if fail:
                        if p != 0: raise Wrong('gives %s without memory' % (p,))
                        return True
                    if a.text_at(p) != t or a.heap != {p[1]} or p[2]: raise Wrong('gives %s' % a.text_at(p))
                    return True
                if not go(r, 'strdup', 'src/libc/strdup.c', t, dup): return
                for n in range(len(t) + 3):
                    def ndup():
                        full = n > len(t); a = Str(mods).hook(); a.failat = fail; p = a.do('w_ndup', 0, a.bytes_('s', t[:n], [0] if full else []) if n or t else a.bytes_('s', t, [0]), n); r.count('cases')
                        if fail:
                            if p != 0: raise Wrong('gives %s without memory' % (p,))
                            return True
                        if a.text_at(p) != t[:n] or a.heap != {p[1]} or p[2]: raise Wrong('gives %s' % a.text_at(p))
                        return True
                    if not go(r, 'strndup', 'src/libc/strdup.c', '%s, at most %d' % (t, n), ndup): return
        def null():
            a = Str(mods).hook()
            if a.do('w_dup', 0, 0) != 0 or a.do('w_ndup', 0, 0, 3) != 0: raise Wrong('of nothing gives something')
            return True
        go(r, 'strdup', 'src/libc/strdup.c', 'null', null)

    def diffs(r):
        for t in strings([97, 98, 255, 1], 4 if quick else 6):
            for c in (97, 255, 97 + 256, (1 << 32) - 1, 1, 98):
                def one():
                    a = Str(mods).hook(); s = a.bytes_('s', t, [0]); p = a.do('w_sdiff', s, c); r.count('cases')
                    w = next((i for i, x in enumerate(t) if x != c & 255), None)
                    if p != (P('s', w) if w is not None else 0): raise Wrong('gives %s, due is %s' % (p, w))
                    return True
                if not go(r, 'strdiff', 'src/libc/string.c', '%s, %#x' % (t, c), one): return
                def two():
                    for z in (t, t.replace(b'\1', b'\0')):
                        a = Str(mods).hook(); s = a.bytes_('s', z, []); p = a.do('w_mdiff', s, c if c != 1 or z is t else 0, len(z)); r.count('cases')
                        w = next((i for i, x in enumerate(z) if x != (c & 255 if c != 1 or z is t else 0)), None)
                        if p != (P('s', w) if w is not None else 0): raise Wrong('gives %s, due is %s' % (p, w))
                    return True
                if not go(r, 'memdiff', 'src/libc/string.c', '%s, %#x' % (t, c), two): return

    def words(r, alpha, upto):
        for t in strings(alpha, upto):
            W = [w for w in re.split(rb'[ \t\r\n]+', t) if w]
            def count():
                a = Str(mods).hook(); n = a.do('w_count', a.bytes_('s', t, [0])); r.count('cases')
                if n != len(W): raise Wrong('gives %s, due is %d' % (n, len(W)))
                return True
            if not go(r, 'argv_count', 'src/argv.c', t, count): return
            def split():
                a = Str(mods).hook(); a.new('n', 4, False); p = a.do('w_split', 0, a.bytes_('s', t, [0]), P('n') if len(t) % 2 else 0); r.count('cases')
                if not isp(p): raise Wrong('gives nothing')
                if len(t) % 2 and a.cell('n', 0, 4) != len(W): raise Wrong('counts %s words, due are %d' % (a.cell('n', 0, 4), len(W)))
                for i, w in enumerate(W):
                    q = a.cell(p[1], p[2] + 8 * i)
                    if a.text_at(q) != w: raise Wrong('word %d is %s, due is %s' % (i, a.text_at(q), w))
                if a.cell(p[1], p[2] + 8 * len(W)) != 0: raise Wrong('is not ended by null')
                a.do('w_destroy', 0, p)
                if a.heap: raise Wrong('leaves memory after argv_destroy')
                a = Str(mods).hook(); a.failat = {1}
                if a.do('w_split', 0, a.bytes_('s', t, [0]), 0) != 0: raise Wrong('gives something without memory')
                return True
            if not go(r, 'argv_split', 'src/argv.c', t, split): return

    def printing(r):
        for size in (0, 1, 2, 3, 7, 100, 1 << 20, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 5, 1 << 40):
            for n in (0, 1, 2, 3, 6, 7, 8, 99, 100, 101, 65536, (1 << 20) - 1, 1 << 20, (1 << 31) - 2, (1 << 31) - 1):
                def one():
                    a = Str(mods).hook(); calls = []; a.new('f', 4, True); a.new('v', 24, True); a.new('b', 1, False)
                    a.handlers['vsnprintf'] = lambda x, ins: calls.append(list(x)) or n
                    got = a.do('w_vsc', P('b'), size, P('f'), P('v')); r.count('cases')
                    due = min(n, size - 1) if size else 0
                    if got != due: raise Wrong('gives %s, due is %d' % (got, due))
                    if size and (len(calls) != 1 or calls[0] != [P('b'), size, P('f'), P('v')]): raise Wrong('formats with %s' % calls)
                    if any(w for w, o, _, _ in a.log if o == 'b'): raise Wrong('writes the buffer itself')
                    return True
                if not go(r, 'vscnprintf', 'src/scnprintf.c', 'size %d, text of %d' % (size, n), one): return

    def errors(r):
        text = open(ctx.repo + '/include/bfdev/errno.h').read() if hasattr(ctx, 'repo') else open(REPO + '/include/bfdev/errno.h').read()
        E = {}
        for n, v in re.findall(r'^#\s*define\s+BFDEV_(E\w+)\s+(\d+)', text, re.M):
            if n != 'ERRNO_MAX': E.setdefault(int(v), set()).add(n)
        r.count('error_numbers', len(E))
        for e in list(range(-1100, 1101)) + [4095, 4096, -4095, -4096, 65536, (1 << 31) - 1, 1 - (1 << 31), -(1 << 31) + 13]:
            def one():
                a = Str(mods).hook(); a.new('i', 8, False); a.put('i', 0, 77, 8); p = a.do('w_ename', e & 0xffffffff, P('i') if e % 3 else 0); r.count('cases')
                due = E.get(abs(e))
                if due is None:
                    if p != 0: raise Wrong('gives the name %s' % a.text_at(p))
                    if a.cell('i', 0) != 77: raise Wrong('sets the description')
                    return True
                if not isp(p): raise Wrong('has no name, due is %s' % sorted(due))
                t = a.text_at(p).decode()
                if e > 0 and t not in due or e < 0 and t not in {'-' + x for x in due} or e == 0 and t.lstrip('-') not in due: raise Wrong('is named %s, due is %s' % (t, sorted(due)))
                if e % 3:
                    q = a.cell('i', 0)
                    if not isp(q) or not a.text_at(q): raise Wrong('has no description')
                return True
            if not go(r, 'errname', 'src/errname.c', e, one): return

    def distance(x, y, s, w, i, d):
        @functools.lru_cache(None)
        def D(n, m):
            if not n: return m * i
            if not m: return n * d
            v = min(D(n - 1, m - 1) + s * (x[n - 1] != y[m - 1]), D(n - 1, m) + d, D(n, m - 1) + i)
            if n > 1 and m > 1 and x[n - 1] == y[m - 2] and x[n - 2] == y[m - 1]: v = min(v, D(n - 2, m - 2) + w)
            return v
        return D(len(x), len(y))

    def lev(r, part, parts):
        W = [(1, 1, 1, 1), (2, 0, 1, 3), (5, 3, 2, 1), (1, 9, 4, 4), (0, 1, 1, 1), (3, 1, 7, 2), (1000, 1, 100, 10)]; k = 0; top = 4 if quick else 5
        for n in range(top + 1):
            for m in range(top + 1):
                seen = set()
                for z in itertools.product(range(4), repeat=n + m):
                    names = {}; key = tuple(names.setdefault(c, len(names)) for c in z)
                    if key in seen: continue
                    seen.add(key); k += 1
                    if k % parts != part: continue
                    x = bytes([97, 255, 1, 98][c] for c in key[:n]); y = bytes([97, 255, 1, 98][c] for c in key[n:])
                    for ws in W if n + m < 6 else [W[k % len(W)], W[(k + 3) % len(W)]]:
                        def one():
                            a = Str(mods).hook(); px = a.bytes_('x', x, []); py = a.bytes_('y', y, []); got = a.do('w_lev', 0, px, py, n, m, *ws); r.count('distances'); due = distance(x, y, *ws)
                            if got != due: raise Wrong('gives %s, due is %d' % (got, due))
                            if a.heap: raise Wrong('leaves memory')
                            if n + m < 5:
                                a = Str(mods).hook(); got = a.do('w_levs', 0, a.bytes_('x', x, [0]), a.bytes_('y', y, [0]), *ws)
                                if got != due: raise Wrong('of terminated strings gives %s, due is %d' % (got, due))
                                if n and m:
                                    a = Str(mods).hook(); a.failat = {1}
                                    if a.do('w_lev', 0, a.bytes_('x', x, []), a.bytes_('y', y, []), n, m, *ws) != 0xffffffff: raise Wrong('does not report missing memory')
                            return True
                        if not go(r, 'levenshtein', 'src/levenshtein.c', '%s, %s with weights %s' % (x, y, ws), one): return
    jobs = [copies, diffs, printing, errors, lambda r: words(r, [32, 97, 9, 13, 10, 11], 3 if quick else 4), lambda r: words(r, [32, 97, 10], 6 if quick else 8)] + [lambda r, i=i: lev(r, i, 12) for i in range(12)]
    par(res, jobs, 8)
    res.need('cases', 4000); res.need('error_numbers', 100); res.need('distances', 3000)
