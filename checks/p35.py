from common import *
from anf import *
RULE = 'every output byte is the specified function of the input bytes; exactly the specified bytes are read and written; foreign characters are refused'
EXPLANATION = 'The base64, base32 and ascii85 encoders and decoders and the BCD conversions are analysed over LLVM IR with symbolic input bytes in a canonical bit-polynomial domain: for every length up to a bound (all residues of the group size, several groups) every output bit is compared with the published encoding, for all contents at once; decoders are given every sequence over the alphabet, and every foreign character at every position.'
A64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
A32 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'
S, B, L = ('obj', 'src'), ('obj', 'dst'), ('obj', 'len')


def groups(bits, k):
    """msb-first bit string in k-bit groups, the last one filled with zeros; each group lsb first"""
    bits = list(bits)
    while len(bits) % k: bits.append(ZERO)
    return [tuple(reversed(bits[i:i + k])) for i in range(0, len(bits), k)]


def stream(vals):
    return [p for v in vals for p in reversed(v)]


def rfc(D, alpha, k, unit, data):
    """encoded characters"""
    out = [D.lookup(list(alpha), 8, g) for g in groups(stream(data), k)]
    while len(out) % unit: out.append(D.const(ord('='), 8))
    return out


def run(ctx, res):
    quick = ctx.tier == 'quick'
    lib = ctx.lib(False)

    def bad(fn, key, text):
        f = lib.fn(fn)
        res.bad('%s:%s' % (fn, key), '%s:%d (%s)' % (relf(f.file), f.line, fn), 'published encoding', '%s: %s' % (fn, text))

    def attempt(nm, what, body):
        """body(D, E) -> text of a violation or None; undecided when the domain cannot tell"""
        f = need_fn(lib, nm)
        D = Dom(); E = Eval(lib, D)
        try: r = body(D, E, f)
        except (Stuck, Blowup) as e:
            res.undecided('%s %s' % (nm, what), e); return False
        except Exception as e:
            res.undecided('%s %s' % (nm, what), repr(e)); return False
        res.count('cases'); res.count('instructions', E.instrs)
        if r: bad(nm, what.split(':')[0], '%s: %s' % (what, r)); return False
        return True

    def touch(E, mem, n, wn, base=S, dst=B):
        """only n bytes read of the source, and written only below wn"""
        for x in E.reads:
            if x[0] == base and not (0 <= x[1] and x[1] + x[2] <= n): return 'reads beyond the %d bytes given' % n
        for x in E.writes:
            if x[0] == base: return 'writes to the source'
            if x[0] == dst and not (0 <= x[1] and x[1] + x[2] <= wn): return 'writes outside the %d bytes of the result' % wn
        return None

    def compare(D, E, mem, want, off=0):
        for i, w in enumerate(want):
            g = mem.get((B, off + i))
            if g is None: return 'byte %d of the result is not written' % (off + i)
            if any(b is None for b in g): return 'byte %d of the result is undefined' % (off + i)
            d = D.differ(g, w)
            if d: return 'byte %d of the result: %s' % (off + i, d)
        return None

    for nm, alpha, k, unit, inp in (('base64', A64, 6, 4, 3), ('base32', A32, 5, 8, 5)):
        enc, dec = 'bfdev_%s_encode' % nm, 'bfdev_%s_decode' % nm
        top = inp * (4 if quick else 8)
        for n in range(top + 1):
            def body(D, E, f):
                data = [D.atom(('m', S, i), 8) for i in range(n)]
                mem = {}
                E.run(f, [P(B, 0), P(S, 0), D.const(n, 64)], mem)
                want = rfc(D, alpha, k, unit, data)
                return touch(E, mem, n, len(want)) or compare(D, E, mem, want)
            if not attempt(enc, 'encoding of %d bytes' % n, body): break
        # decoding: n characters of the alphabet, then nothing, padding or a foreign character
        def decode(n, tail, what):
            def body(D, E, f):
                sym = [D.atom(('m', S, i), 8)[:k] for i in range(n)]
                mem = {(S, i): D.lookup(list(alpha), 8, v) for i, v in enumerate(sym)}
                for j, c in enumerate(tail): mem[(S, n + j)] = D.const(c, 8)
                size = n + len(tail)
                r = E.run(f, [P(B, 0), P(S, 0), D.const(size, 64)], mem)
                v = D.cval(r) if r is not None else None
                t = touch(E, mem, size, -(-size // unit) * inp)
                if t: return t
                if tail and tail[0] != ord('='):
                    if v is None or not v >> 31: return 'a character outside the alphabet is accepted'
                    return None
                if v != 0: return 'characters of the alphabet are refused'
                bits = stream(sym)
                return compare(D, E, mem, [tuple(reversed(bits[i:i + 8])) for i in range(0, len(bits) - 7, 8)])
            return attempt(dec, what, body)
        for n in range(unit * (3 if quick else 6) + 1):
            if not decode(n, b'', 'decoding of %d characters' % n): break
            if n and n % unit and not decode(n, b'=' * (unit - n % unit), 'decoding of %d characters and padding' % n): break
        ok = True
        for c in range(256):
            if c in alpha or c == ord('='): continue
            for n in ((0, 1, unit - 1) if quick else range(unit + 1)):
                ok = decode(n, bytes([c]), 'foreign character: %d after %d characters' % (c, n))
                if not ok: break
            if not ok: break

    # ascii85: groups of four bytes, five characters, z for zero; the last group is filled with zeros
    def quint(D, v):
        """characters of a 32 bit value, as the repeated division gives them"""
        E = Eval(lib, D); out = []
        x = type('X', (), {'where': ''})()
        c85 = D.const(85, 32)
        for _ in range(5):
            out.append(D.add(D.trunc(E.bin('urem', v, c85, 32, x), 8), D.const(33, 8)))
            v = E.bin('udiv', v, c85, 32, x)
        return list(reversed(out))

    def be(bs): return tuple(p for b in reversed(bs) for p in b)

    enc, dec = 'bfdev_ascii85_encode', 'bfdev_ascii85_decode'

    def a85(shape, what):
        """shape: per group, number of bytes and the position of the lowest one bit (None: all zero)"""
        def body(D, E, f):
            mem = {}; n = 0; want = []
            for cnt, low in shape:
                bits = [ZERO] * 32
                if low is not None:
                    at = D.atom(('v', n), 32)
                    for b in range(32): bits[b] = ONE if b == low else at[b] if b > low else ZERO
                v = tuple(bits)
                for i in range(cnt): mem[(S, n + i)] = v[24 - 8 * i:32 - 8 * i]
                n += cnt
                want += [D.const(ord('z'), 8)] if low is None else quint(D, v)
            E.run(f, [P(B, 0), P(S, 0), P(L, 0), D.const(n, 64)], mem)
            ln = tuple(b for i in range(8) for b in (mem.get((L, i)) or (None,)))
            if len(ln) != 64 or D.cval(ln) != len(want): return 'the length returned is not %d' % len(want)
            return touch(E, mem, n, len(want)) or compare(D, E, mem, want)
        return attempt(enc, what, body)
    a85([], 'encoding: nothing')
    go = True
    for cnt in (4, 1, 2, 3):
        for low in [None] + list(range(32 - 8 * cnt, 32)):
            if go: go = a85([(cnt, low)], 'encoding: one group of %d bytes' % cnt)
    lows = (None, 0, 17, 31)
    for a in lows:
        for b in lows:
            for cnt, c in ((4, 3), (4, None), (2, 20), (3, None)):
                if go: go = a85([(4, a), (4, b), (cnt, c)], 'encoding: several groups')

    def un85(shape, what):
        def body(D, E, f):
            mem = {}; n = 0; want = []
            T = [33 + min(i, 84) for i in range(128)]
            for g in shape:
                if g == 'z': mem[(S, n)] = D.const(ord('z'), 8); n += 1; want += [D.const(0, 8)] * 4; continue
                dig = [D.lookup([min(i, 84) for i in range(128)], 32, D.atom(('c', n + i), 7)) for i in range(5)]
                for i in range(5): mem[(S, n + i)] = D.lookup(T, 8, D.atom(('c', n + i), 7))
                v = D.const(0, 32)
                for d in dig: v = D.add(D.mulw(v, D.const(85, 32)), d)
                n += 5; want += [v[24:], v[16:24], v[8:16], v[:8]]
            r = E.run(f, [P(B, 0), P(S, 0), P(L, 0), D.const(n, 64)], mem)
            if D.cval(r) != 0: return 'valid characters are refused'
            ln = tuple(b for i in range(8) for b in (mem.get((L, i)) or (None,)))
            if len(ln) != 64 or D.cval(ln) != len(want): return 'the length returned is not %d' % len(want)
            return touch(E, mem, n, len(want)) or compare(D, E, mem, want)
        return attempt(dec, what, body)
    import itertools
    go = True
    for m in range(0, 4 if quick else 5):
        for sh in itertools.product('z5', repeat=m):
            if go: go = un85(sh, 'decoding of the groups %s' % ''.join(sh))

    def junk(pre, mid, what):
        def body(D, E, f):
            s = b'8' * 5 * pre + mid; mem = {(S, i): D.const(c, 8) for i, c in enumerate(s)}
            r = E.run(f, [P(B, 0), P(S, 0), P(L, 0), D.const(len(s), 64)], mem)
            v = D.cval(r)
            return touch(E, mem, len(s), 4 * len(s)) or (None if v is not None and v >> 31 else 'is accepted')
        return attempt(dec, what, body)
    go = True
    for c in range(256):
        if 33 <= c <= 117: continue
        for p in range(5):
            if c == 122 and p == 0: continue
            if go: go = junk(c % 2, b'8' * p + bytes([c]) + b'8' * (4 - p), 'foreign character: %d' % c)
    for n in range(1, 5):
        if go: go = junk(n % 2, b'8' * n, 'incomplete group')

    # lengths, and binary coded decimal
    pre = '\n'.join('#include <bfdev/%s.h>' % h for h in ('base64', 'base32', 'ascii85', 'bcd'))
    lines = []
    for v in ('', '_const', '_dynamic'):
        for d in ('bcd2bin', 'bin2bcd'): lines.append((d + v, 'uint8_t w_%s%s(uint8_t x) { return bfdev_%s%s(x); }' % (d, v, d, v)))
    m = ctx.instantiate('bcd', pre, lines, res)
    for v in ('', '_const', '_dynamic'):
        for d in ('bcd2bin', 'bin2bcd'):
            f = m.fn('w_%s%s' % (d, v))
            if f is None: continue
            for i in range(100):
                D = Dom(); E = Eval(m, D)
                bcd = i // 10 << 4 | i % 10
                x, want = (bcd, i) if d == 'bcd2bin' else (i, bcd)
                E.externals = {}
                try:
                    # the tables live in the library
                    for t in ('bfdev_bcd2bin_table', 'bfdev_bin2bcd_table'):
                        if t in lib.globals: m.globals[t] = lib.globals[t]
                    r = D.cval(E.run(f, [D.const(x, 8)]))
                except Exception as e: res.undecided('bfdev_%s%s' % (d, v), repr(e)); break
                res.count('cases')
                if r != want: res.bad('bfdev_%s%s' % (d, v), 'include/bfdev/bcd.h, src/bcd.c', 'binary coded decimal', 'bfdev_%s%s(%d) is %s, not %d' % (d, v, x, r, want)); break
    hdr = ctx.hdr(False)
    for nm, a, b in (('base64', 3, 4), ('base32', 5, 8), ('ascii85', 4, 5)):
        for fn, p, q in (('bfdev_%s_encode_length' % nm, a, b), ('bfdev_%s_decode_length' % nm, b, a)):
            f = need_fn(hdr, fn)
            for i in range(0, 200):
                D = Dom(); E = Eval(hdr, D)
                try: r = D.cval(E.run(f, [D.const(i, 64)]))
                except Exception as e: res.undecided(fn, repr(e)); break
                res.count('cases')
                if r != -(-i // p) * q: res.bad(fn, '%s:%d (%s)' % (relf(f.file), f.line, fn), 'buffer length', '%s(%d) is %s, not %d' % (fn, i, r, -(-i // p) * q)); break
    res.need('cases', 1500)
