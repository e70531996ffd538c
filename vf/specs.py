"""Specification functions, written from the standards (FIPS 180-4, RFC 1321, FIPS 202, RFC 8439, FIPS 197).
They operate on terms; on constant terms they compute."""
from . import terms as t
from .terms import const


def rotr(x, n):
    w = x.w
    return t.bor(t.lshr(x, const(n, w)), t.shl(x, const(w - n, w)))


def rotl(x, n):
    return rotr(x, x.w - n)


def _primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _iroot(n, k):
    """floor(n ** (1/k))"""
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def _frac(p, k, bits):
    """first `bits` bits of the fractional part of p^(1/k)"""
    return _iroot(p << (k * bits), k) & ((1 << bits) - 1)


P80 = _primes(80)
K256 = [_frac(p, 3, 32) for p in P80[:64]]
K512 = [_frac(p, 3, 64) for p in P80]
IV256 = [_frac(p, 2, 32) for p in P80[:8]]
IV512 = [_frac(p, 2, 64) for p in P80[:8]]
IV384 = [_frac(p, 2, 64) for p in P80[8:16]]
IV224 = [x & 0xffffffff for x in IV384]


def sha2_compress(words, block, ww):
    """words: 8 terms, block: bytes (terms8)"""
    n = ww // 8
    W = [t.concat(block[n * i:n * i + n]) for i in range(16)]
    R, K, c0, c1, s0, s1 = ((64, K256, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)) if ww == 32 else
                            (80, K512, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)))

    def big(x, r):
        return t.bxor(rotr(x, r[0]), rotr(x, r[1]), rotr(x, r[2]))

    def small(x, r):
        return t.bxor(rotr(x, r[0]), rotr(x, r[1]), t.lshr(x, const(r[2], ww)))
    for i in range(16, R):
        W.append(t.add(small(W[i - 2], s1), W[i - 7], small(W[i - 15], s0), W[i - 16]))
    a, b, c, d, e, f, g, h = words
    for i in range(R):
        ch = t.bxor(t.band(e, f), t.band(t.bnot(e), g))
        maj = t.bxor(t.band(a, b), t.band(a, c), t.band(b, c))
        t1 = t.add(h, big(e, c1), ch, const(K[i], ww), W[i])
        t2 = t.add(big(a, c0), maj)
        h, g, f, e, d, c, b, a = g, f, e, t.add(d, t1), c, b, a, t.add(t1, t2)
    return [t.add(x, y) for x, y in zip(words, (a, b, c, d, e, f, g, h))]


IV_SHA1 = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]


def sha1_compress(words, block):
    W = [t.concat(block[4 * i:4 * i + 4]) for i in range(16)]
    for i in range(16, 80):
        W.append(rotl(t.bxor(W[i - 3], W[i - 8], W[i - 14], W[i - 16]), 1))
    a, b, c, d, e = words
    for i in range(80):
        if i < 20:
            f, k = t.bxor(t.band(b, c), t.band(t.bnot(b), d)), 0x5a827999
        elif i < 40:
            f, k = t.bxor(b, c, d), 0x6ed9eba1
        elif i < 60:
            f, k = t.bxor(t.band(b, c), t.band(b, d), t.band(c, d)), 0x8f1bbcdc
        else:
            f, k = t.bxor(b, c, d), 0xca62c1d6
        a, b, c, d, e = t.add(rotl(a, 5), f, e, const(k, 32), W[i]), a, rotl(b, 30), c, d
    return [t.add(x, y) for x, y in zip(words, (a, b, c, d, e))]


def _md5k():
    # floor(2^32 * |sin(i+1)|) with exact rational arithmetic
    from fractions import Fraction
    # pi to high precision via Machin
    def arctan_inv(x, n=120):
        s, sg = Fraction(0), 1
        for k in range(n):
            s += Fraction(sg, (2 * k + 1) * x ** (2 * k + 1))
            sg = -sg
        return s
    out = []
    for i in range(64):
        x = Fraction(i + 1)
        term, s, n = x, Fraction(0), 1
        while abs(term) > Fraction(1, 1 << 80) or n < 2 * (i + 1):
            s += term
            term = -term * x * x / ((n + 1) * (n + 2))
            n += 2
        out.append(int(abs(s) * (1 << 32)))
    return out


K_MD5 = _md5k()
S_MD5 = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4


def md5_compress(words, block):
    X = [t.concat(list(reversed(block[4 * i:4 * i + 4]))) for i in range(16)]
    a, b, c, d = words
    for i in range(64):
        if i < 16:
            f, g = t.bor(t.band(b, c), t.band(t.bnot(b), d)), i
        elif i < 32:
            f, g = t.bor(t.band(b, d), t.band(c, t.bnot(d))), (5 * i + 1) % 16
        elif i < 48:
            f, g = t.bxor(b, c, d), (3 * i + 5) % 16
        else:
            f, g = t.bxor(c, t.bor(b, t.bnot(d))), (7 * i) % 16
        s = t.add(a, f, X[g], const(K_MD5[i], 32))
        a, d, c, b = d, c, b, t.add(b, rotl(s, S_MD5[i]))
    return [t.add(x, y) for x, y in zip(words, (a, b, c, d))]


def _rc():
    out = []
    r = 1
    bits = []
    for i in range(168):
        bits.append(r & 1)
        r <<= 1
        if r & 0x100:
            r ^= 0x171
    for i in range(24):
        v = 0
        for j in range(7):
            if bits[7 * i + j]:
                v |= 1 << ((1 << j) - 1)
        out.append(v)
    return out


KECCAK_RC = _rc()


def keccak_f(A):
    """A: 25 lanes, index x + 5*y (FIPS 202)"""
    A = list(A)
    rho = {}
    x, y = 1, 0
    rho[(0, 0)] = 0
    for k in range(24):
        rho[(x, y)] = ((k + 1) * (k + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    for rnd in range(24):
        C = [t.bxor(*[A[x + 5 * y] for y in range(5)]) for x in range(5)]
        D = [t.bxor(C[(x - 1) % 5], rotl(C[(x + 1) % 5], 1)) for x in range(5)]
        A = [t.bxor(A[i], D[i % 5]) for i in range(25)]
        B = [None] * 25
        for x in range(5):
            for y in range(5):
                r = rho[(x, y)]
                v = A[x + 5 * y]
                B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(v, r) if r else v
        A = [t.bxor(B[x + 5 * y], t.band(t.bnot(B[(x + 1) % 5 + 5 * y]), B[(x + 2) % 5 + 5 * y]))
             for y in range(5) for x in range(5)]
        A[0] = t.bxor(A[0], const(KECCAK_RC[rnd], 64))
    return A


def crc32_step(h, b):
    """reflected CRC-32 (IEEE 802.3), one byte, bit by bit"""
    c = t.bxor(h, t.zext(b, 32))
    for _ in range(8):
        c = t.bxor(t.lshr(c, const(1, 32)), t.ite(t.extract(c, 0, 0), const(0xEDB88320, 32), const(0, 32)))
    return c


def chacha_block(S):
    def qr(s, a, b, c, d):
        s[a] = t.add(s[a], s[b]); s[d] = rotl(t.bxor(s[d], s[a]), 16)
        s[c] = t.add(s[c], s[d]); s[b] = rotl(t.bxor(s[b], s[c]), 12)
        s[a] = t.add(s[a], s[b]); s[d] = rotl(t.bxor(s[d], s[a]), 8)
        s[c] = t.add(s[c], s[d]); s[b] = rotl(t.bxor(s[b], s[c]), 7)
    s = list(S)
    for _ in range(10):
        qr(s, 0, 4, 8, 12); qr(s, 1, 5, 9, 13); qr(s, 2, 6, 10, 14); qr(s, 3, 7, 11, 15)
        qr(s, 0, 5, 10, 15); qr(s, 1, 6, 11, 12); qr(s, 2, 7, 8, 13); qr(s, 3, 4, 9, 14)
    out = []
    for x, y in zip(s, S):
        v = t.add(x, y)
        out += [t.extract(v, 8 * i + 7, 8 * i) for i in range(4)]
    return out


def aes_expand(key):
    """key: bytes (terms) -> list of round keys (16 byte-terms each), FIPS 197 section 5.2"""
    from .natives import sbox, _gmul
    nk = len(key) // 4
    nr = nk + 6
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        x = list(w[i - 1])
        if i % nk == 0:
            x = x[1:] + x[:1]
            x = [sbox(b) for b in x]
            x[0] = t.bxor(x[0], const(rc, 8))
            rc = _gmul(rc, 2)
        elif nk > 6 and i % nk == 4:
            x = [sbox(b) for b in x]
        w.append([t.bxor(a, b) for a, b in zip(w[i - nk], x)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def aes_encrypt(rk, blk):
    """FIPS 197 section 5.1; rk from aes_expand, blk: 16 byte-terms"""
    from .natives import sbox, xtime
    nr = len(rk) - 1
    s = [t.bxor(a, b) for a, b in zip(blk, rk[0])]
    for r in range(1, nr + 1):
        s = [sbox(b) for b in s]
        # state[row][col] = s[row + 4*col]; ShiftRows: s'[r][c] = s[r][(c+r) mod 4]
        s = [s[(i % 4) + 4 * ((i // 4 + i % 4) % 4)] for i in range(16)]
        if r != nr:
            n = []
            for c in range(4):
                col = s[4 * c:4 * c + 4]
                for k in range(4):
                    a, b, cc, d = (col[(k + j) % 4] for j in range(4))
                    n.append(t.bxor(xtime(a), t.bxor(xtime(b), b), cc, d))
            s = n
        s = [t.bxor(a, b) for a, b in zip(s, rk[r])]
    return s
