"""Independent reference implementations for the replay drivers."""
import hashlib
import hmac
import struct
from vf.natives import SBOX, _gmul


def aes_expand(key):
    nk = len(key) // 4
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nk + 7)):
        x = list(w[i - 1])
        if i % nk == 0:
            x = [SBOX[b] for b in x[1:] + x[:1]]
            x[0] ^= rc
            rc = _gmul(rc, 2)
        elif nk > 6 and i % nk == 4:
            x = [SBOX[b] for b in x]
        w.append([a ^ b for a, b in zip(w[i - nk], x)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nk + 7)]


_M2 = [_gmul(i, 2) for i in range(256)]
_M3 = [_gmul(i, 3) for i in range(256)]


def aes(rk, blk):
    s = [a ^ b for a, b in zip(blk, rk[0])]
    for r in range(1, len(rk)):
        s = [SBOX[b] for b in s]
        s = [s[(i % 4) + 4 * ((i // 4 + i % 4) % 4)] for i in range(16)]
        if r != len(rk) - 1:
            n = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                n += [_M2[a[k]] ^ _M3[a[(k + 1) % 4]] ^ a[(k + 2) % 4] ^ a[(k + 3) % 4] for k in range(4)]
            s = n
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def gmul128(x, y):
    """SP 800-38D block multiplication, blocks as big-endian integers"""
    z, v = 0, x
    for i in range(127, -1, -1):
        if y >> i & 1:
            z ^= v
        v = v >> 1 ^ (0xE1 << 120 if v & 1 else 0)
    return z


def ginv128(x):
    """x^(2^128-2)"""
    r, sq = 1 << 127, x
    for _ in range(127):
        sq = gmul128(sq, sq)
        r = gmul128(r, sq)
    return r


def ghash(h, a, c):
    y = 0
    H = int.from_bytes(h, "big")
    for d in (a, c):
        for i in range(0, len(d), 16):
            y = gmul128(y ^ int.from_bytes(d[i:i + 16].ljust(16, b"\0"), "big"), H)
    return gmul128(y ^ (len(a) * 8 << 64 | len(c) * 8), H).to_bytes(16, "big")


def inc32(b):
    return b[:12] + struct.pack(">I", (struct.unpack(">I", b[12:])[0] + 1) & 0xffffffff)


class Gcm:
    def __init__(self, key, iv):
        self.rk = aes_expand(key)
        self.h = aes(self.rk, bytes(16))
        self.ok = len(iv) == 8 or len(iv) >= 12
        if len(iv) == 12:
            self.j0 = iv + b"\0\0\0\1"
        elif self.ok:
            self.j0 = ghash(self.h, b"", iv)
        self.n = 0

    def seal(self, p, a, dec=False):
        j = bytearray(self.j0)
        for k in range(8):
            j[4 + k] ^= self.n >> (56 - 8 * k) & 255
        self.n = (self.n + 1) % 2**64
        j = bytes(j)
        ctr, out = j, b""
        for i in range(0, len(p), 16):
            ctr = inc32(ctr)
            ks = aes(self.rk, ctr)
            out += bytes(x ^ y for x, y in zip(p[i:i + 16], ks))
        tag = bytes(x ^ y for x, y in zip(ghash(self.h, a, p if dec else out), aes(self.rk, j)))
        return out, tag


def ctr(key, iv, n, size):
    rk = aes_expand(key)
    c = bytearray(iv)
    for k in range(8):
        c[4 + k] ^= n >> (56 - 8 * k) & 255
    c = bytes(c)
    out = b""
    while len(out) < size:
        c = inc32(c)
        out += aes(rk, c)
    return out[:size]


def chacha_block(key, nonce, counter):
    s = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(struct.unpack("<8I", key)) + [counter & 0xffffffff] + list(struct.unpack("<3I", nonce))
    w = list(s)

    def rot(x, n):
        return (x << n | x >> (32 - n)) & 0xffffffff

    def qr(a, b, c, d):
        w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = rot(w[d] ^ w[a], 16)
        w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = rot(w[b] ^ w[c], 12)
        w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = rot(w[d] ^ w[a], 8)
        w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = rot(w[b] ^ w[c], 7)
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack("<16I", *[(x + y) & 0xffffffff for x, y in zip(w, s)])


def hkdf_expand(h, prk, info, n):
    out, tt, i = b"", b"", 1
    while len(out) < n:
        tt = hmac.new(prk, tt + info + bytes([i & 255]), h).digest()
        out += tt
        i += 1
    return out[:n]


def expand_label(h, prk, label, ctx, n):
    l = b"tls13 " + label
    return hkdf_expand(h, prk, struct.pack(">H", n & 0xffff) + bytes([len(l) & 255]) + l + bytes([len(ctx) & 255]) + ctx, n)


if __name__ == "__main__":
    k = bytes(range(16))
    assert aes(aes_expand(k), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"
    assert aes(aes_expand(bytes(range(32))), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "8ea2b7ca516745bfeafc49904b496089"
    K = bytes.fromhex("feffe9928665731c6d6a8f9467308308")
    P = bytes.fromhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39")
    A = bytes.fromhex("feedfacedeadbeeffeedfacedeadbeefabaddad2")
    c, tg = Gcm(K, bytes.fromhex("cafebabefacedbaddecaf888")).seal(P, A)
    assert tg.hex() == "5bc94fbc3221a5db94fae95ae7121a47", tg.hex()
    c, tg = Gcm(K, bytes.fromhex("cafebabefacedbad")).seal(P, A)
    assert tg.hex() == "3612d2e79e3b0785561be14aaca2fccb", tg.hex()
    b = chacha_block(bytes(range(32)), bytes.fromhex("000000090000004a00000000"), 1)
    assert b.hex().startswith("10f1e7e4d13b5915500fdd1fa32071c4")
    print("ok")
