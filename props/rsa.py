"""RSA signatures."""
import hashlib
import os
import random
from vf import build, layout, rsaproof
from vf.runner import Task, Driver, VERIF
from .sym import TB, mismatches, H

HS = ("sha1", "sha256", "sha384", "sha512")
IDS = {"md5": "3020300c06082a864886f70d020505000410", "sha1": "3021300906052b0e03021a05000414", "sha224": "302d300d06096086480165030402040500041c", "sha256": "3031300d060960864801650304020105000420",
       "sha384": "3041300d060960864801650304020205000430", "sha512": "3051300d060960864801650304020305000440"}
SRCS = ["md5.cpp", "sha1.cpp", "sha2.cpp", "random.cpp", "X509Certificate.cpp", "base64.cpp"]
SCHEMES = {0x0401: ("15", "sha256"), 0x0501: ("15", "sha384"), 0x0601: ("15", "sha512"), 0x0804: ("pss", "sha256"), 0x0805: ("pss", "sha384"), 0x0806: ("pss", "sha512"),
           0x0809: ("pss", "sha256"), 0x080a: ("pss", "sha384"), 0x080b: ("pss", "sha512")}


def mgf1(h, seed, n):
    out, c = b"", 0
    while len(out) < n:
        out += hashlib.new(h, seed + c.to_bytes(4, "big")).digest()
        c += 1
    return out[:n]


def pss_encode(h, mh, salt, n):
    """EMSA-PSS without the final masking of the top bits; None: too short"""
    L = hashlib.new(h).digest_size
    if n < L + len(salt) + 2:
        return None
    x = hashlib.new(h, bytes(8) + mh + salt).digest()
    db = bytes(n - len(salt) - L - 2) + b"\1" + salt
    return bytes(a ^ b for a, b in zip(db, mgf1(h, x, len(db)))) + x + b"\xbc"


def pss_em(h, mh, salt, bits):
    n = (bits + 6) // 8
    em = pss_encode(h, mh, salt, n)
    return em and bytes([em[0] & 0xff >> (8 * n - bits + 1)]) + em[1:]


def pss_verify(h, sl, n, e, msg, sig):
    bits = n.bit_length()
    if len(sig) != (bits + 7) // 8:
        return False
    s = int.from_bytes(sig, "big")
    L, k = hashlib.new(h).digest_size, (bits + 6) // 8
    if s >= n or k < L + sl + 2:
        return False
    m = pow(s, e, n)
    if m.bit_length() > 8 * k:
        return False
    em = m.to_bytes(k, "big")
    x = em[-L - 1:-1]
    db = bytes(a ^ b for a, b in zip(em, mgf1(h, x, k - L - 1)))
    return em == pss_em(h, hashlib.new(h, msg).digest(), db[len(db) - sl:], bits)


def header(data):
    n = len(data)
    if n < 0x80:
        return bytes([0x30, n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x30, 0x80 + len(b)]) + b


def pkcs1(h, data, n):
    t = bytes.fromhex(IDS[h]) + hashlib.new(h, header(data) + data).digest()
    if n < len(t) + 11:
        return None
    return b"\0\1" + b"\xff" * (n - len(t) - 3) + b"\0" + t


def ver15(h, n, e, data, sig):
    k = (n.bit_length() + 7) // 8
    em = pkcs1(h, data, k)
    s = int.from_bytes(sig, "big")
    return em is not None and len(sig) == k and s < n and pow(s, e, n) == int.from_bytes(em, "big")


def prime(rng, bits):
    while True:
        p = rng.getrandbits(bits) | 1 | 3 << (bits - 2)
        if all(p % q for q in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)) and pow(2, p - 1, p) == 1 and (p - 1) % 65537 and pow(3, p - 1, p) == 1 and (p - 1) % 3:
            return p


def key(rng, bits):
    while True:
        p, q = prime(rng, (bits + 1) // 2), prime(rng, bits // 2)
        n = p * q
        if n.bit_length() == bits and p != q:
            e = rng.choice([65537, 65537, 3])
            return n, e, pow(e, -1, (p - 1) * (q - 1))


ALL = ["SHA1", "SHA2<224ul>", "SHA2<256ul>", "SHA2<384ul>", "SHA2<512ul>"]
SIGN = [a for a in ALL if "224" not in a]


class Rsa:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "rsa.cpp")
        mod, dem = build.extract(src, ctx.work, noinline=build.KEEPSTR)
        lay = layout.layouts(src, ctx.work)
        smod, sdem = build.extract(os.path.join(VERIF, "harness", "schemes.cpp"), ctx.work, noinline=build.KEEPSTR)
        slay = layout.layouts(os.path.join(VERIF, "harness", "schemes.cpp"), ctx.work)
        ts = [Task("dispatch." + w, lambda w=w: rsaproof.Rsa(smod, sdem, "SHA2<256ul>").dispatch(slay, w)) for w in ("validate", "sign")]
        for a in ALL:
            e = lambda a=a: rsaproof.Rsa(mod, dem, a)
            ts += [Task("%s.%s" % (n, a), lambda e=e, n=n: getattr(e(), n)()) for n in ("pkcs1", "mgf", "pssenc")]
            ts += [Task("salt%s.%s" % (n, a), lambda e=e, n=n: e().salt(n)) for n in (20, "H")]
        K = lambda: rsaproof.Rsa(mod, dem, "SHA2<256ul>")
        for W in (1024, 2048, 4096):
            ts += [Task("%s.%d" % (n, W), lambda W=W, n=n: K().prim(lay, W, n)) for n in ("ep", "dp")]
            ts += [Task("ctor.%s.%d.%d" % (k, W, B), lambda W=W, B=B, k=k: K().ctor(lay, W, B, k)) for k in ("private", "public") for B in self.bits(ctx, W)]
        for a in SIGN:
            e = lambda a=a: rsaproof.Rsa(mod, dem, a)
            for W in (1024, 2048, 4096):
                for B in self.bits(ctx, W):
                    x = "%s.%d.%d" % (a, W, B)
                    ts += [Task("verify.%s.salt%s" % (x, n), lambda e=e, W=W, B=B, n=n: e().verify(lay, W, B, n)) for n in (20, "H")]
                    ts.append(Task("ver15." + x, lambda e=e, W=W, B=B: e().ver15(lay, W, B)))
                    ts += [Task("%s.%s" % (n, x), lambda e=e, W=W, B=B, n=n: e().sign(lay, W, B, n)) for n in ("signpss", "sign15")]
        return ts

    def bits(self, ctx, W):
        """modulus lengths: every residue modulo 8 and the smallest that fit each hash; thorough covers all from 512 bits"""
        if ctx.thorough:
            return list(range(max(512, W // 2), W + 1, 1 if W == 1024 else 3))
        return {1024: [1024, 1023, 1022, 1021, 1020, 1019, 1018, 1017, 1016, 1009, 752, 520], 2048: [2048, 2047, 2041, 1031], 4096: [4096, 3072, 2048, 1025]}[W]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        R = rng.randbytes
        d = Driver(ctx, "rsa.cpp", srcs=SRCS, opt="-O2")
        lines, exp = [], []

        def put(e, *l):
            lines.append(" ".join(H(x) if isinstance(x, bytes) else "%x" % x if isinstance(x, int) else x for x in l))
            exp.append(e if isinstance(e, str) else H(e) if isinstance(e, bytes) else "-" if e is None else str(int(e)))
        D = str
        for h in IDS:
            L = hashlib.new(h).digest_size
            for n in sorted({0, 1, L - 1, L, L + 1, 2 * L, 257 * L + 1, rng.randrange(3000)}):
                seed = R(rng.choice([0, 1, L, 100]))
                put(mgf1(h, seed, n), "mgf", h, "0", seed, D(n))
            if h in ("md5", "sha256"):
                put(mgf1(h, b"abc", 1100 * L + 5), "mgf", h, "0", b"abc", D(1100 * L + 5))
            if ctx.thorough:
                put(mgf1(h, b"abc", 65537 * L + 5), "mgf", h, "0", b"abc", D(65537 * L + 5))
            for sl in (0, 1, L, 20, 60):
                for n in sorted({L + sl, L + sl + 1, L + sl + 2, L + sl + 3, 128, 200, 256, 512}):
                    mh, s = R(L), R(sl)
                    put(pss_encode(h, mh, s, n), "pssenc", h, "0", mh, s, D(n))
            T = len(IDS[h]) // 2 + L
            for n in sorted({0, 1, T, T + 3, T + 10, T + 11, T + 12, 128, 255, 256, 512}):
                for dl in (0, 1, 127, 128, 255, 256, 300, 65535, 65536) if n == 256 else (rng.randrange(300),):
                    x = R(dl)
                    put(pkcs1(h, x, n), "pkcs1", h, "0", x, D(n))
        keys = [(1024, key(rng, b)) for b in (1024, 1023, 1017, 1016, 1009)] + [(2048, key(rng, b)) for b in ((2048, 2047, 1025) if ctx.thorough else (2048,))] + [(4096, key(rng, b)) for b in ((2048, 1032) if ctx.thorough else (1024,))]
        for W, (n, e, dd) in keys:
            k = (n.bit_length() + 7) // 8
            for m in (0, 1, 2, n - 1, rng.randrange(n), n % (1 << W), (n + 1) % (1 << W)):
                put("%x" % pow(m, e, n), "ep", D(W), n, e, m)
            for x in (1, 2, 3, 17, 65535, 65536, 65539, 65537 + (1 << 32), 65537 << 32, (1 << 64) + 65537, rng.getrandbits(W - 1), dd):
                put("%x" % pow(7, x, n), "ep", D(W), n, x, 7)
            put("%x" % pow(5, dd, n), "dp", D(W), n, dd, 5)
            for h in HS:
                L = hashlib.new(h).digest_size
                for sl in (20, L):
                    msg, salt = R(rng.randrange(200)), R(sl)
                    mh = hashlib.new(h, msg).digest()
                    em = pss_em(h, mh, salt, n.bit_length())
                    s = pow(int.from_bytes(em, "big"), dd, n) if em else None
                    put(s.to_bytes(k, "big") if em else None, "signpss", h, D(W), n, dd, mh, salt, D(sl))
                    s = s or 5
                    V = lambda m, sg: put(pss_verify(h, sl, n, e, m, sg), "verpss", h, D(W), n, e, m, sg, D(sl))
                    g = s.to_bytes(k, "big")
                    V(msg, g)
                    V(msg + b"x", g)
                    V(msg, bytes([0]) + g)
                    V(msg, g[:-1])
                    V(msg, g[1:])
                    V(msg, g[::-1])
                    V(msg, (s ^ 1).to_bytes(k, "big"))
                    if (s + n) >> (8 * k) == 0:
                        V(msg, (s + n).to_bytes(k, "big"))
                    if em:
                        # encodings with one thing wrong
                        bad = []
                        for pos in (0, 1, len(em) - L - sl - 3, len(em) - L - sl - 2, len(em) - L - 2, len(em) - 2, len(em) - 1):
                            if 0 <= pos < len(em):
                                b = bytearray(em)
                                b[pos] ^= 1 << rng.randrange(8)
                                bad.append(bytes(b))
                        full = pss_encode(h, mh, salt, len(em))
                        bad.append(full)
                        bad.append(pss_em(h, mh, salt + b"\0", n.bit_length()) or full)
                        bad.append(pss_em(h, mh, salt[1:], n.bit_length()) or full)
                        bad.append(pss_em(h, msg, salt, n.bit_length()))
                        for b in bad:
                            v = int.from_bytes(b, "big")
                            if v < n:
                                V(msg, pow(v, dd, n).to_bytes(k, "big"))
                for q in (b"", bytes(1), bytes(L), bytes(L + 1), bytes(k), b"\xff" * k, bytes(k + 1), bytes(k - 1)):
                    put(pss_verify(h, L, n, e, b"m", q), "verpss", h, D(W), n, e, b"m", q, D(L))
                    put(ver15(h, n, e, b"m", q), "ver15", h, D(W), n, e, b"m", q)
                msg = R(rng.randrange(300))
                em = pkcs1(h, msg, k)
                s = pow(int.from_bytes(em, "big"), dd, n).to_bytes(k, "big") if em else None
                put(s, "sign15", h, D(W), n, dd, msg)
                if em:
                    V = lambda m, sg: put(ver15(h, n, e, m, sg), "ver15", h, D(W), n, e, m, sg)
                    V(msg, s)
                    V(msg + b"x", s)
                    V(msg, bytes([0]) + s)
                    V(msg, s[:-1])
                    V(msg, s[::-1])
                    v = int.from_bytes(s, "big") + n
                    if v >> (8 * k) == 0:
                        V(msg, v.to_bytes(k, "big"))
                    for pos in (1, 2, k - len(em) // 2, len(em) - L - len(IDS[h]) // 2 - 1, len(em) - L - 1, len(em) - 1, len(em) - L):
                        b = bytearray(em)
                        b[pos] ^= 1 << rng.randrange(8)
                        v = int.from_bytes(bytes(b), "big")
                        if v < n:
                            V(msg, pow(v, dd, n).to_bytes(k, "big"))
        # small modulus in a wide key: a low-order forgery for exponent 3 must not pass
        n, e, dd = key(rng, 2048)
        msg = b"forged"
        for h in ("sha1", "sha256"):
            L = hashlib.new(h).digest_size
            for sl in (L,):
                for salt in (R(sl), R(sl)):
                    em = pss_em(h, hashlib.new(h, msg).digest(), salt, 8 * (L + sl + 2))
                    v, b = int.from_bytes(em, "big"), 8 * len(em)
                    if v & 1 == 0:
                        continue
                    s = pow(v, pow(3, -1, 1 << (b - 2)), 1 << b)
                    put(False, "verpss", h, "2048", n, 3, msg, s.to_bytes(len(em), "big"), D(sl))
        # key classes
        n, e, dd = key(rng, 2048)
        k = 256
        for sc, (kind, h) in SCHEMES.items():
            if not ctx.thorough and sc in (0x080a,):
                continue
            L = hashlib.new(h).digest_size
            msg = R(rng.randrange(400))
            if kind == "15":
                s = pow(int.from_bytes(pkcs1(h, msg, k), "big"), dd, n).to_bytes(k, "big")
                put(s, "sign", "%x" % sc, n, dd, msg)
                put(True, "validate", "%x" % sc, n, e, msg, s)
                put(False, "validate", "%x" % sc, n, e, msg + b"a", s)
            else:
                salt = R(L)
                s = pow(int.from_bytes(pss_em(h, hashlib.new(h, msg).digest(), salt, 2048), "big"), dd, n).to_bytes(k, "big")
                put(s, "sign", "%x" % sc, n, dd, msg, *["%x" % int.from_bytes(salt[i:i + 8], "little") for i in range(0, L, 8)])
                put(True, "validate", "%x" % sc, n, e, msg, s)
                put(False, "validate", "%x" % sc, n, e, msg + b"a", s)
            for o in SCHEMES:
                if SCHEMES[o] != SCHEMES[sc]:
                    put(False, "validate", "%x" % o, n, e, msg, s)
        for sc in (0, 0x0403, 0x0807, 0x0402):
            put(None, "sign", "%x" % sc, n, dd, b"x")
            put(False, "validate", "%x" % sc, n, e, b"x", bytes(256))
        return mismatches(lines, d.run(lines), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "encodings at every length boundary; signatures by keys of 1009 to 2048 bits with wrong length, range, padding, salt and hash; Python reference of RFC 8017"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["record layouts printed by clang"],
                "assumptions": ["hash values enter through the contracts proved in C01, C02; bignum and Montgomery operations through C15, C16",
                                "PKCS1 and validate/sign with it: data shorter than 2^24 bytes; the hashed message is the data preceded by its SEQUENCE header, as certificate verification passes the body only",
                                "the salt is as long as the MGF's hash; mask lengths above 2^32 are refused",
                                "key operations proved for these modulus lengths: " + ", ".join("%d in %d-bit keys" % (b, W) for W in (1024, 2048, 4096) for b in self.bits(ctx, W)[:40]),
                                "generate_random enters as fresh bytes (quality not claimed)"]}


def make(what):
    return Rsa()
