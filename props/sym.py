"""Symmetric ciphers: AES block, GHASH, GCM, CTR, ChaCha20."""
import os
import random
from vf import build, layout, aesproof, ghashproof, gcmproof, ctrproof, chachaproof
from vf.runner import Task, Driver, VERIF
from . import refs

TB = ["vf symbolic executor + LLVM IR semantics (vf/exec.py, vf/natives.py)", "clang-18 front end and opt-18 passes used for extraction", "z3"]


def mismatches(lines, out, exp):
    return [{"command": l[:3000], "got": o[:3000], "expected": e[:3000], "key": "input " + l[:80]} for l, o, e in zip(lines, out, exp)
            if not (o == e or o == "NOCOUNTER" or (e == "EXC" and o.startswith("EXC")))]


class Aes:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "aes.cpp")
        mod, dem = build.extract(src, ctx.work)
        lay = layout.layouts(src, ctx.work)
        ts = []
        for b in (128, 256):
            sz = layout.fields(lay, "Caligo::AesKeySchedule<%d>" % b)[0]
            ts += [Task("aes%d.schedule" % b, lambda b=b, sz=sz: aesproof.schedule(mod, dem, b, sz)),
                   Task("aes%d.encrypt" % b, lambda b=b, sz=sz: aesproof.encrypt(mod, dem, b, sz))]
        return ts

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "aes.cpp")
        lines, exp = [], []
        for bits in (128, 256):
            nb = bits // 8
            keys = [bytes(nb), b"\xff" * nb] + [rng.randbytes(nb) for _ in range(200 if ctx.thorough else 40)]
            keys += [bytes([1 << (i % 8) if j == i // 8 else 0 for j in range(nb)]) for i in range(0, nb * 8, 1 if ctx.thorough else 5)]
            for k in keys:
                rk = refs.aes_expand(k)
                ps = [bytes(16), rng.randbytes(16), rng.randbytes(16)]
                lines.append("aes%d %s %s" % (bits, k.hex(), " ".join(p.hex() for p in ps)))
                exp.append("".join(refs.aes(rk, p).hex() for p in ps))
            for n in list(range(0, 40)) + [48, 64, 128, 256]:
                if n != nb:
                    lines.append("aes%d %s" % (bits, rng.randbytes(n).hex() or "-"))
                    exp.append("EXC")
        out = d.run(lines)
        return mismatches(lines, out, exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "random and one-bit keys, three blocks each, and wrong key sizes; "
                                             "compared with an independent Python FIPS 197"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["semantics of AESENC/AESENCLAST/AESKEYGENASSIST as in the Intel SDM (vf/natives.py)", "specification vf/specs.py aes_expand/aes_encrypt (FIPS 197)"],
                "assumptions": []}


class Ghash:
    def tasks(self, ctx):
        mod, dem = build.extract(os.path.join(VERIF, "harness", "ghash.cpp"), ctx.work)
        return [Task("ghash." + k, lambda k=k: ghashproof.run(mod, dem, "vf_" + k, k)) for k in ("reflect", "mul", "block")]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "ghash.cpp")
        lines, exp = [], []
        I = lambda b: int.from_bytes(b, "big")
        one = lambda i: (1 << i).to_bytes(16, "big")
        prs = [(rng.randbytes(16), rng.randbytes(16)) for _ in range(4000 if ctx.thorough else 600)]
        prs += [(one(i), one(j)) for i in range(128) for j in ((0, 1, 31, 63, 64, 100, 126, 127) if not ctx.thorough else range(128))]
        prs += [(bytes(16), rng.randbytes(16)), (b"\xff" * 16, b"\xff" * 16)]
        for a, b in prs:
            lines.append("mul %s %s" % (a.hex(), b.hex()))
            exp.append(refs.gmul128(I(a), I(b)).to_bytes(16, "big").hex())
        for a, b in prs[:300]:
            y = rng.randbytes(16)
            lines.append("block %s %s %s" % (a.hex(), b.hex(), y.hex()))
            exp.append(refs.gmul128(I(a) ^ I(y), I(b)).to_bytes(16, "big").hex())
            lines.append("reflect %s" % a.hex())
            exp.append(bytes(int("%08d" % int(bin(x)[2:]), 10) and int(("%08d" % int(bin(x)[2:]))[::-1], 2) for x in a).hex())
        out = d.run(lines)
        return mismatches(lines, out, exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "random blocks and pairs of single-bit blocks against SP 800-38D shift-and-reduce"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["semantics of PCLMULQDQ as in the Intel SDM (vf/natives.py, vf/ghashproof.py)", "SP 800-38D multiplication as written in vf/ghashproof.py"], "assumptions": []}


class Gcm:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "gcm.cpp")
        mod, dem = build.extract(src, ctx.work)
        lay = layout.layouts(src, ctx.work)
        ts = []
        for b in (128, 256):
            G = lambda b=b: gcmproof.Gcm(mod, dem, lay, b)
            for k, f in (("dec12", lambda G=G: G().message(12, True)), ("enc12", lambda G=G: G().message(12, False)),
                         ("dec16", lambda G=G: G().message(16, True)), ("enc16", lambda G=G: G().message(16, False)),
                         ("ghash", lambda G=G: G().prove_ghash()), ("ctor", lambda G=G: G().prove_ctor()),
                         ("short-nonce-enc", lambda G=G: G().refused(False)), ("short-nonce-dec", lambda G=G: G().refused(True))):
                ts.append(Task("gcm%d.%s" % (b, k), f, timeout=500))
        return ts

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "gcm.cpp", srcs=["aes.cpp"])
        lines, exp = [], []
        H = lambda b: b.hex() or "-"
        lens = [0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]

        def one(bits, ivn, msgs, key=None, iv=None, n0=0):
            k = key or rng.randbytes(bits // 8)
            iv = iv if iv is not None else rng.randbytes(ivn)
            ref = refs.Gcm(k, iv)
            l, e = ["gcm%d" % bits, k.hex(), H(iv)] + (["n", str(n0)] if n0 else []), []
            ref.n = n0
            for kind, p, a in msgs:
                if not ref.ok:
                    if kind == "e":
                        l += ["e", H(p), H(a)]
                        e.append("-/" + "00" * 16)
                    else:
                        l += ["d", H(p), H(a), "00" * 16]
                        e.append("0")
                    continue
                if kind == "e":
                    c, tg = ref.seal(p, a)
                    l += ["e", H(p), H(a)]
                    e.append(H(c) + "/" + tg.hex())
                else:
                    c, tg = ref.seal(p, a, True)
                    if kind == "x":
                        b = rng.randrange(128)
                        tg = (int.from_bytes(tg, "big") ^ 1 << b).to_bytes(16, "big")
                    elif kind == "s":  # right tag for one bit less of data
                        if p:
                            p = bytes([p[0] ^ 1 << rng.randrange(8)]) + p[1:]
                        elif a:
                            a = a[:-1] + bytes([a[-1] ^ 1 << rng.randrange(8)])
                        else:
                            a = b"\0"
                    l += ["d", H(p), H(a), tg.hex()]
                    e.append(H(c) + "/1" if kind == "d" else "0")
            lines.append(" ".join(l))
            exp.append(" ".join(e) + " ")
        for bits in (128, 256):
            for ivn in list(range(0, 41)) + [48, 60, 64, 65]:
                one(bits, ivn, [(kk, rng.randbytes(rng.choice(lens)), rng.randbytes(rng.choice(lens))) for kk in "edxs"])
            for n in lens:
                for m in (0, 1, 15, 16, 17, 32, 33):
                    for ivn in ((12,) if not ctx.thorough else (12, 16, 8)):
                        one(bits, ivn, [(rng.choice("ed"), rng.randbytes(n), rng.randbytes(m)), ("d", rng.randbytes(m), rng.randbytes(n))])
            one(bits, 12, [(rng.choice("edxs"), rng.randbytes(20), rng.randbytes(5)) for _ in range(600)])
            one(bits, 16, [(rng.choice("edxs"), rng.randbytes(20), rng.randbytes(5)) for _ in range(300)])
            # counter carries: long messages, and nonces whose 32-bit counter wraps (found among GHASHed nonces)
            one(bits, 12, [("e", rng.randbytes(16 * 300 + 3), b""), ("d", rng.randbytes(16 * 300), b"x")])
            k = rng.randbytes(bits // 8)
            rk = refs.aes_expand(k)
            h = refs.aes(rk, bytes(16))
            hinv = refs.ginv128(int.from_bytes(h, "big"))
            for j0 in (b"\xff" * 16, b"\0" * 12 + b"\xff\xff\xff\xfe", b"\xab" * 12 + b"\0\xff\xff\xff", b"\x11" * 12 + b"\0\0\xff\xff",
                       b"\x80" * 12 + b"\xff\xff\xff\xfd", bytes(12) + b"\0\0\0\xfe"):
                # nonce of one block whose GHASH is j0: ((iv*H) ^ len)*H = j0
                y = refs.gmul128(int.from_bytes(j0, "big"), hinv) ^ 128
                iv = refs.gmul128(y, hinv).to_bytes(16, "big")
                assert refs.ghash(h, b"", iv) == j0
                one(bits, 16, [("e", rng.randbytes(100), b"a"), ("d", rng.randbytes(100), b"bb")], key=k, iv=iv)
            for sh in range(0, 64, 4):
                for ivn in (12, 16):
                    one(bits, ivn, [("e", rng.randbytes(20), b""), ("d", rng.randbytes(20), b"")], n0=(rng.randrange(1, 256) << sh) % 2**64 or 1)
            one(bits, 12, [("e", rng.randbytes(20), b""), ("d", rng.randbytes(20), b"")], n0=2**64 - 1)
            for n in list(range(0, 40)) + [64]:
                if n != bits // 8:
                    lines.append("gcm%d %s %s" % (bits, H(rng.randbytes(n)), "00" * 12))
                    exp.append("EXC")
        # a tag with any one bit wrong is refused
        k, iv = rng.randbytes(16), rng.randbytes(12)
        for b in range(128):
            ref = refs.Gcm(k, iv)
            p = rng.randbytes(18)
            c, tg = ref.seal(p, b"", True)
            lines.append("gcm128 %s %s d %s - %s" % (k.hex(), iv.hex(), p.hex(), (int.from_bytes(tg, "big") ^ 1 << b).to_bytes(16, "big").hex()))
            exp.append("0 ")
        out = d.run(lines)
        return mismatches(lines, out, exp), {"cases": len(lines), "distinct": len(set(lines)),
                                             "rule": "nonces of 0..40, 48, 60, 64, 65 bytes, all length residues, up to 600 messages per object, wrong tags, "
                                                     "altered data, counter wraps; compared with an independent Python SP 800-38D"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["contracts of C07 (block cipher) and C08 (multiplication), proved there", "std::vector contracts (vf/stdmodel.py)"],
                "assumptions": ["texts and associated data shorter than 2^58 bytes", "more than 2^32 blocks per message wrap the 32-bit counter as inc32 does"]}


H = lambda b: b.hex() or "-"
XOR = lambda a, b: bytes(x ^ y for x, y in zip(a, b))


class Ctr:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "ctr.cpp")
        mod, dem = build.extract(src, ctx.work)
        lay = layout.layouts(src, ctx.work)
        ts = []
        for b in (128, 256):
            G = lambda b=b: ctrproof.Ctr(mod, dem, lay, b)
            ts.append(Task("ctr%d.ctor" % b, lambda G=G: G().prove_ctor()))
            for k in ("ks", "enc", "dec"):
                ts.append(Task("ctr%d.%s" % (b, {"ks": "keystream", "enc": "encrypt", "dec": "decrypt"}[k]), lambda G=G, k=k: G().message(k)))
        return ts

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "ctr.cpp", srcs=["aes.cpp"])
        lines, exp = [], []

        def one(bits, ops, iv=None, n0=0):
            k, iv = rng.randbytes(bits // 8), iv or rng.randbytes(16)
            l, e, n = ["ctr%d" % bits, k.hex(), iv.hex()] + (["n", str(n0)] if n0 else []), [], n0
            for o, m in ops:
                ks = refs.ctr(k, iv, n, m)
                n = (n + 1) % 2**64
                x = rng.randbytes(m)
                l += [o, str(m) if o == "k" else H(x)]
                e.append(H(ks if o == "k" else XOR(x, ks)))
            lines.append(" ".join(l))
            exp.append("".join(x + " " for x in e))
        for bits in (128, 256):
            for m in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000]:
                one(bits, [(o, m) for o in "edk"])
            one(bits, [(rng.choice("edk"), rng.randrange(40)) for _ in range(600)])
            one(bits, [("e", 16 * 300 + 5)])
            for tail in ("ffffffff", "fffffffe", "00ffffff", "0000ffff", "000000fe", "ffffff00"):
                one(bits, [("e", 100), ("k", 100)], iv=rng.randbytes(12) + bytes.fromhex(tail))
            for sh in range(0, 64, 4):
                one(bits, [("e", 40), ("d", 40)], n0=(rng.randrange(1, 256) << sh) % 2**64 or 1)
            one(bits, [("e", 40), ("d", 40)], n0=2**64 - 1)
            for kn in range(0, 40):
                for vn in (0, 8, 11, 12, 13, 15, 16, 17, 32):
                    if (kn, vn) != (bits // 8, 16):
                        lines.append("ctr%d %s %s" % (bits, H(rng.randbytes(kn)), H(rng.randbytes(vn))))
                        exp.append("EXC")
        out = d.run(lines)
        return mismatches(lines, out, exp), {"cases": len(lines), "distinct": len(set(lines)),
                                             "rule": "lengths 0..69 and larger, up to 600 messages per object, counter carries, all wrong key and nonce sizes; compared with Python"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["contract of C07 (block cipher), proved there", "std::vector contracts (vf/stdmodel.py)"], "assumptions": ["texts shorter than 2^58 bytes"]}


class ChaCha:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "chacha.cpp")
        mod, dem = build.extract(src, ctx.work)
        lay = layout.layouts(src, ctx.work)
        G = lambda: chachaproof.ChaCha(mod, dem, lay)
        return [Task("chacha.block", lambda: G().prove_block()), Task("chacha.ctor", lambda: G().prove_ctor()),
                Task("chacha.encrypt", lambda: G().stream("vf_enc")), Task("chacha.decrypt", lambda: G().stream("vf_dec"))]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "chacha.cpp")
        lines, exp = [], []

        def one(ops, key=None, nonce=None, c0=1, short=True):
            k, nn = key or rng.randbytes(32), nonce or rng.randbytes(12)
            tot = sum(m for _, m in ops)
            ks = b"".join(refs.chacha_block(k, nn, c0 + i) for i in range(tot // 64 + 1))
            l, e, pos = ["chacha", k.hex(), nn.hex()] + (["c", str(c0)] if c0 != 1 else []), [], 0
            for o, m in ops:
                x = rng.randbytes(m)
                l += [o, H(x)]
                e.append(H(XOR(x, ks[pos:pos + m])))
                pos += m
            lines.append(" ".join(l))
            exp.append("".join(x + " " for x in e))
        for m in list(range(0, 140)) + [191, 192, 193, 255, 256, 257, 1000]:
            one([("e", m), ("d", m)])
        for _ in range(60):
            one([(rng.choice("ed"), rng.choice([0, 1, 3, 17, 63, 64, 65, rng.randrange(200)])) for _ in range(rng.randrange(1, 12))])
        one([("e", 64 * 300 + 1)])
        one([("e", 64 * 70000), ("d", 10)])
        for i in range(32):
            one([("e", 70)], key=bytes([255 if j == i else 0 for j in range(32)]))
        for i in range(12):
            one([("e", 70)], nonce=bytes([128 if j == i else 0 for j in range(12)]))
        for c in (255, 256, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 2):
            one([("e", 200), ("d", 64), ("e", 1)], c0=c)
        for kn in range(0, 66):
            for vn in (0, 7, 8, 11, 12, 13, 16, 24, 32):
                if (kn, vn) != (32, 12):
                    lines.append("chacha %s %s" % (H(rng.randbytes(kn)), H(rng.randbytes(vn))))
                    exp.append("EXC")
        out = d.run(lines)
        return mismatches(lines, out, exp), {"cases": len(lines), "distinct": len(set(lines)),
                                             "rule": "every length 0..139 and splits, 70000 blocks, counter carries, all wrong key and nonce sizes; compared with Python RFC 8439"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["RFC 8439 as written in vf/chachaproof.py"], "assumptions": ["data shorter than 2^61 bytes"]}


def make(fam):
    return {"aes": Aes, "ghash": Ghash, "gcm": Gcm, "ctr": Ctr, "chacha": ChaCha}[fam]()
