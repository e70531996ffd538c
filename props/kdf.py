"""HMAC, HKDF and the TLS 1.3 key schedule."""
import hashlib
import hmac
import os
import random
from vf import build, hkdfproof
from vf.runner import Task, Driver, VERIF
from . import refs
from .sym import TB, mismatches, H

NAMES = {"md5": "MD5", "sha1": "SHA1", "sha224": "SHA2<224ul>", "sha256": "SHA2<256ul>", "sha384": "SHA2<384ul>", "sha512": "SHA2<512ul>",
         "sha3_224": "SHA3<224ul>", "sha3_256": "SHA3<256ul>", "sha3_384": "SHA3<384ul>", "sha3_512": "SHA3<512ul>"}
SRCS = ["md5.cpp", "sha1.cpp", "sha2.cpp", "sha3.cpp", "aes.cpp"]


class Kdf:
    def __init__(self, what):
        self.what = what

    def tasks(self, ctx):
        extra = ["-DVF_TLS"] if self.what == "hkdf" else []
        mod, dem = build.extract(os.path.join(VERIF, "harness", "hkdf.cpp"), ctx.work, noinline=build.KEEPSTR, extra=extra)
        ts = []
        for h, a in NAMES.items():
            P = lambda a=a: hkdfproof.Proof(mod, dem, a)
            if self.what == "hmac":
                ts.append(Task("hmac." + h, lambda P=P: P().hmac()))
                continue
            ts.append(Task("extract." + h, lambda P=P: P().hmac("extract")))
            ts.append(Task("expand." + h, lambda P=P: P().expand()))
            ts.append(Task("label." + h, lambda P=P: P().label()))
            if h in ("sha256", "sha384", "sha512"):
                ts += [Task("tls.%s.%s" % (h, w), lambda P=P, w=w: P().tls(w)) for w in hkdfproof.TLS]
        return ts

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        R = rng.randbytes
        d = Driver(ctx, "hkdf.cpp", srcs=SRCS, extra=["-DTLS"] if self.what == "hkdf" else [])
        lines, exp = [], []

        def add(l, e):
            lines.append(" ".join(l))
            exp.append(e)
        for h in NAMES:
            L, B = hashlib.new(h).digest_size, hashlib.new(h).block_size
            mac = lambda k, x: hmac.new(k, x, h).digest()
            X = lambda salt, ikm: mac(salt, ikm)
            EL = lambda s, l, c, n: refs.expand_label(h, s, l, c, n)
            kls = sorted({0, 1, L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 200, 300})
            if self.what == "hmac":
                for kn in kls + [rng.randrange(260) for _ in range(40 if ctx.thorough else 8)]:
                    for tn in (0, 1, L, B - 1, B, B + 1, 500):
                        k, x = R(kn), R(tn)
                        add([h, "hmac", H(x), H(k)], mac(k, x).hex())
                continue
            for kn in kls:
                for tn in (0, 1, L, 100):
                    k, x = R(kn), R(tn)
                    add([h, "extract", H(k), H(x)], mac(k, x).hex())
            for n in sorted({0, 1, L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1, 100, 255 * L - 1, 255 * L, 10 * L}):
                for inn in (0, 1, 20, 77):
                    k, x = R(rng.choice([L, 0, 5, B + 3])), R(inn)
                    add([h, "expand", H(k), H(x), str(n)], H(refs.hkdf_expand(h, k, x, n)))
            for ll in (0, 1, 5, 12, 100, 249):
                for cn in (0, 1, L, 255):
                    for n in (0, 1, L, 300, min(255 * L, 4999)):
                        k, l, c = R(L), R(ll), R(cn)
                        add([h, "label", H(k), H(l), H(c), str(n)], H(EL(k, l, c, n)))
            for _ in range(6 if ctx.thorough else 2):
                empty = hashlib.new(h).digest()
                for sn in (0, 1, 32, 48, 66):
                    x = R(sn)
                    add([h, "handshake", H(x)], X(EL(X(bytes(L), bytes(L)), b"derived", empty, L), x).hex())
                s = R(L)
                add([h, "master", s.hex()], X(EL(s, b"derived", empty, L), bytes(L)).hex())
                add([h, "update", s.hex()], EL(s, b"traffic upd", b"", L).hex())
                th = R(L)
                add([h, "exporter", s.hex(), th.hex()], EL(s, b"exp master", th, L).hex())
                add([h, "resumption", s.hex(), th.hex()], EL(s, b"res master", th, L).hex())
                for c in (0, 1):
                    for hs in (0, 1):
                        ts = EL(s, (b"c" if c else b"s") + (b" hs" if hs else b" ap") + b" traffic", th, L)
                        q = [s.hex(), th.hex(), str(c), str(hs)]
                        add([h, "traffic"] + q, ts.hex())
                        add([h, "keyiv128"] + q, EL(ts, b"key", b"", 16).hex() + "/" + EL(ts, b"iv", b"", 12).hex())
                        add([h, "keyiv256"] + q, EL(ts, b"key", b"", 32).hex() + "/" + EL(ts, b"iv", b"", 12).hex())
                        fk = EL(EL(s, (b"c" if c else b"s") + b" hs traffic", th, L), b"finished", b"", L)
                        add([h, "finished"] + q, fk.hex())
        out = d.run(lines)
        return mismatches(lines, out, exp), {"cases": len(lines), "distinct": len(set(lines)),
                                             "rule": "key, text, info, label, context and output lengths around every boundary for all ten hashes, compared with Python hmac/hashlib"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["contracts of the hash classes (digest is a function of the added bytes), proved in C01-C04", "std::vector and std::string contracts (vf/stdmodel.py)"],
                "assumptions": ["lengths below 2^58 bytes", "labels of at most 249 bytes, contexts of at most 255, outputs of at most 65535 (the ranges RFC 8446 can encode)"] if self.what == "hkdf"
                else ["lengths below 2^60 bytes"]}


def make(what):
    return Kdf(what)
