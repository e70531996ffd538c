import hashlib
import os
import random
from vf import build, layout, facade
from vf.runner import Task, Driver, VERIF
from .sym import TB, mismatches

PY = {"MD5": "md5", "SHA1": "sha1"}
PY.update({"SHA2<%dul>" % k: "sha%d" % k for k in (224, 256, 384, 512)})
PY.update({"SHA3<%dul>" % k: "sha3_%d" % k for k in (224, 256, 384, 512)})


class Facade:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "hash.cpp")
        mod, dem = build.extract(src, ctx.work)
        sz = layout.fields(layout.layouts(src, ctx.work), "Caligo::Hash")[0]
        return [Task("names", lambda: facade.unknown(mod, dem, sz))] + [Task("facade." + n, lambda n=n: facade.named(mod, dem, sz, n)) for n in facade.NAMES]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "facade.cpp", srcs=["hash.cpp", "md5.cpp", "sha1.cpp", "sha2.cpp", "sha3.cpp"])
        lines, exp = [], []
        for nm, a in facade.NAMES.items():
            n, asn, _ = facade.ALGS[a]
            H = lambda b: hashlib.new(PY[a], b).hexdigest()
            for ln in [0, 1, 55, 56, 64, 111, 112, 127, 128, 135, 136, 143, 144, 200, 1000] + [rng.randrange(2000) for _ in range(100 if ctx.thorough else 10)]:
                m = rng.randbytes(ln)
                k = rng.randrange(ln + 1)
                lines.append("hash %s %s %d" % (nm.encode().hex(), m.hex() or "-", k))
                exp.append("%d,%s,%s,%s,%s,%s,%s,%d" % (n, asn, H(m[:k]), H(m), H(m), H(m), H(m), (1 << 61) - 1))
                lines.append("many %s %s" % (nm.encode().hex(), m.hex() or "-"))
                exp.append(H(m + m))
        bad = ["", "s", "sh", "sha2", "sha3", "sha-1", "sha-256", "sha2256", "sha2-1", "sha3224", "sha25", "sha2560", "sha256 ", " sha256", "SHA256", "MD5", "SHA1", "md", "md4", "md5\0", "sha1\0",
               "sha512\0", "sha3-2240", "sha3-22", "sha3-", "sha2-", "sha2-224x", "sha3-512 ", "Sha1", "none", "crc32", "x" * 100, "sha512-256", "sha3_256", "shake128", "sha0"]
        for nm in facade.NAMES:
            for i in range(len(nm)):
                b = list(nm)
                b[i] = chr(rng.randrange(32, 127))
                bad += ["".join(b), nm[:i], nm[:i] + nm[i + 1:], nm + nm[i]]
        for b in sorted(set(bad) - set(facade.NAMES)):
            lines.append("hash %s 00 1" % (b.encode().hex() or "-"))
            exp.append("EXC")
        out = d.run(lines)
        return mismatches(lines, out, exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "all documented names with messages around block boundaries, and mutated names; compared with hashlib"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["RFC 8017 / NIST DigestInfo prefixes as listed in vf/facade.py"],
                "assumptions": ["the algorithm classes behave as proved in C01-C04", "allocation does not fail"]}


def make():
    return Facade()
