"""Merkle-Damgard hashes: SHA-2, SHA-1, MD5."""
import hashlib
import os
import random
import zlib
from vf import build, layout, specs, mdhash, sponge, crcproof
from vf.runner import Task, Driver, VERIF

C256 = lambda w, b: specs.sha2_compress(w, b, 32)
C512 = lambda w, b: specs.sha2_compress(w, b, 64)


class Sp:
    def __init__(self, B):
        self.B = B


FAM = {
    "sha2": [("sha256", "Caligo::SHA2<256>", "Caligo::SHA2<256>", mdhash.MD("sha256", 64, 32, specs.IV256, C256, 8, True, 32), 32),
             ("sha224", "Caligo::SHA2<256>", "Caligo::SHA2<224>", mdhash.MD("sha224", 64, 32, specs.IV224, C256, 8, True, 28), 28),
             ("sha512", "Caligo::SHA2<512>", "Caligo::SHA2<512>", mdhash.MD("sha512", 128, 64, specs.IV512, C512, 16, True, 64), 64),
             ("sha384", "Caligo::SHA2<512>", "Caligo::SHA2<384>", mdhash.MD("sha384", 128, 64, specs.IV384, C512, 16, True, 48), 48)],
    "sha1": [("sha1", "Caligo::SHA1", "Caligo::SHA1", mdhash.MD("sha1", 64, 32, specs.IV_SHA1, specs.sha1_compress, 8, True, 20), 20)],
    "md5": [("md5", "Caligo::MD5", "Caligo::MD5", mdhash.MD("md5", 64, 32, specs.IV_SHA1[:4], specs.md5_compress, 8, False, 16), 16)],
    "crc": [("crc", "Caligo::CRC32", "Caligo::CRC32", Sp(16), 4)],
    "sha3": [("sha3_%d" % k, "Caligo::SHA3<%d>" % k, "Caligo::SHA3<%d>" % k, Sp(200 - k // 4), k // 8) for k in (224, 256, 384, 512)],
}


class Crc:
    def __init__(self, b=b""):
        self.c = zlib.crc32(b)

    def update(self, b):
        self.c = zlib.crc32(b, self.c)

    def hexdigest(self):
        return "%08x" % self.c


def new(tag, b=b""):
    return Crc(b) if tag == "crc" else hashlib.new(tag, b)


def cases(alg, B, rng, thorough):
    """op sequences with data"""
    out = []
    lens = sorted(set(list(range(0, 2 * B + 20)) + [3 * B - 1, 3 * B, 3 * B + 1, 1000, 4096, 10007]))
    for n in lens:
        out.append((["s%d" % n], n))
    nr = 400 if thorough else 120
    for _ in range(nr):
        ops, n = [], 0
        if rng.random() < .3:
            k = rng.choice([0, 1, B - 1, B, B + 1, rng.randrange(3 * B)])
            ops.append(rng.choice("KL") + str(k))
            n += k
        for _ in range(rng.randrange(1, 8)):
            r = rng.random()
            if r < .65:
                k = rng.choice([0, 1, 2, B - 1, B, B + 1, 2 * B, rng.randrange(4 * B), (-n) % B, (B - 8 - n) % B, (B - 9 - n) % B, (B - 16 - n) % B])
                ops.append(rng.choice("sv") + str(k))
                n += k
            else:
                ops.append(rng.choice("dSc"))
        out.append((ops, n))
    return out


def expect(alg, ops, data, H):
    out, n = [], 0
    for o in ops:
        if o[0] in "KLsv":
            n += int(o[1:])
        elif o[0] in "dS":
            out.append(H(data[:n]))
    d = H(data[:n])
    return ",".join(out + [d, d])


class Hashes:
    def __init__(self, fam):
        self.fam = fam

    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", self.fam + ".cpp")
        mod, dem = build.extract(src, ctx.work)
        lay = layout.layouts(src, ctx.work)
        ts = []
        for tag, base, cls, md, outlen in FAM[self.fam]:
            if self.fam == "crc":
                mk = lambda: crcproof.CrcProof(mod, dem, layout.fields(lay, cls)[0])
                ts += [Task("crc.add", lambda: [mk().prove_add("vf_add_crc")]),
                       Task("crc.digest", lambda: [mk().prove_digest("vf_data_crc"), mk().prove_digest("vf_conv_crc")]),
                       Task("crc.wrappers", lambda: [mk().prove_ctor("vf_ctor_crc"), mk().prove_wrapper("vf_add_crc", 1, False), mk().prove_wrapper("vf_addsv_crc", 1, False),
                                                     mk().prove_wrapper("vf_ctor1_crc", 1, True), mk().prove_wrapper("vf_ctor2_crc", 2, True)]),
                       Task("crc.string", lambda: [mk().prove_string("vf_str_crc", 4, "Caligo::CRC32")])]
                continue
            if self.fam == "sha3":
                ts += self.sponge(mod, dem, lay, tag, cls, md.B, outlen)
                continue
            mk = lambda base=base, md=md: mdhash.HashProof(mod, dem, lay, base, md, {})
            dm = cls.replace("<", "<").replace(">", "ul>")
            if base == cls:
                ts.append(Task(tag + ".add", lambda mk=mk, tag=tag: [mk().prove_add("vf_add_" + tag)], 400))
                ts.append(Task(tag + ".compress", lambda mk=mk: [x for x in [mk().prove_chunk()] if x] or [{"oblig": 1, "disch": 1}], 300))
            ts.append(Task(tag + ".digest", lambda mk=mk, tag=tag, outlen=outlen: [mk().prove_digest("vf_data_" + tag, outlen),
                                                                                  mk().prove_digest("vf_conv_" + tag, outlen)], 400))
            ts.append(Task(tag + ".wrappers", lambda mk=mk, tag=tag: [mk().prove_ctor("vf_ctor_" + tag), mk().prove_wrapper("vf_add_" + tag, 1, False),
                                                                    mk().prove_wrapper("vf_addsv_" + tag, 1, False),
                                                                    mk().prove_wrapper("vf_ctor1_" + tag, 1, True),
                                                                    mk().prove_wrapper("vf_ctor2_" + tag, 2, True)], 400))
            ts.append(Task(tag + ".string", lambda mk=mk, tag=tag, outlen=outlen, dm=dm: [mk().prove_string("vf_str_" + tag, outlen, dm)], 300))
        return ts

    def sponge(self, mod, dem, lay, tag, cls, rate, outlen):
        mk = lambda: sponge.SpongeProof(mod, dem, lay, cls, rate, outlen)
        dm = cls.replace(">", "ul>")
        return [Task(tag + ".add", lambda: [mk().prove_add("vf_add_" + tag)], 400),
                Task(tag + ".permutation", lambda: [mk().prove_chunk()], 300),
                Task(tag + ".digest", lambda: [mk().digest_cases("vf_data_" + tag), mk().digest_cases("vf_conv_" + tag)], 400),
                Task(tag + ".wrappers", lambda: [mk().prove_ctor("vf_ctor_" + tag), mk().prove_wrapper("vf_add_" + tag, 1, False),
                                                 mk().prove_wrapper("vf_addsv_" + tag, 1, False), mk().prove_wrapper("vf_ctor1_" + tag, 1, True),
                                                 mk().prove_wrapper("vf_ctor2_" + tag, 2, True)], 400),
                Task(tag + ".string", lambda: [mk().prove_string("vf_str_" + tag, outlen, dm)], 300)]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "hash.cpp", extra=["-DFAM_" + self.fam.upper()])
        lines, exp = [], []
        for tag, base, cls, md, outlen in FAM[self.fam]:
            H = lambda b, tag=tag: new(tag, b).hexdigest()
            for ops, n in cases(tag, md.B, rng, ctx.thorough):
                data = rng.randbytes(n)
                lines.append("%s %s %s" % (tag, ",".join(ops) or "c", data.hex() or "-"))
                exp.append(expect(tag, ops, data, H))
        out = d.run(lines)
        mism = [{"command": l[:3000], "got": o, "expected": e, "key": "input " + l[:80]} for l, o, e in zip(lines, out, exp) if o != e]
        info = {"cases": len(lines), "distinct": len(set(lines)), "rule": "call sequences (constructor/add/digest/copy) with boundary and random "
                "lengths, compared with Python hashlib", "max_message_bytes": 10007}
        if hints and not mism:
            d2 = Driver(ctx, "hash.cpp", extra=["-DFAM_" + self.fam.upper()], opt="-O2", san=None)
            from concurrent.futures import ThreadPoolExecutor
            z = bytes((i * 31 + 7) & 255 for i in range(1 << 20)) * 16

            def one(job):
                f, n = job
                o = d2.run(["huge %s %d" % (f[0], n)], timeout=200, one=200)[0]
                h = new(f[0])
                k = n
                while k:
                    h.update(memoryview(z)[:min(k, 1 << 24)])
                    k -= min(k, 1 << 24)
                return o, h.hexdigest()
            for n in ((1 << 29) + 5, (1 << 32) + 7):
                jobs = [(f, n) for f in FAM[self.fam]]
                with ThreadPoolExecutor(4) as tp:
                    for (f, n), (o, e) in zip(jobs, tp.map(one, jobs)):
                        if o != e:
                            mism.append({"command": "huge %s %d (1 MiB pattern i*31+7 repeated)" % (f[0], n), "got": o, "expected": e, "key": "huge %s %d" % (f[0], n)})
                info["cases"] += len(jobs)
                if mism or ctx.elapsed() > 500:
                    break
        return mism, info

    def meta(self, ctx):
        return {"trusted_base": ["vf symbolic executor + LLVM IR semantics (vf/exec.py, vf/natives.py)", "clang-18 front end and opt-18 passes used for extraction",
                                 "z3 5.x", "specification vf/specs.py (FIPS 180-4 / RFC 1321), validated against hashlib"],
                "assumptions": ["total message length at most 2^61-1 bytes (the documented MaxLength)", "std::string growth never fails"]}


def make(fam):
    return Hashes(fam)
