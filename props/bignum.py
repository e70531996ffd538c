"""Multi-word integers and Montgomery arithmetic."""
import os
import random
from vf import build, layout, bnproof, bnhigh, montproof
from vf.runner import Task, Driver, VERIF
from .sym import TB, mismatches

WS = (32, 64, 96, 160, 256, 1024, 2048, 4096)
X = lambda v: "%x" % v


def values(rng, W):
    """numbers of W bits with runs of equal bits, so that carries travel and end in the middle"""
    M = (1 << W) - 1
    k = rng.random()
    if k < .1:
        return rng.choice([0, 1, M, M - 1, 1 << (W - 1), (1 << (W - 1)) - 1, M ^ 1])
    v = rng.getrandbits(W)
    if k < .5:
        for _ in range(rng.randrange(1, 4)):
            a, b = sorted((rng.randrange(W + 1), rng.randrange(W + 1)))
            m = ((1 << b) - 1) ^ ((1 << a) - 1)
            v = v | m if rng.random() < .5 else v & ~m
    elif k < .6:
        v >>= rng.randrange(W)
    elif k < .7:
        v = sum(rng.choice([0, 0xffffffff, 0x80000000, 1, 0x7fffffff, 0xfffffffe]) << (32 * i) for i in range(W // 32))
    return v & M


class Bignum:
    def tasks(self, ctx):
        mod, dem = build.extract(os.path.join(VERIF, "harness", "bignum.cpp"), ctx.work)
        b = bnproof.Bn(mod, dem)
        ts = []
        for W in bnproof.WIDTHS[::-1]:
            for op in bnproof.ARITH:
                ts.append(Task("bignum%d.%s" % (W, op), lambda W=W, op=op: b.arith(W, op)))
            for op in bnproof.BITS:
                ts.append(Task("bignum%d.%s" % (W, op), lambda W=W, op=op: b.bits(W, op)))
        ts.sort(key=lambda k: 0 if k.name in ("bignum4096.mul", "bignum4096.square", "bignum4096.setbit", "bignum4096.clrbit") else 1)
        ts += [Task("convert.%d.%d" % c, lambda c=c: b.conv(*c)) for c in bnproof.CONVS]
        ts += [Task("slice.%d.%d" % c, lambda c=c: b.slice(*c)) for c in bnproof.SLICES]
        mod2, dem2 = build.extract(os.path.join(VERIF, "harness", "mont.cpp"), ctx.work)
        for W, K in REDS:
            ts.append(Task("naive_reduce.%d.%d" % (W, K), lambda W=W, K=K: bnhigh.Hi(mod2, dem2).reduce(W, K)))
        return ts

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "bignum.cpp", srcs=["random.cpp"])
        lines, exp = [], []

        def put(l, e):
            lines.append(l)
            exp.append(e)
        for W in WS:
            M = (1 << W) - 1
            N = W // 32
            for _ in range((400 if ctx.thorough else 60) if W < 1024 else (60 if ctx.thorough else 14)):
                a, b = values(rng, W), values(rng, W)

                def twin():          # the same bit in two words: differences that cancel in a sum or an xor of words
                    k, i, j = rng.choice([31, 31, rng.randrange(32)]), rng.randrange(N), rng.randrange(N)
                    return 0 if i == j else 1 << 32 * i + k | 1 << 32 * j + k
                if rng.random() < .3:
                    b = rng.choice([a, a ^ twin(), M - a, (M - a + 1) & M, a ^ (1 << rng.randrange(W)), (a + 1) & M])
                w = values(rng, 32)
                k = rng.choice([0, 1, 30, 31, 32, 33, W - 1, W - 2, W - 31, W - 32, rng.randrange(W)]) % W
                p = "%d %x %x" % (W, a, b)
                put("add " + p, "%d %x" % (a + b > M, (a + b) & M))
                put("sub " + p, "%d %x" % (a < b, (a - b) & M))
                put("addto " + p, "%d %x" % (a + b > M, (a + b) & M))
                put("subfrom " + p, "%d %x" % (a < b, (a - b) & M))
                put("mul " + p, X(a * b))
                put("square " + p, X(a * a))
                put("mulw %d %x %x" % (W, a, w), X(a * w))
                put("lt " + p, str(int(a < b)))
                put("eq " + p, str(int(a == b)))
                put("shr1 " + p, X(a >> 1))
                s = rng.randrange(N + 1)
                put("shlw %s %d" % (p, s), X((a << 32 * s) & M))
                put("neg " + p, X(a ^ M))
                put("xor " + p, "%x %x" % (a ^ b, a ^ b))
                put("and " + p, X(a & b))
                put("bit %s %d" % (p, k), str(a >> k & 1))
                put("setbit %s %d" % (p, k), X(a | 1 << k))
                put("clrbit %s %d" % (p, k), X(a & ~(1 << k)))
                put("swap %s 1" % p, "%x %x" % (b, a))
                put("swap %s 0" % p, "%x %x" % (a, b))
                put("word %d %x %x" % (W, a, w), "%x %x" % (w, w))
                n = rng.choice([0, 1, W // 8, W // 8 - 1, W // 8 + 1, W // 8 + 4, rng.randrange(W // 8 + 1)])
                by = rng.randbytes(n)
                put("bytes %s %s" % (p, by.hex() or "-"), X(int.from_bytes(by, "little") & M))
                put("out " + p, a.to_bytes(W // 8, "little").hex())
                put("words " + p, X(sum((a >> 32 * i & 0xffffffff) << 32 * (N - 1 - i) for i in range(N))))
                put("wide " + p, "%x %x %x" % (a, a, a))
                c = values(rng, 2 * W + 32)
                put("conv %d %x" % (W, c), X(c & M))
                e = values(rng, 2 * W)
                q = rng.randrange(N + 1)
                put("slice %d %x 0 %d" % (W, e, q), X(e >> 32 * q & M))
                if b:
                    put("mod %d %x %x" % (W, c, b), X(c % b))
                    put("mod1 %d %x %x" % (W, a, b), X(a % b))
            put("mod %d 5 0" % W, "EXC")
        return mismatches(lines, d.run(lines), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "every function at eight widths on numbers with long runs of equal bits and word extremes; Python integers as oracle"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["integer polynomial normal form (vf/intpoly.py)", "Python integer arithmetic"],
                "assumptions": ["template instances proved: widths " + ", ".join(map(str, bnproof.WIDTHS)) + "; other widths by the same template text only", "bit(), set_bit(), clear_bit(), slice() and shl_word() get positions inside the number",
                                "byte and word-shift arguments of widths above 512 at listed lengths (all lengths to 512 bits)"]}


REDS = ((32, 32), (64, 32), (128, 64), (65, 32), (129, 64), (193, 96), (321, 160), (513, 256), (2049, 1024), (4097, 2048), (8193, 4096))


class Mont:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "mont.cpp")
        mod, dem = build.extract(src, ctx.work)
        lay = layout.layouts(src, ctx.work)
        m = lambda: montproof.Mont(mod, dem, lay)
        ts = []
        for K in (32, 64, 96, 128, 160, 256, 512, 1024, 2048, 4096):
            ts.append(Task("inverse.%d" % K, lambda K=K: m().inverse(K)))
        for K in WS:
            ts.append(Task("redc.%d" % K, lambda K=K: m().redc(K)))
            ts.append(Task("state.%d" % K, lambda K=K: m().state(K)))
            for op in ("make", "add", "mul", "square", "out"):
                ts.append(Task("%s.%d" % (op, K), lambda K=K, op=op: m().op(K, op)))
            ts.append(Task("exp32.%d" % K, lambda K=K: m().exp(K, 0)))
            ts.append(Task("exp.%d" % K, lambda K=K: m().exp(K, 1)))
        return ts

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "bignum.cpp", srcs=["random.cpp"], opt="-O2")
        lines, exp = [], []

        def put(l, e):
            lines.append(l)
            exp.append(e)
        for W in WS:
            R = 1 << W
            for it in range((300 if ctx.thorough else 60) if W < 1024 else (20 if ctx.thorough else 5)):
                n = values(rng, W) | 1
                if rng.random() < .3:
                    n |= 1 << (W - 1)
                x, y = values(rng, W), values(rng, W)
                if rng.random() < .4:
                    x, y = rng.choice([0, 1, n - 1, n - 2, n, n + 1, x]) % R, rng.choice([0, 1, n - 1, n - 2, n, y]) % R
                put("inv %d %x" % (W, n), X(pow(n, -1, R)))
                put("state %d %x" % (W, n), "%x %x %x %x %x" % (n, -pow(n, -1, R) % R, R % n, R * R % n, R ** 3 % n))
                g = pow(R, -1, n) if n > 1 else 0
                v = rng.choice([values(rng, 2 * W), n * (R - 1), n * R - 1, n, n - 1, 0, x * y]) % (n * R)
                put("redc %d %x %x" % (W, n, v), X(v * g % n))
                put("mont %d %x %x %x" % (W, n, x, y), "%x %x %x %x %x %x" % (x % n, (x + y) % n, x * y % n, x * x % n, x * R % n, (x + y) * R % n))
                e = values(rng, 32)
                put("expw %d %x %x %d" % (W, n, x, e), X(pow(x, e, n)))
                put("expw %d %x %x %d" % (W, n, x, it % 5), X(pow(x, it % 5, n)))
                if W <= 1024 or it < 1:
                    e = values(rng, W)
                    put("expb %d %x %x %x" % (W, n, x, e), X(pow(x, e, n)))
        return mismatches(lines, d.run(lines), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "odd moduli of every size up to eight widths, operands at 0, 1, N-1, N and above; Python integers as oracle"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["integer polynomial normal form (vf/intpoly.py) and congruences modulo N (vf/montproof.py)"],
                "assumptions": ["odd moduli", "REDC arguments below N 2^K", "word arithmetic enters through the contracts proved in C15", "template instances K = 32, 64, 96, 160, 256, 1024, 2048, 4096"]}


def make(what):
    return {"bignum": Bignum, "mont": Mont}[what]()
