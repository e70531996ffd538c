"""The primality test, the search for primes, and random fills."""
import os
import random
import subprocess
from vf import build, layout, primeproof, randomproof
from vf.runner import Task, Driver, VERIF
from .sym import TB, mismatches

WS = (32, 64, 96, 128, 256, 1024, 2048)


def strong(n, a):
    d, r = n - 1, 0
    while d % 2 == 0:
        d, r = d // 2, r + 1
    x = pow(a, d, n)
    if x in (1, n - 1):
        return True
    for _ in range(r - 1):
        x = x * x % n
        if x == n - 1:
            return True
    return False


def isprime(n):
    if n < 7920:
        return n in SMALL
    return n % 2 == 1 and all(strong(n, a) for a in primeproof.PRIMES[:70]) and (n.bit_length() < 1000 or all(strong(n, a) for a in primeproof.PRIMES))


SMALL = set(primeproof.PRIMES)
P1 = 29674495668685510550154174642905332730771991799853043350995075531276838753171770199594238596428121188033664754218345562493168782883
# composites that pass the test to many small bases (Jaeschke, Sorenson-Webster, Arnault)
PSEUDO = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461, 3317044064679887385961981,
          P1 * (313 * (P1 - 1) + 1) * (353 * (P1 - 1) + 1)]
KNOWN = [65537, 3221225473, 2013265921, 998244353, 4294967291, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 64 - 2 ** 32 + 1, 2 ** 64 - 59, 2 ** 89 - 1, 2 ** 107 - 1, 2 ** 127 - 1, 2 ** 128 - 159, 2 ** 255 - 19,
         2 ** 256 - 2 ** 32 - 977, 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 7919, 7927, 7933, 8191]


class Primes:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "prime.cpp")
        mod, dem = build.extract(src, ctx.work)
        lay = layout.layouts(src, ctx.work)
        p = lambda: primeproof.Prime(mod, dem, lay)
        if ctx.thorough:
            r = subprocess.run(["lean", os.path.join(VERIF, "lemmas", "strong.lean")], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("lemma: " + r.stdout[-300:])
        ts = []
        for K in WS[::-1]:
            ts.append(Task("test.%d" % K, lambda K=K: p().test(K)))
        for K in WS:
            ts.append(Task("round.%d" % K, lambda K=K: p().once(K)))
            ts.append(Task("search.%d" % K, lambda K=K: p().gen(K, False)))
            ts.append(Task("search-fips.%d" % K, lambda K=K: p().gen(K, True)))
        return ts

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "prime.cpp", srcs=["random.cpp"], opt="-O2")
        lines, exp = [], []

        def put(W, n):
            if n >> W == 0:
                lines.append("test %d %x" % (W, n))
                exp.append(str(int(isprime(n))))
        for n in list(range(0, 8300)) + [7919 * 7919, 7919 * 7927, 7927 * 7927, 2 ** 32 - 1, 2 ** 32 - 2]:
            put(32, n)
        for W in WS:
            for n in KNOWN:
                if W <= 256:
                    put(W, n)
            for n in PSEUDO:
                put(W, n)
            for n in (0, 1, 2, 3, 4, 7907, 7919, 7920, 7921, 2 ** W - 1, 2 ** (W - 1), 2 ** 32, 2 ** 32 + 2, 2 ** 32 + 3, 2 ** 64 + 2, 7919 << 32):
                put(W, n)
            for _ in range(60 if W <= 128 else 12 if W == 256 else 2):
                put(W, rng.getrandbits(W) | 1)
            if W <= 256:
                for _ in range(8 if W < 256 else 2):
                    n = rng.getrandbits(W) | 1 | 1 << (W - 1)
                    while not isprime(n):
                        n = n + 2 if n + 2 < 1 << W else (1 << (W - 1)) + 1
                    put(W, n)
                # k 2^s + 1: many squarings
                for s in (W // 2, W - 8, W - 13):
                    k = 1
                    while not isprime((k << s) + 1) and (k + 2) << s < 1 << W:
                        k += 2
                    put(W, (k << s) + 1)
                # products of two primes, p(2p - 1) among them
                for _ in range(6):
                    p = rng.getrandbits(W // 2 - 1) | 1
                    while not isprime(p):
                        p = p + 2
                    q = 2 * p - 1
                    while not isprime(q):
                        q = q + 2
                    put(W, p * q)
                    put(W, p * p)
        for W in (32, 64, 96, 128):
            per = (W + 63) // 64
            for strict in (0, 1):
                for _ in range(3):
                    vs = [rng.choice([rng.getrandbits(64), rng.getrandbits(62)]) for _ in range(per * 400)]
                    for i in range(0, len(vs), per):
                        c = sum(v << (64 * j) for j, v in enumerate(vs[i:i + per])) & ((1 << W) - 1)
                        c |= 1 | 1 << (W - 1) | (strict << (W - 2))
                        if isprime(c):
                            break
                    else:
                        continue
                    lines.append("gen %d %d %s" % (W, strict, " ".join("%x" % v for v in vs)))
                    exp.append("%x %d" % (c, len(vs) - i - per))
        return mismatches(lines, d.run(lines), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "all numbers below 8300, known primes, strong pseudoprimes to up to 62 bases, primes k 2^s + 1, semiprimes, random odd numbers at seven widths; searches over prepared random values"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["integer polynomial normal form (vf/intpoly.py) and congruences modulo N (vf/montproof.py)", "lemma: a^(N-1) is never -1 modulo an odd N > 1", "lemma: an odd prime passes the strong test to every base it does not divide (lemmas/strong.lean)",
                                      "lemmas on powers of two: 2^k < 2^W implies k < W"],
                "assumptions": ["Montgomery and word operations enter through the contracts proved in C15 and C16 (the range below N of every operand is an obligation here)", "template instances K = " + ", ".join(map(str, WS)),
                                "termination of the search for primes is not claimed; random bits enter as arbitrary numbers"]}


class Fills:
    def tasks(self, ctx):
        mod, dem = build.extract(os.path.join(VERIF, "harness", "random.cpp"), ctx.work)
        f = lambda: randomproof.Fill(mod, dem)
        return [Task("fill.%d" % b, lambda b=b: f().fill(b)) for b in (8, 16, 32, 64)] + [Task("number.%d" % K, lambda K=K: f().number(K)) for K in BW]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "random.cpp", srcs=["random.cpp"])
        lines, exp = [], []

        def put(op, b, n, nb):
            k = (nb + 7) // 8
            extra = rng.randrange(3)
            vs = [rng.getrandbits(64) | 1 << 63 | 1 << 31 for _ in range(k + extra)]
            out = b"".join(v.to_bytes(8, "little") for v in vs)[:nb]
            lines.append("%s %d %d %s" % (op, b, n, " ".join("%x" % v for v in vs)))
            exp.append("%s %d" % (out.hex() or "-", extra))
        for b in (8, 16, 32, 64):
            for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 511, 513, 1023, 4097, 65535, 65536, 65537, 200003] + ([1 << 20, (1 << 20) + 3] if ctx.thorough else []):
                put("fill", b, n, n * b // 8)
        for K in BW:
            put("bn", K, 0, (K + 31) // 32 * 4)
        return mismatches(lines, d.run(lines), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "every element type and all lengths to 69, powers of two and neighbours to 65537; prepared generator values"}

    def meta(self, ctx):
        return {"trusted_base": TB, "assumptions": ["the values of the generator are an arbitrary sequence (their quality is not claimed, N03); that prepared values are taken in order is replayed, not proved", "fewer than 2^48 elements",
                                                    "bignum::random at widths " + ", ".join(map(str, BW))]}


BW = (32, 64, 96, 160, 256, 1024, 2048, 4096)


def make(what):
    return {"primes": Primes, "fills": Fills}[what]()
