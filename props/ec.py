"""X25519."""
import os
import random
from vf import build, ecproof
from vf.runner import Task, Driver, VERIF
from .sym import TB, mismatches
from .bignum import values, X

P = 2 ** 255 - 19


def x25519(k, u):
    """RFC 7748 section 5 with u an integer taken modulo p"""
    k = (k & ~(7 | 1 << 255)) | 1 << 254
    u %= P
    x2, z2, x3, z3, swap = 1, 0, u, 1, 0
    for t in range(254, -1, -1):
        b = k >> t & 1
        if swap ^ b:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = b
        a, b, c, d = x2 + z2, x2 - z2, x3 + z3, x3 - z3
        aa, bb, da, cb = a * a % P, b * b % P, d * a % P, c * b % P
        e = aa - bb
        x3, z3, x2, z2 = (da + cb) ** 2 % P, u * (da - cb) ** 2 % P, aa * bb % P, e * (aa + 121665 * e) % P
    if swap:
        x2, z2 = x3, z3
    return x2 * pow(z2, P - 2, P) % P


class Ec:
    def tasks(self, ctx):
        mod, dem = build.extract(os.path.join(VERIF, "harness", "x25519.cpp"), ctx.work)
        e = lambda: ecproof.Ec(mod, dem)
        ts = [Task("field." + op, lambda op=op: e().op(op)) for op in ("add", "sub", "mul", "mulw", "square")]
        ts += [Task("compare." + op, lambda op=op: e().cmp(op)) for op in ("eq", "ne", "lt")]
        ts += [Task(n, lambda n=n: getattr(e(), n)()) for n in ("canon", "clamp", "swap", "inverse", "ladder")]
        return ts

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "x25519.cpp", srcs=["random.cpp"])
        lines, exp = [], []

        def put(l, e):
            lines.append(l)
            exp.append(e)
        M = 2 ** 256 - 1
        edge = [0, 1, 2, 9, 18, 19, 20, 37, 38, 39, P - 1, P, P + 1, P + 18, P + 19, 2 * P - 1, 2 * P, 2 * P + 1, M, M - 1, M - 37, M - 38, 1 << 255, 1 << 254, M >> 1, 38 ** 2, M - 38 ** 2, (1 << 224) - 1, M ^ ((1 << 32) - 1)]
        n = lambda: rng.choice(edge) if rng.random() < .4 else values(rng, 256)
        pairs = [(a, b) for a in edge for b in edge] + [(n(), n()) for _ in range(6000 if ctx.thorough else 600)]
        for a, b in pairs:
            p = " %x %x" % (a, b)
            put("add" + p, X((a + b) % P))
            put("sub" + p, X((a - b) % P))
            put("mul" + p, X(a * b % P))
            put("eq" + p, "%d%d%d" % (a % P == b % P, a % P != b % P, a % P < b % P))
        for a in edge + [n() for _ in range(1000 if ctx.thorough else 150)]:
            w = rng.choice([121665, 121666, 0xffffffff, 0, 1, 38, values(rng, 32)])
            put("mulw %x %x" % (a, w), X(a * w % P))
            put("square %x" % a, X(a * a % P))
            put("canon %x" % a, X(a % P))
            put("inv %x" % a, X(pow(a, P - 2, P)))
            put("clamp %x" % a, X((a & ~(7 | 1 << 255)) | 1 << 254))
            put("swap %x %x 1" % (a, w), "%x %x" % (w, a))
            put("swap %x %x 0" % (a, w), "%x %x" % (a, w))
        # points of small order and their unreduced forms
        small = [0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504, 39382357235489614581723060781553021112529911719440698176882885853963445705823, P - 1]
        us = [u + i * P for u in small for i in range(3) if u + i * P <= M] + edge
        for u in us:
            put("x %x %x" % (n(), u), None)
        for _ in range(400 if ctx.thorough else 60):
            put("x %x %x" % (n(), n()), None)
        for i, l in enumerate(lines):
            if exp[i] is None:
                k, u = (int(v, 16) for v in l.split()[1:])
                exp[i] = X(x25519(k, u))
        for _ in range(20):
            put("key 0", "ok")
        return mismatches(lines, d.run(lines), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "all pairs of boundary values (around 0, p, 2p, 2^256), runs of equal bits, points of small order and their unreduced forms; Python integers as oracle"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["integer polynomial normal form modulo 2^255-19 (vf/intpoly.py, vf/ecproof.py)"],
                "assumptions": ["word arithmetic enters through the contracts proved in C15", "a leading ladder step with bit 0 from (1:0),(u:1) leaves the projective points unchanged (DESIGN.md)", "random_private_key checked on samples only"]}


def make(what):
    return Ec()
