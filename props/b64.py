"""Base64."""
import base64
import os
import random
from vf import build, b64proof
from vf.runner import Task, Driver, VERIF
from .sym import TB, mismatches, H

DIG = {c: i for s in b64proof.SETS for i, c in enumerate(s)}


def enc(x, nl, omit, cs):
    """RFC 4648 / RFC 2045 with 76-character lines and a closing newline"""
    alt = [b"+/", b"+,", b"-_"][cs]
    s = base64.b64encode(x, alt)
    if nl:
        body, last = s[:len(x) // 57 * 76], s[len(x) // 57 * 76:]
        if omit:
            last = last.rstrip(b"=")
        return b"".join(body[i:i + 76] + b"\n" for i in range(0, len(body), 76)) + last + b"\n"
    return s.rstrip(b"=") if omit else s


def dec(s):
    d = [DIG[c] for c in s if c in DIG]
    out = bytearray()
    for i in range(0, len(d), 4):
        g = d[i:i + 4]
        v = 0
        for x in g:
            v = v << 6 | x
        v <<= 6 * (4 - len(g))
        out += v.to_bytes(3, "big")[:max(0, len(g) - 1)]
    return bytes(out)


class B64:
    def tasks(self, ctx):
        mod, dem = build.extract(os.path.join(VERIF, "harness", "base64.cpp"), ctx.work, noinline=build.KEEPSTR)
        ts = [Task("encode.%s.%s.%d" % ("lines" if nl else "oneline", "nopad" if om else "pad", cs), lambda nl=nl, om=om, cs=cs: b64proof.encode(mod, dem, nl, om, cs))
              for nl in (1, 0) for om in (0, 1) for cs in range(3)]
        return ts + [Task("decode", lambda: b64proof.decode(mod, dem)), Task("roundtrip", lambda: b64proof.roundtrip(mod, dem))]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        d = Driver(ctx, "base64.cpp", srcs=["base64.cpp"])
        lines, exp = [], []
        ns = list(range(0, 120)) + [56, 57, 58, 113, 114, 115, 170, 171, 172, 228, 1000, 57 * 20, 57 * 20 + 1] + [rng.randrange(3000) for _ in range(200 if ctx.thorough else 20)]
        for n in ns:
            for nl in (0, 1):
                for om in (0, 1):
                    for cs in range(3):
                        x = rng.choice([rng.randbytes(n), b"\xff" * n, bytes(n), bytes(rng.choice([0, 251, 255, 127, 128]) for _ in range(n))])
                        e = enc(x, nl, om, cs)
                        lines.append("enc %s %d %d %d" % (H(x), nl, om, cs))
                        exp.append(e.hex() or "-")
                        lines.append("dec " + (e.hex() or "-"))
                        exp.append(x.hex() or "-")
        for c in range(256):
            for pre in (b"", b"A", b"AB", b"ABC", b"+/-"):
                s = pre + bytes([c]) + b"xyz9"
                lines.append("dec " + s.hex())
                exp.append(dec(s).hex() or "-")
        for _ in range(3000 if ctx.thorough else 500):
            k = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 30, 100])
            s = bytes(rng.choice(list(DIG) + [10, 13, 32, 61]) if rng.random() < .9 else rng.randrange(256) for _ in range(k))
            lines.append("dec " + (s.hex() or "-"))
            exp.append(dec(s).hex() or "-")
        return mismatches(lines, d.run(lines), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "all lengths to 119 and line boundaries, every option and character set, "
                                                      "every byte as an input character, random texts; Python's base64 as oracle"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["assumed contracts of std::string and std::vector growth (vf/stdmodel.py)", "specification in vf/b64proof.py (RFC 4648 alphabets and groups)"],
                "assumptions": ["input lengths below 2^50", "Base64CharSet is one of its three enumerators"]}


def make(what):
    return B64()
