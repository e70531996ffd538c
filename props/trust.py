"""The trust store."""
import os
import random
from vf import build, layout, trustproof
from vf.runner import Task, Driver, VERIF
from .sym import TB, mismatches, H
from . import x509 as X

SRCS = X.SRCS + ["X509Certificate.cpp", "Truststore.cpp"]


def trust(store, chain, now):
    """reference: store and chain are parsed certificates"""
    chain = [dict(c) for c in chain]
    if not chain:
        return False
    m = {c["subject"]: c for c in store}
    if chain[0]["from"] > now or chain[0]["to"] < now:
        return False
    n = 0
    while n < len(chain):
        c = chain[n]
        if c["subject"] in m or c["issuer"] not in m:
            n += 1
            continue
        if X.verify(c, m[c["issuer"]]):
            if n == 0:
                return True
            m[c["subject"]] = c
        else:
            chain[n] = dict(X.EMPTY)
        n = 0
    return False


class Trust:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "trust.cpp")
        mod, dem = build.extract(src, ctx.work, noinline=build.KEEPSTR + trustproof.KEEP)
        lay = layout.layouts(src, ctx.work)
        return [Task("trust", lambda: trustproof.Trust(mod, dem, lay).trust())]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed + 19)
        d = Driver(ctx, "trust.cpp", srcs=SRCS, opt="-O2")
        lines, exp = [], []
        K = [X.key17(rng, 1024) for _ in range(4)]
        D = [b"%02d0101000000Z" % y for y in range(100)]
        T0 = 1577836800                       # 2020-01-01
        nm = lambda s: [("CN", s)] if s else []
        serial = [0]

        def mk(subj, iss, k, by, f=20, t=30, **o):
            serial[0] += 1
            return X.make_cert(nm(subj), nm(iss), D[f], D[t], X.spki(*K[k][:2]), K[by], serial=serial[0], **o)
        root = mk(b"root", b"root", 0, 0, 10, 40)
        root2 = mk(b"root2", b"root2", 1, 1, 10, 40)
        inter = mk(b"inter", b"root", 2, 0, 15, 35)
        low = mk(b"low", b"inter", 3, 2, 16, 34)
        leaf = mk(b"leaf", b"inter", 3, 2)
        leaf2 = mk(b"leaf", b"low", 1, 3)
        direct = mk(b"leaf", b"root", 3, 0)
        fake_inter = mk(b"inter", b"root", 1, 1, 15, 35)       # not signed by root
        fake_root = mk(b"root", b"root", 1, 1, 10, 40)
        by_fake = mk(b"leaf", b"root", 3, 1)
        fleaf = mk(b"leaf", b"inter", 3, 1)
        wide = mk(b"leaf", b"inter", 3, 2, 14, 30)
        late = mk(b"leaf", b"inter", 3, 2, 20, 36)
        wideinter = mk(b"inter", b"root", 2, 0, 9, 35)
        self_leaf = mk(b"leaf", b"leaf", 3, 3)
        loop_a, loop_b = mk(b"a", b"b", 2, 3), mk(b"b", b"a", 3, 2)
        shadow = mk(b"root2", b"root", 3, 0, 10, 40)            # signed by root, takes a trusted name
        by_shadow = mk(b"leaf", b"root2", 2, 3)
        anon = mk(b"", b"root", 1, 0, 15, 35)
        by_anon = mk(b"leaf", b"", 2, 1)
        by_anon_fake = mk(b"leaf", b"", 2, 3)
        broken = X.tlv(48, X.tlv(49, b""))
        parsed = {}

        def P(c):
            if c not in parsed:
                parsed[c] = X.parse(c)
            return parsed[c]

        def put(store, chain, now=T0 + 5 * 365 * 86400):
            try:
                e = "1" if trust([P(c) for c in store], [P(c) for c in chain], now) else "0"
            except X.Bad:
                e = "EXC"
            lines.append(" ".join(["trust", str(now), str(len(store))] + [H(c) for c in store + chain]))
            exp.append(e)
        R = [root, root2]
        for ch in ([], [root], [direct], [leaf], [leaf, inter], [inter, leaf], [leaf, inter, inter], [leaf, fake_inter], [leaf, fake_inter, inter], [leaf, inter, fake_inter], [fleaf, fake_inter], [fleaf, fake_inter, inter], [fleaf, inter, fake_inter], [by_fake], [by_fake, fake_root],
                   [leaf2, low, inter], [leaf2, inter, low], [leaf2, low], [leaf2, inter], [leaf2, fake_inter, low, inter], [wide, inter], [late, inter], [leaf, wideinter], [self_leaf], [self_leaf, inter], [loop_a, loop_b], [loop_b, loop_a, inter], [by_shadow, shadow],
                   [by_shadow, shadow, inter], [shadow], [by_anon, anon], [by_anon_fake, anon], [by_anon_fake, fake_inter], [by_anon_fake, fleaf, fake_inter, anon], [broken], [broken, inter], [leaf, broken, inter], [leaf, inter, broken], [fleaf, inter, leaf], [inter], [low, inter], [direct, leaf],
                   [fake_root, leaf], [leaf, fake_root, inter], [fleaf, leaf, inter]):
            put(R, ch)
            if len(ch) > 1 and ctx.thorough:
                put([root], ch)
                put([root2], ch)
                put([], ch)
        for st in ([], [root2], [fake_root], [inter], [broken], [root, broken], [leaf], [root, fake_root], [fake_root, root]):
            for ch in ([leaf, inter], [direct], [by_fake], [leaf]):
                put(st, ch)
        base = T0
        end = P(leaf)["to"]
        for now in (0, base - 1, base, base + 1, end - 1, end, end + 1, 1 << 63, (1 << 64) - 1, P(inter)["from"]):
            put(R, [leaf, inter], now)
            put(R, [direct], now)
        pool = [root, inter, low, leaf, leaf2, fake_inter, fleaf, broken, anon, loop_a, shadow]
        for _ in range(400 if ctx.thorough else 30):
            put(rng.sample(pool, rng.randrange(3)) + [root], [rng.choice(pool) for _ in range(rng.randrange(1, 6))])
        for st, want, e in (([], b"CN=root", None), ([root, root2], b"CN=root", root), ([root, root2], b"CN=root2", root2), ([root, fake_root], b"CN=root", fake_root), ([root], b"root", None), ([root], b"", None), ([broken], b"", broken)):
            lines.append(" ".join(["get", H(want), str(len(st))] + [H(c) for c in st]))
            exp.append("none" if e is None else "%d %s" % (P(e)["serial"] & 0xffffffff, H(P(e)["der"])))
        return mismatches(lines, d.run(lines, timeout=200), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "stores and chains with missing, foreign, looping, shadowing, damaged and badly dated certificates in different orders; Python reference"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["record layouts printed by clang"],
                "assumptions": ["std::map enters through an abstraction of find, operator[], begin, end and iterators (vf/trustproof.py); x509certificate::verify through C19",
                                "partial correctness: that the search ends is not proved; that it finds every chain, addCertificate and get: bounded replay only", "the constructor's reading of the system's certificate file is not covered"]}


def make(what):
    return Trust()
