"""DER, dates and X.509 certificates."""
import base64
import datetime
import hashlib
import os
import random
from vf import build, layout, x509proof
from vf.runner import Task, Driver, VERIF
from .sym import TB, mismatches, H
from .rsa import ver15, pkcs1, key

SRCS = ["md5.cpp", "sha1.cpp", "sha2.cpp", "random.cpp", "base64.cpp"]
RSA = bytes.fromhex("2a864886f70d010101")
SIGS = {"sha256": bytes.fromhex("2a864886f70d01010b"), "sha384": bytes.fromhex("2a864886f70d01010c"), "sha512": bytes.fromhex("2a864886f70d01010d")}
SHA1SIG, PSS = bytes.fromhex("2a864886f70d010105"), bytes.fromhex("2a864886f70d01010a")
# order of to_string
NAMES = [("S#", "550405"), ("C", "550406"), ("L", "550407"), ("STREET", "550409"), ("ST", "550408"), ("E", "2a864886f70d010901"), ("GN", "55042a"), ("SN", "550404"), ("T", "55040c"), ("O", "55040a"), ("OI", "550461"),
         ("OU", "55040b"), ("CN", "550403")]
OIDS = {bytes.fromhex(o): n for n, o in NAMES}


class Bad(Exception):
    pass


# ---- reference
def read(d, o):
    if len(d) - o < 2:
        raise Bad
    tag, n = d[o], d[o + 1]
    o += 2
    if n & 0x80:
        k = n & 0x7f
        if len(d) - o < k:
            raise Bad
        n = int.from_bytes(d[o:o + k], "big")
        o += k
    if n > len(d) - o:
        raise Bad
    return tag, d[o:o + n], o + n


class View:
    def __init__(self, d):
        self.d, self.o = d, 0

    def read(self):
        tag, c, self.o = read(self.d, self.o)
        return tag, c

    def end(self):
        return self.o == len(self.d)


def date(tag, c):
    if not c or c[-1:] != b"Z" or tag not in (23, 24):
        return 0
    s = c[:-1]
    if tag == 23:
        s = (b"19" if c[0] >= 0x35 else b"20") + s
    if len(s) < 10 or not all(48 <= x <= 57 for x in s):
        return 0
    s = s.decode()
    y, mo, d, h = int(s[:4]), int(s[4:6]), int(s[6:8]), int(s[8:10])
    mi = int(s[10:12]) if len(s) >= 12 else 0
    se = int(s[12:14]) if len(s) >= 14 else 0
    if y < 1970 or not 1 <= mo <= 12 or not 1 <= d <= 31 or h > 23 or mi > 59 or se > 60:
        return 0
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if d > [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1] or se == 60:
        return None                # no such day: nothing is claimed
    return (datetime.date(y, mo, d) - datetime.date(1970, 1, 1)).days * 86400 + h * 3600 + mi * 60 + se


def number(tag, c, bits):
    return int.from_bytes(c, "big") % (1 << bits) if tag == 2 else 0


def name(v):
    r = {}
    while not v.end():
        tag, s = v.read()
        oid, val = b"", b""
        if tag == 49:
            w = View(s)
            tag, s2 = w.read()
            if tag == 48:
                w = View(s2)
                tag, o = w.read()
                if tag == 6:
                    oid = o
                    tag, c = w.read()
                    val = c if tag in (19, 12) else b""
        if oid not in OIDS:
            return {}
        r[OIDS[oid]] = val
    return r


def shown(n):
    return b" ".join(k.encode() + b"=" + n[k] for k, _ in NAMES if n.get(k))


def pubkey(v):
    tag, s = v.read()
    if tag != 48:
        return None
    w = View(s)
    tag, o = w.read()
    if tag != 6 or o != RSA:
        return None
    tag, c = v.read()
    if not c:
        return None
    w = View(View(c[1:]).read()[1])
    n = number(*w.read(), 4096)
    e = number(*w.read(), 4096)
    if e < 17 or n == 0:
        raise Bad
    return n, e


EMPTY = {"subject": b"", "issuer": b"", "from": 0, "to": 0, "serial": 0, "key": None, "der": b"", "cn": None}


def parse(der):
    tag, s = View(der).read()
    if tag != 48:
        return EMPTY
    tag, s = View(s).read()
    if tag != 48:
        return EMPTY
    v = View(s)
    if v.end():
        raise Bad
    if v.d[v.o] == 160:
        tag, c = View(v.read()[1]).read()
        if ((int.from_bytes(c, "big") if tag == 2 else 0) + 1) % (1 << 32) != 3:
            return EMPTY
    r = dict(EMPTY)
    r["serial"] = number(*v.read(), 128)
    if v.read()[0] != 48:
        return EMPTY
    tag, c = v.read()
    if tag != 48:
        return EMPTY
    r["issuer"] = shown(name(View(c)))
    tag, c = v.read()
    if tag != 48:
        return EMPTY
    w = View(c)
    r["from"], r["to"] = date(*w.read()), date(*w.read())
    tag, c = v.read()
    if tag != 48:
        return EMPTY
    n = name(View(c))
    r["cn"], r["subject"] = n.get("CN", b""), shown(n)
    tag, c = v.read()
    if tag != 48:
        return EMPTY
    r["key"] = pubkey(View(c))
    while not v.end():
        if v.read()[0] not in (161, 162, 163):
            return EMPTY
    r["der"] = der
    return r


def verify(x, y):
    if x["from"] < y["from"] or x["to"] > y["to"]:
        return False
    tag, s = View(x["der"]).read()
    if tag != 48:
        return False
    v = View(s)
    tag, tbs = v.read()
    if tag != 48:
        return False
    t1, alg = v.read()
    t2, sig = v.read()
    if t1 != 48 or t2 != 3 or not sig:
        return False
    oid = View(alg).read()[1]
    h = [h for h, o in SIGS.items() if o == oid]
    return bool(h and y["key"]) and ver15(h[0], *y["key"], tbs, sig[1:])


# ---- building
def tlv(tag, c, form=0):
    n = len(c)
    if form == 0 and n < 128:
        return bytes([tag, n]) + c
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8, form), "big")
    return bytes([tag, 0x80 + len(b)]) + b + c


def num(n):
    b = n.to_bytes((n.bit_length() + 8) // 8, "big")
    return tlv(2, b)


def dn(pairs, tag=19):
    o = {n: bytes.fromhex(x) for n, x in NAMES}
    return tlv(48, b"".join(tlv(49, tlv(48, tlv(6, o.get(k, b"\x55\x04\x63")) + tlv(tag, v))) for k, v in pairs))


def spki(n, e, oid=RSA):
    return tlv(48, tlv(48, tlv(6, oid) + tlv(5, b"")) + tlv(3, b"\0" + tlv(48, num(n) + num(e))))


def make_cert(subject, issuer, frm, to, pk, signer, h="sha256", serial=1, version=2, ext=b"", sigoid=None, datetag=23, unused=0):
    ver = tlv(160, num(version)) if version is not None else b""
    alg = tlv(48, tlv(6, sigoid or SIGS[h]) + tlv(5, b""))
    tbs = ver + num(serial) + alg + dn(issuer) + tlv(48, tlv(datetag, frm) + tlv(datetag, to)) + dn(subject) + pk + ext
    n, e, d = signer
    k = (n.bit_length() + 7) // 8
    sig = pow(int.from_bytes(pkcs1(h, tbs, k), "big"), d, n).to_bytes(k, "big")
    return tlv(48, tlv(48, tbs) + alg + tlv(3, bytes([unused]) + sig))


def pem(der, kind="CERTIFICATE", width=64):
    b = base64.b64encode(der).decode()
    return ("-----BEGIN %s-----\n" % kind + "\n".join(b[i:i + width] for i in range(0, len(b), width)) + "\n-----END %s-----\n" % kind).encode()


def key17(rng, bits):
    """keys with exponent 3 are refused by the parser"""
    while True:
        k = key(rng, bits)
        if k[1] >= 17:
            return k


class X509:
    def tasks(self, ctx):
        src = os.path.join(VERIF, "harness", "x509.cpp")
        mod, dem = build.extract(src, ctx.work, noinline=build.KEEPSTR)
        lay = layout.layouts(src, ctx.work)
        P = lambda: x509proof.X509(mod, dem)
        ts = [Task("date.%s.%d" % (k, n), lambda k=k, n=n: P().date(k, n)) for k, n in (("utc", 10), ("gen", 0), ("utc", 12), ("gen", 14), ("utc", 14), ("gen", 12), ("gen", 10), ("utc", 0), ("other", 0))]
        ts += [Task("number.%d" % W, lambda W=W: P().bn(W)) for W in (4096, 128, 32)]
        return ts + [Task("verify", lambda: P().verify(lay)), Task("read", lambda: P().read()), Task("peek", lambda: P().small()), Task("int", lambda: P().int_())]

    def replay(self, ctx, hints):
        rng = random.Random(ctx.seed)
        R = rng.randbytes
        d = Driver(ctx, "x509.cpp", srcs=SRCS, opt="-O2")
        lines, exp = [], []

        def put(e, *l):
            if e is None:
                return
            lines.append(" ".join(H(x) if isinstance(x, bytes) else x for x in l))
            exp.append(e)

        def tryit(f, *l):
            try:
                put(f(), *l)
            except Bad:
                put("EXC", *l)

        def elements(b):
            r, o = "", 0
            try:
                while o != len(b):
                    tag, c, o = read(b, o)
                    r += "%d:%s " % (tag, H(c))
                return r + "."
            except Bad:
                return r + "X"
        els = [b"", b"\x30", b"\x30\x00", b"\x30\x01", b"\x30\x80", b"\x30\x81", b"\x30\x81\x00", b"\x30\x81\x01", b"\x30\x82\x01", b"\x30\x88" + bytes(7) + b"\x01a", b"\x30\x89" + bytes(8) + b"\x01a", b"\x30\x8b" + bytes(10) + b"\x01ab",
               b"\x30\x88" + b"\xff" * 8, b"\x30\x88\x80" + bytes(7), b"\x30\x89\x01" + bytes(8), b"\x30\x8a\x01" + bytes(9), b"\x30\xff" + b"\xff" * 127, b"\x30\xff" + bytes(127), b"\x30\x84\xff\xff\xff\xff", b"\x30\x84\xff\xff\xff\xfaabcdef"]
        for n in (0, 1, 126, 127, 128, 129, 255, 256, 257, 65535, 65536):
            for f in (0, 1, 2, 3, 4, 8, 9, 20):
                e = tlv(rng.randrange(256), R(n), f)
                els += [e, e + b"\5\0", e[:-1]] + ([e[:rng.randrange(len(e))]] if n < 300 else [])
        for _ in range(3000 if ctx.thorough else 300):
            els.append(b"".join(rng.choice([R(1), b"\x81", b"\x82", b"\0", b"\1", b"\2", R(2)]) for _ in range(rng.randrange(14))))
        for b in els:
            put(elements(b), "read", b)
        # dates
        ds = []
        for y in list(range(1965, 2110)) + [1900, 1969, 1970, 2000, 2037, 2038, 2039, 2049, 2050, 2068, 2069, 2099, 2100, 2106, 2107, 2200, 2400, 3000, 4000, 9999, 0]:
            for md in ("0101", "0228", "0229", "0301", "1231", "0630"):
                ds.append("%04d%s%02d%02d%02d" % (y, md, rng.randrange(24), rng.randrange(60), rng.randrange(60)))
        for _ in range(4000 if ctx.thorough else 600):
            s = "%04d%02d%02d%02d%02d%02d" % (rng.choice([rng.randrange(10000), rng.randrange(1950, 2150)]), rng.randrange(14), rng.randrange(33), rng.randrange(26), rng.randrange(62), rng.randrange(62))
            ds.append(s)
        for s in ds:
            for tag, q in ((24, s), (23, s[2:])):
                for cut in ((0, 2, 4) if rng.random() < 0.3 else (0,)):
                    c = q[:len(q) - cut].encode() + b"Z"
                    put(None if date(tag, c) is None else str(date(tag, c)), "date", tlv(tag, c))
        for tag in (22, 23, 24, 25):
            for c in (b"", b"Z", b"0Z", b"5Z", b"2020Z", b"20200101Z", b"202001010Z", b"2020010100Z", b"20200101000000", b"20200101000000z", b"2020010100000Z", b"202001010000001Z", b"20200101000000+0000Z", b"2020/101000000Z", b"2020:101000000Z",
                      b"200101000000Z", b"500101000000Z", b"490101000000Z", b"2O0101000000Z", b"20010100Z", b"2001010Z", b"20200101000000ZZ", b"20200101000000\0Z"):
                put(None if date(tag, c) is None else str(date(tag, c)), "date", tlv(tag, c))
        # numbers and strings
        for tag in (2, 3, 0x82):
            for c in [b"", b"\0", b"\0\0", b"\0\0\1", b"\1", b"\x80", b"\xff", b"\0\xff", b"\1\0", bytes(20), b"\0" + b"\xff" * 4, b"\xff" * 4, b"\1" + bytes(4), b"\xff" * 16, b"\0" + b"\xff" * 16, b"\xfe" + b"\xff" * 16, b"\0\0" + R(16), R(512), b"\0" + R(512), b"\0\0" + R(512), R(600)] + [R(rng.randrange(30)) for _ in range(40)]:
                e = tlv(tag, c)
                put(str(number(tag, c, 32)), "int", e)
                for w in (32, 128, 4096):
                    put("%x" % number(tag, c, w), "bn%d" % w, e)
        for tag in (12, 19, 20, 22):
            for c in (b"", b"a", b"15 chars string", b"sixteen chars st", bytes(3), R(200)):
                put(H(c if tag in (12, 19) else b""), "str", tlv(tag, c))
        # certificates
        K = key17(rng, 1024), key17(rng, 1031), key17(rng, 1024)
        T = [b"200101000000Z", b"250101000000Z", b"300101000000Z", b"350101000000Z"]
        ca, leaf = [("CN", b"root"), ("O", b"org"), ("C", b"NL")], [("CN", b"example.com"), ("OU", b"u"), ("ST", b"s"), ("S#", b"1"), ("L", b"l"), ("STREET", b"x"), ("E", b"e@f"), ("GN", b"g"), ("SN", b"n"), ("T", b"t"), ("OI", b"i")]
        root = make_cert(ca, ca, T[0], T[3], spki(*K[0][:2]), K[0])
        other = make_cert(ca, ca, T[0], T[3], spki(*K[1][:2]), K[1])
        nokey = make_cert(ca, ca, T[0], T[3], spki(*K[0][:2], oid=PSS), K[0])
        L_ = lambda **k: make_cert(leaf, ca, k.pop("f", T[1]), k.pop("t", T[2]), k.pop("pk", spki(*K[2][:2])), k.pop("signer", K[0]), **k)
        good = [L_(h=h) for h in SIGS] + [L_(signer=K[1])]
        certs = [root, nokey] + good + [L_(version=v) for v in (None, 0, 1, 3, 258, (1 << 32) + 2)] + [L_(serial=s) for s in (0, 127, 128, 1 << 127, (1 << 128) - 1, (1 << 128) + 5)]
        certs += [L_(ext=e) for e in (tlv(161, b"x"), tlv(162, b"y") + tlv(163, b"z"), tlv(163, b""), tlv(164, b"q"), b"\xa3")]
        certs += [L_(pk=p) for p in (spki(*K[2][:2], oid=PSS), spki(K[2][0], 3), spki(K[2][0], 17), spki(K[2][0], 16), spki(0, 17), tlv(48, b""), tlv(48, tlv(48, tlv(6, RSA)) + tlv(3, b"")), tlv(48, tlv(48, tlv(6, RSA)) + tlv(3, b"\0")), tlv(49, b""),
                                     tlv(48, tlv(49, tlv(6, RSA))), tlv(48, tlv(48, tlv(5, RSA))), tlv(48, tlv(48, b"")))]
        certs += [make_cert(s, ca, T[1], T[2], spki(*K[2][:2]), K[0]) for s in ([], [("CN", b"")], [("CN", b"a"), ("CN", b"b")], [("XX", b"a")], [("CN", b"a"), ("XX", b"q")])]
        certs += [L_(f=f, t=t, datetag=24) for f, t in ((b"20200101000000Z", b"20500101000000Z"), (b"19690101000000Z", b"20380119031408Z"))] + [L_(f=b"", t=b"Z"), L_(f=b"20Z")]
        base = list(certs)
        for c in base[:3] if not ctx.thorough else base:
            for _ in range(60):
                b = bytearray(c)
                # the structure, not the inside of the numbers
                p = rng.choice([rng.randrange(min(len(b), 240)), rng.randrange(len(b))])
                b[p] = rng.choice([0, 1, 2, 3, 5, 6, 12, 19, 23, 24, 48, 49, 160, 0x80, 0x81, 0x82, 0xff, b[p] ^ 1, b[p] + 1 & 255, b[p] - 1 & 255])
                certs.append(bytes(b))
            certs += [c[:rng.randrange(len(c))] for _ in range(20)]
        certs += [b"", b"\x30\0", tlv(48, tlv(48, b"")), tlv(49, b"ab"), tlv(48, tlv(49, b"")), root + b"tail"]
        sh = lambda r: None if r["from"] is None or r["to"] is None else "%s %s %d %d %x %d %s" % (H(r["subject"]), H(r["issuer"]), r["from"], r["to"], r["serial"], r["key"] is not None, H(r["der"]))
        for c in certs:
            tryit(lambda: sh(parse(c)), "cert", "der", c)
        for c in base[:8]:
            tryit(lambda: sh(parse(c)), "cert", "pem", pem(c))
            tryit(lambda: sh(parse(c)), "cert", "pem", b"x: y\n" + pem(c, width=76) + b"rest\n")
        for c, n in ((good[0], b"example.com"), (good[0], b"example.co"), (good[0], b"www.example.com"), (good[0], b""), (root, b"root")):
            put("1" if parse(c)["cn"] == n else "0", "applies", c, n)
        for k in (0, 1, 2, 3, 7):
            cs = [L_(serial=100 + i) for i in range(k)]
            for sep in (b"", b"\ncomment\n"):
                put("".join("%x/%s " % (parse(c)["serial"], H(parse(c)["subject"])) for c in cs) + ".", "pems", sep + sep.join(pem(c) for c in cs) + sep)
        # verification
        wrong = {"sig": bytearray(good[0]), "tbs": bytearray(good[0]), "short": bytearray(good[0])}
        wrong["sig"][-5] ^= 4
        p = good[0].find(b"example.com")
        wrong["tbs"][p] ^= 1
        n, e, dd = K[0]
        body = read(good[0], 0)[1]
        _, tbs, o1 = read(body, 0)
        _, alg, o2 = read(body, o1)
        _, sg, _ = read(body, o2)
        W = lambda a, s, st=3, at=48: tlv(48, tlv(48, tbs) + tlv(at, a) + tlv(st, s))
        vs = good + [bytes(wrong["sig"]), bytes(wrong["tbs"]), root, other, L_(f=b"191231235959Z"), L_(f=T[0]), L_(t=T[3]), L_(t=b"350101000001Z"), L_(f=b""), L_(t=b""), L_(sigoid=SHA1SIG), L_(sigoid=PSS), L_(sigoid=SIGS["sha384"]), L_(unused=5),
                     W(alg, b""), W(alg, sg[:-1]), W(alg, sg + b"\0"), W(alg, sg[1:]), W(alg, b"\0" + sg), W(alg, sg, 4), W(alg, sg, 3, 49), W(tlv(5, SIGS["sha256"]), sg), W(tlv(6, SIGS["sha256"] + b"\0"), sg), W(tlv(6, SIGS["sha256"][:-1]), sg), W(b"", sg), W(alg, b"\0"),
                     tlv(48, tlv(48, tbs)), tlv(48, tlv(48, tbs) + tlv(48, alg)), W(alg, b"\0" + (int.from_bytes(sg[1:], "big") + n).to_bytes(len(sg), "big")), L_(signer=K[2])]
        odd = [make_cert(ca, ca, f, to, spki(*K[0][:2]), K[0]) for f, to in ((T[0], b""), (b"", T[3]), (b"700101000000Z", T[2]), (T[1], T[2]))]
        for i in [root, other, nokey, good[0], b"\x30\0"] + odd:
            for c in vs:
                if i in (root,) or c in vs[:6]:
                    def f():
                        x, y = parse(c), parse(i)
                        return "1" if verify(x, y) else "0"
                    tryit(f, "verify", c, i)
        # private keys
        n, e, dd = K[0]
        pd = tlv(48, num(0) + num(n) + num(e) + num(dd) + num(3) + num(5))
        sig = pow(int.from_bytes(pkcs1("sha256", b"message", 128), "big"), dd, n).to_bytes(128, "big")
        put(H(sig), "priv", "der", pd, b"message")
        put(H(sig), "priv", "pem", pem(pd, "RSA PRIVATE KEY"), b"message")
        put("none", "priv", "der", tlv(49, b""), b"message")
        put("EXC", "priv", "der", pd[:40], b"message")
        return mismatches(lines, d.run(lines, timeout=200), exp), {"cases": len(lines), "distinct": len(set(lines)), "rule": "DER elements with every length form, dates over all years and field boundaries, numbers, whole and damaged certificates, PEM bundles and signature checks; Python reference"}

    def meta(self, ctx):
        return {"trusted_base": TB + ["record layouts printed by clang"],
                "assumptions": ["callers of asn1_view::read() see it through its contract, proved by the task `read`; bignum's byte constructor through C15; validateSignature through C18",
                                "the object identifiers keep the values their initialisers (executed) give them", "std::vector growth enters through assumed contracts; console output has no effect",
                                "days past the end of their month and leap seconds: nothing claimed", "bounded (replay): parsing of names, whole certificates, PEM text and private keys"]}


def make(what):
    return X509()
