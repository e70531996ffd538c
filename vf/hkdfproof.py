"""HMAC (RFC 2104), HKDF (RFC 5869) and the TLS 1.3 key schedule (RFC 8446 7.1).

Callees enter by contract: a hash object carries the byte sequence added so far (ghost), its digest is a function of that sequence; HMAC
is a function of (text, key), HKDF-Expand of (prk, info, length), HKDF-Expand-Label of (secret, label, context, length).  A contract is an
ordered list of argument tuples the specification uses, each with the name of its result; a call whose arguments are provably one of them
returns that result, any other call returns unrelated bytes (so that a wrong argument breaks the postcondition)."""
import re
from . import terms as t, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported
from .loops import LoopEngine, Template
from .stream import content
from .facade import ret_bytes

C64 = lambda v: const(v, 64)
C8 = lambda v: const(v, 8)
HASHES = {"MD5": (16, 64), "SHA1": (20, 64), "SHA2<224ul>": (28, 64), "SHA2<256ul>": (32, 64), "SHA2<384ul>": (48, 128), "SHA2<512ul>": (64, 128),
          "SHA3<224ul>": (28, 144), "SHA3<256ul>": (32, 136), "SHA3<384ul>": (48, 104), "SHA3<512ul>": (64, 72)}


class Seq:
    """byte sequence: pieces (length term, reader fn(st, rel))"""

    def __init__(self, pieces=()):
        self.p = tuple(pieces)

    def __add__(self, o):
        return Seq(self.p + o.p)

    def len(self):
        n = C64(0)
        for l, _ in self.p:
            n = t.add(n, l)
        return n

    def at(self, st, j):
        r, at = C8(0), C64(0)
        out = []
        for l, f in self.p:
            out.append((at, l, f))
            at = t.add(at, l)
        for a, l, f in reversed(out):
            if isc(l) and cv(l) == 0:
                continue
            r = t.ite(t.ult(j, t.add(a, l)), f(st, t.sub(j, a)), r)
        return r

    def same(self, ex, st, o):
        """provably equal (no obligation recorded)"""
        e = t.eq(self.len(), o.len())
        if e is FALSE or not (e is TRUE or st.decide(e) is True):
            return False
        n = self.len()
        if all(isc(l) for l, _ in self.p + o.p) and cv(n) <= 1024:
            for i in range(cv(n)):
                e = t.eq(self.at(st, C64(i)), o.at(st, C64(i)))
                if e is FALSE or not (e is TRUE or st.decide(e) is True):
                    return False
            return True
        j = t.fresh("j", 64)
        s2 = st.fork()
        s2.assume(t.ult(j, o.len()))
        if not s2.feasible():
            return True
        e = t.eq(self.at(s2, j), o.at(s2, j))
        return e is TRUE or (e is not FALSE and s2.decide(e) is True)


def by(bs):
    """sequence of given byte terms"""
    bs = list(bs)

    def f(st, j):
        if isc(j):
            return bs[min(cv(j), len(bs) - 1)]
        r = bs[-1]
        for i in range(len(bs) - 2, -1, -1):
            r = t.ite(t.eq(j, C64(i)), bs[i], r)
        return r
    return Seq([(C64(len(bs)), f)]) if bs else Seq()


def txt(s):
    return by([C8(c) for c in s])


def ufseq(nm, n):
    return Seq([(n, lambda st, j: t.uf(nm, [j], 8))])


def mem(ex, st, p, n, where):
    """sequence of the n bytes at p (obligation: readable)"""
    if isc(n) and cv(n) == 0:
        return Seq()
    ps = ex.split(st, p, where)
    if len(ps) != 1:
        raise Unsupported("pointer")
    oid, off = ps[0][1], ps[0][2]
    if not oid:
        ex.prove(st, t.eq(n, C64(0)), "null-range", where)
        return Seq()
    ex.access(st, st.mem[oid], off, n, where, cond=TRUE if isc(n) else t.bnot(t.eq(n, C64(0))))
    st.owner = object()
    snap = st.mem[oid]
    return Seq([(n, lambda s_, j: snap.rd(s_, t.add(off, j)))])


def vecseq(ex, st, p):
    oid, n = stdmodel.vec_parts(ex, st, p)
    if not oid:
        return Seq()
    st.owner = object()
    snap = st.mem[oid]
    return Seq([(n, lambda s_, j: snap.rd(s_, j))])


class Proof:
    def __init__(self, mod, dem, alg):
        self.mod, self.dem, self.alg = mod, dem, alg
        self.L, self.B = HASHES[alg]
        self.table = {}
        self.nres = 0

    def fn(self, name):
        for n, d in self.dem.items():
            if re.search(r"(^|\s)Use<Caligo::%s ?>::%s\(" % (re.escape(self.alg), re.escape(name)), d):
                return n
        raise Unsupported("no entry point " + name)

    def mk(self):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)
        ex.loop_hook = LoopEngine([])
        ex.contracts.insert(0, (lambda n, d: bool(re.match(r"^Caligo::(MD5|SHA1|SHA2<\d+ul>|SHA3<\d+ul>)::", d)) and "getAsn1Id" not in d, self.hash))
        self.expect = []      # (Seq, [result bytes])
        return ex

    # -- the hash
    def new(self, seq, a):
        k = len(self.table) + 1
        self.table[k] = (a, seq)
        return C64(k)

    def hash(self, ex, st, name, args, where):
        d = ex.dem.get(name, name)
        m = re.match(r"^Caligo::((MD5|SHA1|SHA2<\d+ul>|SHA3<\d+ul>))::(.*)$", d)
        a, op = m.group(1), m.group(3)
        if a not in HASHES:
            return NotImplemented
        if re.match(r"(MD5|SHA1|SHA2|SHA3)\(\)$", op):
            ex.store(st, args[0], self.new(Seq(), a), 8, where)
            return [Outcome("ret", st, None)]
        if op.startswith("add(std::span"):
            p, dd, n = args
            g = ex.load(st, p, 8, where)
            if not isc(g):
                raise Unsupported("hash object state")
            a0, s = self.table[cv(g)]
            ex.store(st, p, self.new(s + mem(ex, st, dd, n, where), a0), 8, where)
            return [Outcome("ret", st, None)]
        m = re.match(r"operator std::array<unsigned char, (\d+)ul>\(\) const", op)
        if m:
            n = int(m.group(1))
            g = ex.load(st, args[-1], 8, where)
            if not isc(g):
                raise Unsupported("hash object state")
            a0, s = self.table[cv(g)]
            return ret_bytes(ex, st, None, args, self.digest(ex, st, a0, a, s, n), where)
        return NotImplemented

    def fresh(self, n):
        self.nres += 1
        return [t.uf("OTHER%d" % self.nres, [C64(i)], 8) for i in range(n)]

    def digest(self, ex, st, a0, a, s, n):
        if a0 == self.alg and a == self.alg:
            for seq, res in self.expect:
                if s.same(ex, st, seq):
                    return res(s_=st) if callable(res) else res
        return self.fresh(n)

    # -- HMAC
    def hmac(self, name="hmac"):
        ex = self.mk()
        st = State(ex)
        tn, kn = t.zext(t.var("tlen", 60), 64), t.zext(t.var("klen", 60), 64)
        to = ex.new_obj(st, tn, "text", base=lambda s_, j: t.uf("TXT", [j], 8))
        ko = ex.new_obj(st, kn, "key", base=lambda s_, j: t.uf("KEY", [j], 8))
        to.ro = ko.ro = True
        out = ex.new_obj(st, self.L, "out")
        HK = [t.var("hk%d" % i, 8) for i in range(self.L)]
        text = ufseq("TXT", tn)
        pads = {}
        for nm, pad in (("short", None), ("long", None)):
            def kb(s_, j, nm=nm, p=0):
                if nm == "short":
                    return t.ite(t.ult(j, kn), t.uf("KEY", [j], 8), C8(0))
                return by(HK + [C8(0)] * (self.B - self.L)).at(s_, j)
            pads[nm] = kb
        long = t.ult(C64(self.B), kn)

        def K0(pad):
            def f(s_, j):
                d = s_.decide(long)
                k = pads["long"](s_, j) if d is True else pads["short"](s_, j) if d is False else t.ite(long, pads["long"](s_, j), pads["short"](s_, j))
                return t.bxor(k, C8(pad))
            return Seq([(C64(self.B), f)])
        IN = [t.var("in%d" % i, 8) for i in range(self.L)]
        OUT = [t.var("mac%d" % i, 8) for i in range(self.L)]
        self.expect = [(K0(0x36) + text, IN), (K0(0x5c) + by(IN), OUT), (ufseq("KEY", kn), HK)]
        n = 0
        a = [t.ptr(to.id, C64(0)), tn, t.ptr(ko.id, C64(0)), kn]
        if name == "extract":
            a = a[2:] + a[:2]
        for oc in ex.start(st, self.fn(name), a + [t.ptr(out.id, C64(0))]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", name)
                continue
            n += 1
            for i in range(self.L):
                if not ex.prove(oc.st, t.eq(oc.st.mem[out.id].rd(oc.st, C64(i)), OUT[i]), "mac-value", "%s<%s>" % (name, self.alg)):
                    break
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    # -- callee contracts by expected arguments
    def calls(self, ex, rx, handler):
        r = re.compile(rx)
        ex.contracts.insert(0, ((lambda n, d: bool(r.search(d))), handler))

    def hmac_contract(self, ex, exp):
        """exp: [(text Seq, key Seq, result bytes)] or callable(st) -> such a list"""
        def h(ex, st, name, args, where):
            a = args[-4:]
            text, key = mem(ex, st, a[0], a[1], where), mem(ex, st, a[2], a[3], where)
            res = None
            for tx, k, r in (exp(st) if callable(exp) else exp):
                if text.same(ex, st, tx) and key.same(ex, st, k):
                    res = r
                    break
            res = res or self.fresh(self.L)
            return ret_bytes(ex, st, None, [args[0], None] if len(args) == 5 else [None], res, where)
        self.calls(ex, r"Caligo::HMAC<Caligo::%s ?>\(std::span" % re.escape(self.alg), h)

    # -- HKDF-Expand
    def expand(self):
        ex = self.mk()
        st = State(ex)
        L = self.L
        kn, inn, ln = (t.zext(t.var(x, 58), 64) for x in ("klen", "ilen", "len"))
        ko = ex.new_obj(st, kn, "prk", base=lambda s_, j: t.uf("PRK", [j], 8))
        io = ex.new_obj(st, inn, "info", base=lambda s_, j: t.uf("INFO", [j], 8))
        ko.ro = io.ro = True
        v = ex.new_obj(st, 24, "result")
        OKM = lambda j: t.uf("OKM", [j], 8)
        cur = {"i": None}
        P = self

        def exp(st):
            i = cur["i"]
            if i is None:
                return []
            prev = Seq() if isc(i) and cv(i) == 0 else by([OKM(t.add(t.mul(t.sub(i, C64(1)), C64(L)), C64(b))) for b in range(L)])
            return [(prev + ufseq("INFO", inn) + by([t.extract(t.add(i, C64(1)), 7, 0)]), ufseq("PRK", kn),
                     [OKM(t.add(t.mul(i, C64(L)), C64(b))) for b in range(L)])]
        self.hmac_contract(ex, exp)

        class Tm(Template):
            name = "expand"

            def __init__(s, ex, st, f, H, lp, env):
                def empty(i):
                    ws = stdmodel.vec(ex, st, t.ptr(i, C64(0)))
                    return all((isc(x) and cv(x) == 0) or (x.op == "ptr" and x.a[0] == 0) for x in ws)
                s.vecs = [i for i, o in st.mem.items() if o.alive and isc(o.size) and cv(o.size) == 24 and empty(i)]

            def modes(s):
                return [(a, b) for a in s.vecs for b in s.vecs if a != b]

            def ghosts(s, ex, st, mode):
                i = t.zext(t.fresh("i", 55), 64)
                pre = [t.ule(i, C64(1 << 54)), t.ult(t.mul(t.sub(i, C64(1)), C64(L)), ln)]
                return [({"i": C64(0)}, []), ({"i": i}, [t.ult(C64(0), i)] + pre)]

            def enter(s, g):
                cur["i"] = g["i"]

            def drivers(s, ex, st, val, mode):
                if val.op == "ptr":
                    return []
                z = lambda x: t.zext(x, 64) if x.w < 64 else x
                return [("n", lambda x: {"i": t.sub(z(x), C64(1))}), ("n0", lambda x: {"i": z(x)})]

            def invert(s, g, b):
                lab = b["desc"].split("~")[1].split("/")[0]
                w = s.w(b)
                x = t.add(g["i"], C64(1)) if lab == "n" else g["i"]
                return x if w == 64 else t.extract(x, w - 1, 0)

            def w(s, b):
                return 64

            def gconds(s, ex, st, g, mode):
                i = g["i"]
                if isc(i) and cv(i) == 0:
                    return []
                return [("positive", t.band(t.ult(C64(0), i), t.ule(i, C64(1 << 54)))), ("needed", t.ult(t.mul(t.sub(i, C64(1)), C64(L)), ln))]

            def phi_cands(s, ex, st, mode):
                return [("i", lambda g: g["i"]), ("i+1", lambda g: t.add(g["i"], C64(1))), ("n8", lambda g: t.extract(t.add(g["i"], C64(1)), 7, 0)),
                        ("n32", lambda g: t.extract(t.add(g["i"], C64(1)), 31, 0))]

            def apply(s, ex, st, g, mode):
                i = g["i"]
                s.bufs = set()
                for vo in mode:
                    if isc(i):
                        for k in range(3):
                            ex.store(st, t.ptr(vo, C64(8 * k)), C64(0), 8, "expand")
                        continue
                    first = vo == mode[0]
                    n = t.mul(i, C64(L)) if first else C64(L)
                    o = ex.new_obj(st, n, "vector-buffer", "heap")
                    o.meta = "vecbuf"
                    if first:
                        o.w_range(C64(0), n, lambda s_, j: OKM(j))
                    else:
                        o.w_conc(0, [OKM(t.add(t.mul(t.sub(i, C64(1)), C64(L)), C64(b))) for b in range(L)])
                    stdmodel.vec_set(ex, st, t.ptr(vo, C64(0)), o.id, n)
                    s.bufs.add(o.id)

            def conds(s, ex, st, g, mode):
                i = g["i"]

                def chk(st):
                    a, b = vecseq(ex, st, t.ptr(mode[0], C64(0))), vecseq(ex, st, t.ptr(mode[1], C64(0)))
                    if isc(i) and cv(i) == 0:
                        return ex.prove(st, t.band(t.eq(a.len(), C64(0)), t.eq(b.len(), C64(0))), "loop-invariant", "expand start")
                    ok = ex.prove(st, t.band(t.eq(a.len(), t.mul(i, C64(L))), t.eq(b.len(), C64(L))), "loop-invariant", "output and block lengths")
                    if not ok:
                        return False
                    last = t.mul(t.sub(i, C64(1)), C64(L))
                    j = t.fresh("j", 64)
                    s2 = st.fork()
                    s2.assume(t.ult(j, last))
                    if s2.feasible():
                        ok = ex.prove(s2, t.eq(a.at(s2, j), OKM(j)), "loop-invariant", "output bytes")
                    for x in range(L):
                        w = OKM(t.add(last, C64(x)))
                        ok = ok and ex.prove(st, t.eq(a.at(st, t.add(last, C64(x))), w), "loop-invariant", "new output bytes")
                        ok = ok and ex.prove(st, t.eq(b.at(st, C64(x)), w), "loop-invariant", "last block bytes")
                    return ok
                return [("vectors", chk)]

            def measure(s, g):
                return g["i"]

            def managed(s, st):
                return set(s.vecs) | s.bufs
        ex.loop_hook = LoopEngine([Tm])
        n = 0
        for oc in ex.start(st, self.fn("expand"), [t.ptr(ko.id, C64(0)), kn, t.ptr(io.id, C64(0)), inn, ln, t.ptr(v.id, C64(0))]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", "expand")
                continue
            n += 1
            self.vec_is(ex, oc.st, t.ptr(v.id, C64(0)), Seq([(ln, lambda s_, j: OKM(j))]), "HKDF_Expand<%s>" % self.alg)
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    def vec_is(self, ex, st, p, want, where):
        oid, n = stdmodel.vec_parts(ex, st, p)
        if not ex.prove(st, t.eq(n, want.len()), "output-length", where):
            return False
        j = t.fresh("j", 64)
        s2 = st.fork()
        s2.assume(t.ult(j, want.len()))
        if not s2.feasible():
            return ex.prove(s2, TRUE, "output-bytes", where)
        return ex.prove(s2, t.eq(s2.mem[oid].rd(s2, j), want.at(s2, j)), "output-bytes", where)

    def ret_vec(self, ex, st, p, n, fn, where):
        for k in range(3):
            ex.store(st, t.add(p, C64(8 * k)), C64(0), 8, where)
        if isc(n) and cv(n) == 0:
            return
        o = ex.new_obj(st, n, "vector-buffer", "heap")
        o.meta = "vecbuf"
        if isc(n):
            o.w_conc(0, [fn(st, C64(i)) for i in range(cv(n))])
        else:
            o.w_range(C64(0), n, fn)
        stdmodel.vec_set(ex, st, p, o.id, n)

    # -- HKDF-Expand-Label
    def label(self):
        ex = self.mk()
        st = State(ex)
        kn, ln = t.zext(t.var("klen", 58), 64), t.zext(t.var("len", 16), 64)
        lab, cn = t.zext(t.var("lablen", 8), 64), t.zext(t.var("clen", 8), 64)
        st.assume(t.ule(lab, C64(249)))
        ko = ex.new_obj(st, kn, "prk", base=lambda s_, j: t.uf("PRK", [j], 8))
        co = ex.new_obj(st, cn, "context", base=lambda s_, j: t.uf("CTX", [j], 8))
        so = ex.new_obj(st, 32, "label")
        stdmodel.str_make(ex, st, t.ptr(so.id, C64(0)), [(lab, lambda s_, j: t.uf("LAB", [j], 8))], "label")
        v = ex.new_obj(st, 24, "result")
        ll = t.add(lab, C64(6))
        info = by([t.extract(ln, 15, 8), t.extract(ln, 7, 0), t.extract(ll, 7, 0)]) + txt(b"tls13 ") + ufseq("LAB", lab) + by([t.extract(cn, 7, 0)]) + ufseq("CTX", cn)

        def h(ex, st, name, args, where):
            r, kp, k, ip, i, n = args
            ok = mem(ex, st, kp, k, where).same(ex, st, ufseq("PRK", kn)) and mem(ex, st, ip, i, where).same(ex, st, info)
            ex.prove(st, t.eq(n, ln), "expand-length", where)
            nm = "OKM" if ok else "OTHERV"
            self.ret_vec(ex, st, r, n, lambda s_, j: t.uf(nm, [j], 8), where)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"Caligo::HKDF_Expand<Caligo::%s ?>\(std::span" % re.escape(self.alg), h)
        n = 0
        for oc in ex.start(st, self.fn("label"), [t.ptr(ko.id, C64(0)), kn, t.ptr(so.id, C64(0)), t.ptr(co.id, C64(0)), cn, ln, t.ptr(v.id, C64(0))]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", "label")
                continue
            n += 1
            self.vec_is(ex, oc.st, t.ptr(v.id, C64(0)), ufseq("OKM", ln), "HKDF_Expand_Label<%s>" % self.alg)
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    # -- TLS 1.3 key schedule
    def tls(self, what):
        """every derived secret as the RFC's expression over Extract and Expand-Label"""
        ex = self.mk()
        st = State(ex)
        L = self.L
        env = {}

        def name(bs):
            return bs
        exps = []     # labels: (secret, label, ctx, n) -> bytes ; extracts: (salt, ikm) -> bytes
        cnt = [0]

        def res(n, tag):
            cnt[0] += 1
            return [t.var("%s_%d_%d" % (tag, cnt[0], i), 8) for i in range(n)]

        def EL(sec, lab, ctx, n):
            r = res(n, "el")
            exps.append(("L", sec, lab, ctx, n, r))
            return by(r)

        def EX(salt, ikm):
            r = res(L, "ex")
            exps.append(("X", ikm, salt, r))
            return by(r)
        hn, sn = t.zext(t.var("hlen", 8), 64), t.zext(t.var("slen", 58), 64)
        ho = ex.new_obj(st, hn, "transcript", base=lambda s_, j: t.uf("TH", [j], 8))
        sh = ex.new_obj(st, sn, "shared", base=lambda s_, j: t.uf("DHE", [j], 8))
        sec = [t.var("sec%d" % i, 8) for i in range(L)]
        so = ex.new_obj(st, L, "secret")
        so.w_conc(0, sec)
        so.ro = True
        SEC, TH = by(sec), ufseq("TH", hn)
        EH = [t.var("eh%d" % i, 8) for i in range(L)]
        self.expect = [(Seq(), EH)]
        EMPTY = by(EH)
        zero = by([C8(0)] * L)
        args = what.split(":")
        out = ex.new_obj(st, L, "out")
        v1, v2 = ex.new_obj(st, 24, "v1"), ex.new_obj(st, 24, "v2")
        op, p1, p2, sp, hp = (t.ptr(x.id, C64(0)) for x in (out, v1, v2, so, ho))
        fn = args[0]
        cl, hs = "c" in args[1:], "hs" in args[1:]
        B1 = lambda b: const(1 if b else 0, 1)
        tl = ("c" if cl else "s") + (" hs" if hs else " ap") + " traffic"
        if fn == "traffic":
            want, call, fnn = [(p1, EL(SEC, tl, TH, L))], [sp, hp, hn, B1(cl), B1(hs), p1], "traffic"
        elif fn == "finished":
            ts = EL(SEC, ("c" if cl else "s") + " hs traffic", TH, L)
            want, call, fnn = [(p1, EL(ts, "finished", Seq(), L))], [sp, hp, hn, B1(cl), p1], "finished"
        elif fn.startswith("keyiv"):
            kb = int(fn[5:]) // 8
            ts = EL(SEC, tl, TH, L)
            want, call, fnn = [(p1, EL(ts, "key", Seq(), kb)), (p2, EL(ts, "iv", Seq(), 12))], [sp, hp, hn, B1(cl), B1(hs), p1, p2], "keyiv<%dul>" % (kb * 8)
        elif fn == "handshake":
            want, call, fnn = [(op, EX(EL(EX(zero, zero), "derived", EMPTY, L), ufseq("DHE", sn)))], [t.ptr(sh.id, C64(0)), sn, op], fn
        elif fn == "master":
            want, call, fnn = [(op, EX(EL(SEC, "derived", EMPTY, L), zero))], [sp, op], fn
        elif fn == "update":
            want, call, fnn = [(op, EL(SEC, "traffic upd", Seq(), L))], [sp, op], fn
        elif fn == "exporter":
            want, call, fnn = [(p1, EL(SEC, "exp master", TH, L))], [sp, hp, hn, p1], fn
        elif fn == "resumption":
            want, call, fnn = [(p1, EL(SEC, "res master", TH, L))], [sp, hp, hn, p1], fn

        def lab(ex, st, name, args, where):
            r, kp, k, lp, cp, c, n = args
            if not isc(n):
                raise Unsupported("length of a derived secret")
            sq, cq = mem(ex, st, kp, k, where), mem(ex, st, cp, c, where)
            ln, rd = stdmodel.str_piece(ex, st, lp, where)
            lq = Seq([(ln, rd if callable(rd) else (lambda s_, j: C8(0)))]) if not (isc(ln) and cv(ln) == 0) else Seq()
            for e in exps:
                if e[0] == "L" and e[4] == cv(n) and lq.same(ex, st, txt(e[2].encode())) and sq.same(ex, st, e[1]) and cq.same(ex, st, e[3]):
                    rs = e[5]
                    break
            else:
                rs = self.fresh(cv(n))
            self.ret_vec(ex, st, r, n, lambda s_, j: rs[cv(j)], where)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"Caligo::HKDF_Expand_Label<Caligo::%s ?>\(std::span" % re.escape(self.alg), lab)
        self.hmac_contract(ex, lambda st: [(e[1], e[2], e[3]) for e in exps if e[0] == "X"])
        n = 0
        for oc in ex.start(st, self.fn(fnn), call):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", what)
                continue
            n += 1
            for p, w in want:
                if p is op:
                    for i in range(L):
                        if not ex.prove(oc.st, t.eq(oc.st.mem[out.id].rd(oc.st, C64(i)), w.at(oc.st, C64(i))), "derived-secret", what):
                            break
                else:
                    self.vec_is(ex, oc.st, p, w, what)
        if not n:
            raise Unsupported("no returning path")
        return [ex]


TLS = ["traffic:" + x for x in ("c:hs", "c:ap", "s:hs", "s:ap")] + ["finished:c", "finished:s"] + \
      ["keyiv%d:%s" % (b, x) for b in (128, 256) for x in ("c:hs", "c:ap", "s:hs", "s:ap")] + ["handshake", "master", "update", "exporter", "resumption"]
