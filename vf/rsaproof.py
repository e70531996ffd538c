"""RSA signature schemes of RFC 8017: MGF1, EMSA-PSS, EMSA-PKCS1-v1_5, the key operations and the scheme dispatch.

Callees enter by contract, as in hkdfproof.py: hashes as functions of the byte sequence, MGF, the encodings and the RSA primitives by the
arguments the specification uses.  bignum and Montgomery operations enter through what C15 and C16 prove."""
import re
from . import terms as t, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported
from .loops import LoopEngine, Template
from .hkdfproof import Proof, Seq, by, txt, ufseq, mem, vecseq, C64, C8
from .facade import ALGS

UF = lambda nm: (lambda j: t.uf(nm, [j], 8))


def vecs(ex, st):
    """vector objects: [(id, buffer id or 0, size)]"""
    out = []
    for i, o in st.mem.items():
        if o.alive and isc(o.size) and cv(o.size) == 24:
            try:
                b, n = stdmodel.vec_parts(ex, st, t.ptr(i, C64(0)))
                w = stdmodel.vec(ex, st, t.ptr(i, C64(0)))
            except Exception:
                continue
            if b and st.mem[b].meta != "vecbuf":
                continue
            if not b and not all((isc(x) and cv(x) == 0) or (x.op == "ptr" and x.a[0] == 0) for x in w):
                continue
            out.append((i, b, n))
    return out


class Counting(Template):
    """one more iteration is one more unit of the ghost number; the state of memory is a function of that number"""

    def modes(s):
        return [None]

    def drivers(s, ex, st, val, mode):
        return []

    def memdrivers(s, ex, st, mode):
        return [("count", {"i": C64(s.first)}, lambda st: {"i": t.add(s.cur, C64(1))})]

    first = 0

    def invert(s, g, b):
        return None

    def enter(s, g):
        s.cur = g["i"]

    def phi_cands(s, ex, st, mode):
        return [("i", lambda g: g["i"]), ("i+1", lambda g: t.add(g["i"], C64(1))), ("i32", lambda g: t.extract(g["i"], 31, 0))]

    def measure(s, g):
        return g["i"]

    def gconds(s, ex, st, g, mode):
        return []


class Rsa(Proof):
    def begin(self):
        ex = self.mk()
        return ex, State(ex)

    def entry(self, cls, name):
        for n, d in self.dem.items():
            if re.search(r"(^|\s)%s::%s\(" % (re.escape(cls), re.escape(name)), d.replace("> >", ">>")):
                return n
        raise Unsupported("no entry point %s::%s" % (cls, name))

    def run(self, ex, st, f, args, where):
        n = 0
        for oc in ex.start(st, f, args):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", where)
                continue
            n += 1
            yield oc
        if not n:
            raise Unsupported("no returning path")

    def src(self, ex, st, nm, n):
        o = ex.new_obj(st, n, nm, base=lambda s_, j: t.uf(nm, [j], 8))
        o.ro = True
        return t.ptr(o.id, C64(0))

    def vec_is(self, ex, st, p, want, where):
        """piece by piece"""
        oid, n = stdmodel.vec_parts(ex, st, p)
        if not ex.prove(st, t.eq(n, want.len()), "output-length", where):
            return False
        at = C64(0)
        for ln, f in want.p:
            if isc(ln):
                for k in range(cv(ln)):
                    if not ex.prove(st, t.eq(st.mem[oid].rd(st, t.add(at, C64(k))), f(st, C64(k))), "output-bytes", where):
                        return False
            else:
                j = t.fresh("j", 64)
                s2 = st.fork()
                s2.assume(t.ult(j, ln))
                if s2.feasible() and not ex.prove(s2, t.eq(s2.mem[oid].rd(s2, t.add(at, j)), f(s2, j)), "output-bytes", where):
                    return False
            at = t.add(at, ln)
        return True

    # -- MGF1
    def mgf(self):
        ex, st = self.begin()
        L = self.L
        sn, ln = t.zext(t.var("seedlen", 58), 64), t.var("len", 64)
        st.assume(t.ule(ln, C64(1 << 32)))
        sp = self.src(ex, st, "SEED", sn)
        v = ex.new_obj(st, 24, "result")
        MASK = UF("MASK")
        P = self
        be = lambda i: [t.extract(i, 8 * k + 7, 8 * k) for k in (3, 2, 1, 0)]

        class Tm(Counting):
            name = "mgf"

            def __init__(s, ex, st, f, H, lp, env):
                vs = vecs(ex, st)
                s.e = [a for a, b, n in vs if not b]
                s.c = [a for a, b, n in vs if b]

            def modes(s):
                return [(a, b) for a in s.e for b in s.c]

            def ghosts(s, ex, st, mode):
                i = t.zext(t.fresh("i", 33), 64)
                return [({"i": C64(0)}, []), ({"i": i}, [t.ult(C64(0), i), t.ult(t.mul(t.sub(i, C64(1)), C64(L)), ln)])]

            def enter(s, g):
                s.cur = i = g["i"]
                P.expect = [(ufseq("SEED", sn) + by(be(i)), [MASK(t.add(t.mul(i, C64(L)), C64(b))) for b in range(L)])]

            def gconds(s, ex, st, g, mode):
                i = g["i"]
                return [] if isc(i) and cv(i) == 0 else [("needed", t.band(t.ult(C64(0), i), t.band(t.ule(i, C64(1 << 32)), t.ult(t.mul(t.sub(i, C64(1)), C64(L)), ln))))]

            def apply(s, ex, st, g, mode):
                i = g["i"]
                s.bufs = set()
                tp = t.ptr(mode[0], C64(0))
                if isc(i):
                    for k in range(3):
                        ex.store(st, t.add(tp, C64(8 * k)), C64(0), 8, "mgf")
                else:
                    n = t.mul(i, C64(L))
                    o = ex.new_obj(st, n, "vector-buffer", "heap")
                    o.meta = "vecbuf"
                    o.w_range(C64(0), n, lambda s_, j: MASK(j))
                    stdmodel.vec_set(ex, st, tp, o.id, n)
                    s.bufs.add(o.id)
                b, n = stdmodel.vec_parts(ex, st, t.ptr(mode[1], C64(0)))
                o = st.wobj(b)
                o.w_range(C64(0), sn, lambda s_, j: t.uf("SEED", [j], 8))
                o.w_sym(sn, be(i))
                s.bufs.add(b)

            def conds(s, ex, st, g, mode):
                i = g["i"]

                def chk(st):
                    a, c = vecseq(ex, st, t.ptr(mode[0], C64(0))), vecseq(ex, st, t.ptr(mode[1], C64(0)))
                    ok = ex.prove(st, t.eq(c.len(), t.add(sn, C64(4))), "loop-invariant", "counter string length")
                    ok = ok and ex.prove(st, t.eq(t.concat([c.at(st, t.add(sn, C64(k))) for k in range(4)]), t.concat(be(i))), "loop-invariant", "counter value")
                    j = t.fresh("j", 64)
                    s2 = st.fork()
                    s2.assume(t.ult(j, sn))
                    if ok and s2.feasible():
                        ok = ex.prove(s2, t.eq(c.at(s2, j), t.uf("SEED", [j], 8)), "loop-invariant", "seed bytes")
                    ok = ok and ex.prove(st, t.eq(a.len(), t.mul(i, C64(L))), "loop-invariant", "mask length")
                    if not ok or isc(i) and cv(i) == 0:
                        return ok
                    last = t.mul(t.sub(i, C64(1)), C64(L))
                    s2 = st.fork()
                    s2.assume(t.ult(j, last))
                    if s2.feasible():
                        ok = ex.prove(s2, t.eq(a.at(s2, j), MASK(j)), "loop-invariant", "mask bytes")
                    for x in range(L):
                        ok = ok and ex.prove(st, t.eq(a.at(st, t.add(last, C64(x))), MASK(t.add(last, C64(x)))), "loop-invariant", "new mask bytes")
                    return ok
                return [("vectors", chk)]

            def managed(s, st):
                return set(s.e) | set(s.c) | s.bufs
        ex.loop_hook = LoopEngine([Tm])
        out = t.ptr(v.id, C64(0))
        for oc in self.run(ex, st, self.fn("mgf"), [sp, sn, ln, out], "MGF1"):
            self.vec_is(ex, oc.st, out, Seq([(ln, lambda s_, j: MASK(j))]), "MGF1<%s>" % self.alg)
        return [ex]

    def mgf_contract(self, ex, exp):
        """exp: [(seed Seq, length, reader)]"""
        def h(ex, st, name, args, where):
            r, sp, sn, n = args
            s = mem(ex, st, sp, sn, where)
            rd = None
            for q, m, f in exp:
                e = t.eq(n, m)
                if (e is TRUE or e is not FALSE and st.decide(e) is True) and s.same(ex, st, q):
                    rd = f
                    break
            if rd is None:
                self.nres += 1
                nm = "OTHERM%d" % self.nres
                rd = lambda j: t.uf(nm, [j], 8)
            self.ret_vec(ex, st, r, n, lambda s_, j: rd(j), where)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"Caligo::MGF1<Caligo::%s ?>::MGF\(" % re.escape(self.alg), h)

    # -- EMSA-PSS encoding
    def pssenc(self):
        ex, st = self.begin()
        L = self.L
        dn, sn, ln = t.zext(t.var("dlen", 58), 64), t.zext(t.var("saltlen", 32), 64), t.zext(t.var("len", 32), 64)
        dp, sp = self.src(ex, st, "DATA", dn), self.src(ex, st, "SALT", sn)
        v = ex.new_obj(st, 24, "result")
        out = t.ptr(v.id, C64(0))
        HH = [t.var("h%d" % i, 8) for i in range(L)]
        self.expect = [(by([C8(0)] * 8) + ufseq("DATA", dn) + ufseq("SALT", sn), HH)]
        MASK = UF("MASK")
        db = t.sub(ln, C64(L + 1))
        self.mgf_contract(ex, [(by(HH), db, MASK)])
        base = t.sub(db, sn)

        def ite(s_, c, x, y):
            d = TRUE if c is TRUE else FALSE if c is FALSE else s_.decide(c)
            return x() if d is TRUE or d is True else y() if d is FALSE or d is False else t.ite(c, x(), y())

        def EM(s_, j, upto=None):
            upto = sn if upto is None else upto
            m = MASK(j)
            return ite(s_, t.ult(j, base),
                       lambda: ite(s_, t.eq(t.add(j, C64(1)), base), lambda: t.bxor(m, C8(1)), lambda: m),
                       lambda: ite(s_, t.ult(t.sub(j, base), upto), lambda: t.bxor(m, t.uf("SALT", [t.sub(j, base)], 8)), lambda: m))

        def cases(st, i):
            """positions of the data block by what they hold when i bytes of salt are done"""
            k = t.fresh("k", 64)
            for j, asm in ((k, [t.ult(t.add(k, C64(1)), base), t.ult(k, base)]), (t.sub(base, C64(1)), []), (t.add(base, k), [t.ult(k, i)]), (t.add(base, k), [t.ule(i, k), t.ult(k, sn)])):
                s2 = st.fork()
                for x in asm:
                    s2.assume(x)
                if s2.feasible():
                    yield s2, j

        class Tm(Counting):
            name = "salt"

            def __init__(s, ex, st, f, H, lp, env):
                s.v = [(a, b) for a, b, n in vecs(ex, st) if b and st.decide(t.eq(n, db)) is True]

            def modes(s):
                return list(s.v)

            def ghosts(s, ex, st, mode):
                i = t.zext(t.fresh("i", 33), 64)
                return [({"i": i}, [t.ule(i, sn)])]

            def gconds(s, ex, st, g, mode):
                return [("range", t.ule(g["i"], sn))]

            def phi_cands(s, ex, st, mode):
                bp, so = t.ptr(mode[1], base), sp
                return Counting.phi_cands(s, ex, st, mode) + [("left", lambda g: t.sub(sn, g["i"])), ("at", lambda g: t.add(base, g["i"])), ("dst", lambda g: t.add(bp, g["i"])), ("src", lambda g: t.add(so, g["i"]))]

            def apply(s, ex, st, g, mode):
                st.wobj(mode[1]).w_range(C64(0), db, lambda s_, j, i=g["i"]: EM(s_, j, i))

            def conds(s, ex, st, g, mode):
                def chk(st):
                    a = vecseq(ex, st, t.ptr(mode[0], C64(0)))
                    ok = ex.prove(st, t.eq(a.len(), db), "loop-invariant", "data block length")
                    i = g["i"]
                    for s2, j in cases(st, i) if ok else ():
                        # the byte written last on its own
                        for lst in (True, False) if i.op != "const" else (False,):
                            s3 = s2.fork()
                            e = t.eq(j, t.sub(t.add(base, i), C64(1)))
                            if lst:
                                s3.assume(e)
                                if not s3.feasible():
                                    continue
                                q = t.sub(t.add(base, i), C64(1))
                            else:
                                s3.assume(t.bnot(e))
                                q = j
                            if s3.feasible():
                                ok = ok and ex.prove(s3, t.eq(a.at(s3, q), EM(s3, q, i)), "loop-invariant", "data block bytes")
                    return ok
                return [("block", chk)]

            def managed(s, st):
                return {b for a, b in s.v}
        ex.loop_hook = LoopEngine([Tm])
        w = "generatePssData<%s>" % self.alg
        fits = t.ule(t.add(sn, C64(L + 2)), ln)
        for oc in self.run(ex, st, self.fn("pssenc"), [dp, dn, sp, sn, ln, out], w):
            d = oc.st.decide(fits)
            if d is None:
                ex.prove(oc.st, FALSE, "length-check", w)
            elif d:
                oid, m = stdmodel.vec_parts(ex, oc.st, out)
                ok = ex.prove(oc.st, t.eq(m, ln), "output-length", w)
                for s2, j in cases(oc.st, sn) if ok else ():
                    ok = ok and ex.prove(s2, t.eq(s2.mem[oid].rd(s2, j), EM(s2, j)), "output-bytes", w)
                for k, x in enumerate(HH + [C8(0xbc)]):
                    ok = ok and ex.prove(oc.st, t.eq(oc.st.mem[oid].rd(oc.st, t.add(db, C64(k))), x), "output-bytes", w)
            else:
                ex.prove(oc.st, t.eq(stdmodel.vec_parts(ex, oc.st, out)[1], C64(0)), "too-short-is-empty", w)
        return [ex]

    # -- salt recovery
    def salt(self, sl):
        ex, st = self.begin()
        L = self.L
        n = t.zext(t.var("siglen", 32), 64)
        S = L if sl == "H" else sl
        st.assume(t.ule(C64(L + S + 1), n))
        sp = self.src(ex, st, "SIG", n)
        v = ex.new_obj(st, 24, "result")
        out = t.ptr(v.id, C64(0))
        db = t.sub(n, C64(L + 1))
        MASK = UF("MASK")
        self.mgf_contract(ex, [(Seq([(C64(L), lambda s_, j: t.uf("SIG", [t.add(db, j)], 8))]), db, MASK)])
        w = "getSalt<%s,%d>" % (self.alg, S)
        at = lambda j: t.add(t.sub(db, C64(S)), j)
        for oc in self.run(ex, st, self.fn("salt%s" % sl), [sp, n, out], w):
            oid, m = stdmodel.vec_parts(ex, oc.st, out)
            if ex.prove(oc.st, t.eq(m, C64(S)), "salt-length", w):
                for k in range(S):
                    a = at(C64(k))
                    if not ex.prove(oc.st, t.eq(oc.st.mem[oid].rd(oc.st, C64(k)), t.bxor(t.uf("SIG", [a], 8), MASK(a))), "salt-bytes", w):
                        break
        return [ex]

    # -- EMSA-PKCS1-v1_5
    def pkcs1(self):
        ex, st = self.begin()
        L = self.L
        ID = bytes.fromhex(ALGS[self.alg][1])
        dn, ln = t.zext(t.var("dlen", 24), 64), t.zext(t.var("len", 32), 64)
        dp = self.src(ex, st, "DATA", dn)
        v = ex.new_obj(st, 24, "result")
        out = t.ptr(v.id, C64(0))
        HH = [t.var("h%d" % i, 8) for i in range(L)]
        b = lambda k: t.extract(dn, 8 * k + 7, 8 * k)
        heads = [(0, [C8(0x30), b(0)]), (1 << 7, [C8(0x30), C8(0x81), b(0)]), (1 << 8, [C8(0x30), C8(0x82), b(1), b(0)]), (1 << 16, [C8(0x30), C8(0x83), b(2), b(1), b(0)])]
        # one entry per size class; an entry only matches on paths where its class is implied
        self.digest_of = None
        tl = len(ID) + L
        P = self

        def digest(ex, st, a0, a, s, n):
            if a0 == P.alg and a == P.alg:
                for k, (lo, hd) in enumerate(heads):
                    hi = heads[k + 1][0] if k + 1 < len(heads) else 1 << 24
                    if st.decide(t.band(t.ule(C64(lo), dn), t.ult(dn, C64(hi)))) is True and s.same(ex, st, by(hd) + ufseq("DATA", dn)):
                        return HH
            return P.fresh(n)
        self.digest = digest

        class Tm(Counting):
            name = "pad"
            first = 2

            def __init__(s, ex, st, f, H, lp, env):
                s.v = [(a, b) for a, b, n in vecs(ex, st) if b and isc(n) and cv(n) == 2]

            def modes(s):
                return list(s.v)

            def ghosts(s, ex, st, mode):
                i = t.zext(t.fresh("i", 33), 64)
                return [({"i": i}, s.rng(i))]

            def rng(s, i):
                return [t.ule(C64(2), i), t.ule(t.add(i, C64(tl + 1)), ln)]

            def gconds(s, ex, st, g, mode):
                return [("range", t.band(*s.rng(g["i"])))]

            def byte(s, j):
                return t.ite(t.eq(j, C64(0)), C8(0), t.ite(t.eq(j, C64(1)), C8(1), C8(0xff)))

            def apply(s, ex, st, g, mode):
                o = ex.new_obj(st, g["i"], "vector-buffer", "heap")
                o.meta = "vecbuf"
                o.w_range(C64(0), g["i"], lambda s_, j: s.byte(j))
                stdmodel.vec_set(ex, st, t.ptr(mode[0], C64(0)), o.id, g["i"])
                s.buf = o.id

            def conds(s, ex, st, g, mode):
                def chk(st):
                    a = vecseq(ex, st, t.ptr(mode[0], C64(0)))
                    ok = ex.prove(st, t.eq(a.len(), g["i"]), "loop-invariant", "padded length")
                    j = t.fresh("j", 64)
                    s2 = st.fork()
                    s2.assume(t.ult(j, g["i"]))
                    return ok and (not s2.feasible() or ex.prove(s2, t.eq(a.at(s2, j), s.byte(j)), "loop-invariant", "padding bytes"))
                return [("padding", chk)]

            def managed(s, st):
                return {a for a, b in s.v} | {getattr(s, "buf", 0)}
        ex.loop_hook = LoopEngine([Tm])
        w = "PKCS1<%s>" % self.alg
        fits = t.ule(C64(tl + 11), ln)
        pad = t.sub(ln, C64(tl + 3))
        want = txt(b"\0\1") + Seq([(pad, lambda s_, j: C8(0xff))]) + txt(b"\0" + ID) + by(HH)
        for oc in self.run(ex, st, self.fn("pkcs1"), [dp, dn, ln, out], w):
            d = oc.st.decide(fits)
            if d is None:
                ex.prove(oc.st, FALSE, "length-check", w)
            elif d:
                self.vec_is(ex, oc.st, out, want, w)
            else:
                ex.prove(oc.st, t.eq(stdmodel.vec_parts(ex, oc.st, out)[1], C64(0)), "too-short-is-empty", w)
        return [ex]

    # -- keys
    def bn_contracts(self, ex, W):
        B = W // 8
        P = self

        def eqh(ex, st, name, args, where):
            a, b = P.wide(ex, st, args[0], B, where), P.wide(ex, st, args[1], B, where)
            return [Outcome("ret", st, P.b1(t.eq(a, b)))]

        def lth(ex, st, name, args, where):
            a, b = P.wide(ex, st, args[0], B, where), P.wide(ex, st, args[1], B, where)
            if getattr(P, "lt", None) and a is P.lt[0] and b is P.lt[1]:
                return [Outcome("ret", st, P.lt[2])]
            return [Outcome("ret", st, P.b1(t.ult(a, b)))]

        def outh(ex, st, name, args, where):
            a = P.bytes(ex, st, args[1], B, where)
            P.ret_vec(ex, st, args[0], C64(B), lambda s_, j: a[cv(j)], where)
            return [Outcome("ret", st, None)]
        c = r"^Caligo::bignum<%dul>::" % W
        self.calls(ex, c + r"operator==\(Caligo::bignum<%dul> const&\) const" % W, eqh)
        self.calls(ex, c + r"operator<\(Caligo::bignum<%dul> const&\) const" % W, lth)
        self.calls(ex, c + r"as_bytes\(\) const", outh)

    def b1(self, c):
        return c

    def bytes(self, ex, st, p, n, where):
        ps = ex.split(st, p, where)
        if len(ps) != 1 or not isc(ps[0][2]) or not ps[0][1]:
            raise Unsupported("pointer")
        o, off = st.mem[ps[0][1]], ps[0][2]
        ex.access(st, o, off, C64(n), where)
        return [o.rd(st, t.add(off, C64(i))) for i in range(n)]

    def wide(self, ex, st, p, n, where):
        return t.concat(self.bytes(ex, st, p, n, where)[::-1])

    def fieldoff(self, lay, cls, name):
        size, rows = lay[cls]
        top = min(ind for _, ind, _ in rows)
        for off, ind, txt_ in rows:
            if ind == top and re.search(r"\b%s$" % name, txt_.strip()):
                return off
        raise Unsupported("no member " + name)

    def cls(self, lay, kind, W):
        c = "Caligo::rsa_%s_key<%d>" % (kind, W)
        return c if c in lay else "Caligo::rsa_%s_key<>" % kind      # clang leaves out the default argument

    def keyobj(self, ex, st, lay, W, B, kind):
        """a key whose modulus has exactly B bits; -> (pointer, modulus bytes, other number's bytes)"""
        cls = self.cls(lay, kind, W)
        size = lay[cls][0]
        o = ex.new_obj(st, size, kind + " key")
        for i in range(size):
            o.w_conc(i, [t.var("key%d" % i, 8)])
        k = (B + 7) // 8
        n = [t.var("n%d" % i, 8) for i in range(k - 1)]
        r = (B - 1) % 8
        top = [const(1, 1)] + ([t.var("ntop", r)] if r else [])
        if r < 7:
            top = [const(0, 7 - r)] + top
        n.append(t.concat(top) if len(top) > 1 else top[0])
        n += [C8(0)] * (W // 8 - k)
        e = [t.var("e%d" % i, 8) for i in range(W // 8)]
        self.off = {x: self.fieldoff(lay, cls, x) for x in ("s", "n", "e" if kind == "public" else "d")}
        o.w_conc(self.off["n"], n)
        o.w_conc(self.off["e" if kind == "public" else "d"], e)
        if kind == "private":
            a = self.fieldoff(lay, cls, "actualN")
            o.w_conc(a, [C8(B >> 8 * i & 255) for i in range(8)])
        o.ro = True
        return t.ptr(o.id, C64(0)), n, e

    def prim(self, lay, W, what):
        """RSAEP / RSADP: the power of m by the key's exponent, in the key's ring"""
        ex, st = self.begin()
        self.bn_contracts(ex, W)
        kind = "public" if what == "ep" else "private"
        kp, n, e = self.keyobj(ex, st, lay, W, W, kind)
        NB = W // 8
        mo = ex.new_obj(st, NB, "m")
        m = [t.var("m%d" % i, 8) for i in range(NB)]
        mo.w_conc(0, m)
        mo.ro = True
        M, E = t.concat(m[::-1]), t.concat(e[::-1])
        RES = [t.var("res%d" % i, 8) for i in range(NB)]
        tab = {}
        P = self

        def put(ex, st, p, v, where):
            tab[len(tab) + 1] = v
            ex.store(st, p, C64(len(tab)), 8, where)
            return [Outcome("ret", st, None)]

        def get(ex, st, p, where):
            g = ex.load(st, p, 8, where)
            if not isc(g) or cv(g) not in tab:
                raise Unsupported("Montgomery value")
            return tab[cv(g)]

        def ctor(ex, st, name, args, where):
            return put(ex, st, args[0], (args[1], P.wide(ex, st, args[2], NB, where), None), where)

        def exp32(ex, st, name, args, where):
            s, b, x = get(ex, st, args[1], where)
            if x is not None:
                raise Unsupported("power of a power")
            return put(ex, st, args[0], (s, b, t.zext(args[2], W)), where)

        def expb(ex, st, name, args, where):
            s, b, x = get(ex, st, args[1], where)
            if x is not None:
                raise Unsupported("power of a power")
            return put(ex, st, args[0], (s, b, P.wide(ex, st, args[2], NB, where)), where)

        def conv(ex, st, name, args, where):
            s, b, x = get(ex, st, args[1], where)
            if x is None:
                res = P.fresh(NB)
            else:
                ok = ex.prove(st, t.eq(s, t.add(kp, C64(P.off["s"]))), "rsa-ring", where)
                ok = ok and ex.prove(st, t.eq(b, M), "rsa-base", where)
                ok = ok and ex.prove(st, t.eq(x, E), "rsa-exponent", where)
                res = RES if ok else P.fresh(NB)
            ex.access(st, st.mem[args[0].a[0]], args[0].a[1], C64(NB), where, True)
            st.wobj(args[0].a[0]).w_conc(cv(args[0].a[1]), res)
            return [Outcome("ret", st, None)]
        c = r"^Caligo::MontgomeryValue<%dul>::" % W
        self.calls(ex, c + r"MontgomeryValue\(Caligo::MontgomeryState<", ctor)
        self.calls(ex, c + r"exp\(unsigned int\) const", exp32)
        self.calls(ex, c + r"exp\(Caligo::bignum<%dul>( const&)?\) const" % W, expb)
        self.calls(ex, c + r"operator Caligo::bignum<%dul>\(\) const" % W, conv)
        out = ex.new_obj(st, NB, "out")
        w = "rsa%s<%d>" % (what, W)
        for oc in self.run(ex, st, self.entry("Prim<%dul>" % W, what), [kp, t.ptr(mo.id, C64(0)), t.ptr(out.id, C64(0))], w):
            got = t.concat([oc.st.mem[out.id].rd(oc.st, C64(i)) for i in range(NB)][::-1])
            ex.prove(oc.st, t.eq(got, t.concat(RES[::-1])), "rsa-result", w)
        return [ex]

    def ctor(self, lay, W, B, kind):
        """the constructors keep the numbers, build the ring of n, and the private one counts the bits of n"""
        ex, st = self.begin()
        cls = self.cls(lay, kind, W)
        kp, n, e = self.keyobj(ex, st, lay, W, B, kind)
        NB = W // 8
        no, eo = ex.new_obj(st, NB, "n"), ex.new_obj(st, NB, "e")
        no.w_conc(0, n)
        eo.w_conc(0, e)
        no.ro = eo.ro = True
        size = lay[cls][0]
        out = ex.new_obj(st, size, "key")
        P = self

        def state(ex, st, name, args, where):
            ex.prove(st, t.eq(args[0], t.add(t.ptr(out.id, C64(0)), C64(P.off["s"]))), "rsa-ring", where)
            ex.prove(st, t.eq(P.wide(ex, st, args[1], NB, where), t.concat(n[::-1])), "rsa-modulus", where)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"^Caligo::MontgomeryState<%dul>::MontgomeryState\(" % W, state)
        w = cls
        for oc in self.run(ex, st, self.entry("Prim<%dul>" % W, "pub" if kind == "public" else "priv"), [t.ptr(no.id, C64(0)), t.ptr(eo.id, C64(0)), t.ptr(out.id, C64(0))], w):
            rd = lambda off, k: t.concat([oc.st.mem[out.id].rd(oc.st, C64(off + i)) for i in range(k)][::-1])
            ex.prove(oc.st, t.eq(rd(self.off["n"], NB), t.concat(n[::-1])), "key-modulus", w)
            ex.prove(oc.st, t.eq(rd(self.off["e" if kind == "public" else "d"], NB), t.concat(e[::-1])), "key-exponent", w)
            if kind == "private":
                ex.prove(oc.st, t.eq(rd(self.fieldoff(lay, cls, "actualN"), 8), C64(B)), "modulus-bits", w)
        return [ex]

    def power_contract(self, ex, st, W, B, kp, what, value):
        """rsaep / rsadp of the given value -> RES, a number of at most B bits"""
        NB = W // 8
        k = (B + 7) // 8
        r = B % 8
        res = [t.var("res%d" % i, 8) for i in range(k)]
        if r:
            res[-1] = t.zext(t.var("rtop", r), 8)
        P = self

        def h(ex, st, name, args, where):
            same = st.decide(t.eq(args[1], kp)) is True if args[1] is not kp else True
            v = P.wide(ex, st, args[2], NB, where)
            want = value()
            if same and (v is want or st.decide(t.eq(v, want)) is True):
                rs = res + [C8(0)] * (NB - k)
            else:
                rs = P.fresh(NB)
            ex.access(st, st.mem[args[0].a[0]], args[0].a[1], C64(NB), where, True)
            st.wobj(args[0].a[0]).w_conc(cv(args[0].a[1]), rs)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"^Caligo::rsa_(public|private)_key<%dul>::%s\(" % (W, what), h)
        return res

    def same_bytes(self, ex, st, s, bs):
        return s.same(ex, st, by(bs))

    def verify(self, lay, W, B, sl):
        """validatePssSignature: the RFC 8017 8.1.2 decision"""
        ex, st0 = self.begin()
        L = self.L
        S = L if sl == "H" else sl
        P = self
        self.bn_contracts(ex, W)
        kp, n, e = self.keyobj(ex, st0, lay, W, B, "public")
        NB, k, em = W // 8, (B + 7) // 8, (B + 6) // 8
        mn = t.zext(t.var("mlen", 58), 64)
        mp = self.src(ex, st0, "MSG", mn)
        MH = [t.var("mh%d" % i, 8) for i in range(L)]
        self.expect = [(ufseq("MSG", mn), MH)]
        f = self.entry("Key<Caligo::%s, %dul>" % (self.alg, W), "verify%s" % sl)
        w = "validatePssSignature<%s,%d,%d bits>" % (self.alg, W, B)
        # any other length is refused
        st = st0.fork()
        sn = t.var("siglen", 64)
        st.assume(t.bnot(t.eq(sn, C64(k))))
        st.assume(t.ult(sn, C64(1 << 58)))
        sp = self.src(ex, st, "SIGX", sn)
        for oc in self.run(ex, st, f, [kp, mp, mn, sp, sn], w):
            ex.prove(oc.st, t.eq(oc.val, const(0, oc.val.w)), "wrong-length-refused", w)
        # the right length
        st = st0.fork()
        so = ex.new_obj(st, k, "sig")
        sg = [t.var("sig%d" % i, 8) for i in range(k)]
        so.w_conc(0, sg)
        so.ro = True
        num = t.concat(([C8(0)] * (NB - k) + sg) if NB > k else sg)
        LT = t.var("sig_below_n", 1)
        self.lt = (num, t.concat(n[::-1]), LT)
        res = self.power_contract(ex, st, W, B, kp, "rsaep", lambda: num)
        EMR = res[::-1][k - em:]          # emLen octets, most significant first
        SALT = [t.var("salt%d" % i, 8) for i in range(S)]
        EM = [t.var("em%d" % i, 8) for i in range(em)]

        def salth(ex, st, name, args, where):
            r, p, nn = args
            ok = self.same_bytes(ex, st, mem(ex, st, p, nn, where), EMR)
            rs = SALT if ok else self.fresh(S)
            self.ret_vec(ex, st, r, C64(S), lambda s_, j: rs[cv(j)], where)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"Caligo::getSalt<Caligo::%s, %dul>\(" % (re.escape(self.alg), S), salth)
        self.enc_contract(ex, lambda st: [(by(MH), by(SALT), em, EM)])
        mask = 0xff >> (8 * em - (B - 1))
        fits = em >= L + S + 2
        want = None
        if fits:
            EMm = [t.band(EM[0], C8(mask))] + EM[1:]
            want = t.eq(t.concat(EMR), t.concat(EMm))
            top = TRUE if em == k else t.eq(res[k - 1], C8(0))
            spec = t.band(t.eq(LT, const(1, 1)), t.band(top, want))
        else:
            spec = FALSE
        for oc in self.run(ex, st, f, [kp, mp, mn, t.ptr(so.id, C64(0)), C64(k)], w):
            v = oc.val if oc.val.w == 1 else t.extract(oc.val, 0, 0)
            ex.prove(oc.st, t.eq(t.ite(spec, const(1, 1), const(0, 1)), v), "decision", w)
        return [ex]

    def enc_contract(self, ex, exp):
        def h(ex, st, name, args, where):
            r, dp, dn, sp, sn, n = args
            d, s = mem(ex, st, dp, dn, where), mem(ex, st, sp, sn, where)
            if not isc(n):
                raise Unsupported("length of the encoded message")
            short = t.ult(n, t.add(sn, C64(self.L + 2)))
            outs = []
            dec = True if short is TRUE else False if short is FALSE else st.decide(short)
            if dec is not False:
                s2 = st.fork()
                s2.assume(short)
                if s2.feasible():
                    self.ret_vec(ex, s2, r, C64(0), None, where)
                    outs.append(Outcome("ret", s2, None))
                if dec is True:
                    return outs
                st.assume(t.bnot(short))
            for q, sa, ln, bs in exp(st):
                if cv(n) == ln and d.same(ex, st, q) and s.same(ex, st, sa):
                    rs = bs
                    break
            else:
                rs = self.fresh(cv(n))
            self.ret_vec(ex, st, r, n, lambda s_, j: rs[cv(j)], where)
            return outs + [Outcome("ret", st, None)]
        self.calls(ex, r"Caligo::generatePssData<Caligo::%s ?>\(" % re.escape(self.alg), h)

    def p15_contract(self, ex, dn, k):
        """PKCS1(DATA, k)"""
        tl = len(ALGS[self.alg][1]) // 2 + self.L
        EM = [t.var("em%d" % i, 8) for i in range(k)]

        def h(ex, st, name, args, where):
            r, dp, d, n = args
            if not isc(n):
                raise Unsupported("length of the encoded message")
            ok = mem(ex, st, dp, d, where).same(ex, st, ufseq("MSG", dn)) and cv(n) == k
            if cv(n) < tl + 11:
                self.ret_vec(ex, st, r, C64(0), None, where)
            else:
                rs = EM if ok else self.fresh(cv(n))
                self.ret_vec(ex, st, r, n, lambda s_, j: rs[cv(j)], where)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"Caligo::PKCS1<Caligo::%s ?>\(" % re.escape(self.alg), h)
        return EM, k >= tl + 11

    def ver15(self, lay, W, B):
        ex, st0 = self.begin()
        self.bn_contracts(ex, W)
        kp, n, e = self.keyobj(ex, st0, lay, W, B, "public")
        NB, k = W // 8, (B + 7) // 8
        mn = t.zext(t.var("mlen", 24), 64)
        mp = self.src(ex, st0, "MSG", mn)
        f = self.entry("Key<Caligo::%s, %dul>" % (self.alg, W), "ver15")
        w = "validatePkcs1_5Signature<%s,%d,%d bits>" % (self.alg, W, B)
        EM, fits = self.p15_contract(ex, mn, k)
        st = st0.fork()
        sn = t.var("siglen", 64)
        st.assume(t.bnot(t.eq(sn, C64(k))))
        st.assume(t.ult(sn, C64(1 << 58)))
        sp = self.src(ex, st, "SIGX", sn)
        for oc in self.run(ex, st, f, [kp, mp, mn, sp, sn], w):
            ex.prove(oc.st, t.eq(oc.val, const(0, oc.val.w)), "wrong-length-refused", w)
        st = st0.fork()
        so = ex.new_obj(st, k, "sig")
        sg = [t.var("sig%d" % i, 8) for i in range(k)]
        so.w_conc(0, sg)
        so.ro = True
        num = t.concat(([C8(0)] * (NB - k) + sg) if NB > k else sg)
        LT = t.var("sig_below_n", 1)
        self.lt = (num, t.concat(n[::-1]), LT)
        res = self.power_contract(ex, st, W, B, kp, "rsaep", lambda: num)
        spec = t.band(t.eq(LT, const(1, 1)), t.eq(t.concat(res[::-1]), t.concat(EM))) if fits else FALSE
        for oc in self.run(ex, st, f, [kp, mp, mn, t.ptr(so.id, C64(0)), C64(k)], w):
            v = oc.val if oc.val.w == 1 else t.extract(oc.val, 0, 0)
            ex.prove(oc.st, t.eq(t.ite(spec, const(1, 1), const(0, 1)), v), "decision", w)
        return [ex]

    def sign(self, lay, W, B, what):
        ex, st = self.begin()
        L = self.L
        self.bn_contracts(ex, W)
        kp, n, d = self.keyobj(ex, st, lay, W, B, "private")
        NB, k, em = W // 8, (B + 7) // 8, (B + 6) // 8
        mn = t.zext(t.var("mlen", 24), 64)
        mp = self.src(ex, st, "MSG", mn)
        v = ex.new_obj(st, 24, "result")
        out = t.ptr(v.id, C64(0))
        cls = "Key<Caligo::%s, %dul>" % (self.alg, W)
        w = "%s<%s,%d,%d bits>" % (what, self.alg, W, B)
        if what == "sign15":
            EM, fits = self.p15_contract(ex, mn, k)
            num = t.concat([C8(0)] * (NB - k) + EM) if NB > k else t.concat(EM)
            fits = TRUE if fits else FALSE
            a = [kp, mp, mn, out]
        else:
            sn = t.zext(t.var("saltlen", 32), 64)
            sp = self.src(ex, st, "SALT", sn)
            EM = [t.var("em%d" % i, 8) for i in range(em)]
            self.enc_contract(ex, lambda st: [(ufseq("MSG", mn), ufseq("SALT", sn), em, EM)])
            m = [t.band(EM[0], C8(0xff >> (8 * em - (B - 1))))] + EM[1:]
            num = t.concat([C8(0)] * (NB - em) + m) if NB > em else t.concat(m)
            fits = t.ule(t.add(sn, C64(L + 2)), C64(em))
            a = [kp, mp, mn, sp, sn, out]
        res = self.power_contract(ex, st, W, B, kp, "rsadp", lambda: num)
        for oc in self.run(ex, st, self.entry(cls, what), a, w):
            dec = True if fits is TRUE else False if fits is FALSE else oc.st.decide(fits)
            if dec is None:
                ex.prove(oc.st, FALSE, "length-check", w)
            elif dec:
                self.vec_is(ex, oc.st, out, by(res[::-1]), w)
            else:
                ex.prove(oc.st, t.eq(stdmodel.vec_parts(ex, oc.st, out)[1], C64(0)), "too-short-is-empty", w)
        return [ex]

    # -- the scheme dispatch of the key classes
    SCHEMES = {0x0401: ("15", "SHA2<256ul>"), 0x0501: ("15", "SHA2<384ul>"), 0x0601: ("15", "SHA2<512ul>"),
               0x0804: ("pss", "SHA2<256ul>"), 0x0805: ("pss", "SHA2<384ul>"), 0x0806: ("pss", "SHA2<512ul>"),
               0x0809: ("pss", "SHA2<256ul>"), 0x080a: ("pss", "SHA2<384ul>"), 0x080b: ("pss", "SHA2<512ul>")}

    def dispatch(self, lay, what):
        """RsaPubkey::validateSignature / RsaPrivateKey::sign: each scheme is one signature operation on the key held, the
        message (signing PSS: its digest) and the signature (signing PSS: a fresh random salt of the digest's length)"""
        ex, st = self.begin()
        cls, member = ("Caligo::RsaPubkey", "pubkey") if what == "validate" else ("Caligo::RsaPrivateKey", "privkey")
        size = lay[cls][0]
        off = [o for o, i, x in lay[cls][1] if re.search(r"\b%s$" % member, x.strip())][0]
        o = ex.new_obj(st, size, cls, base=lambda s_, j: t.uf("KEYOBJ", [j], 8))
        o.ro = True
        kp = t.ptr(o.id, C64(off))
        ty = t.var("type", 32)
        mn, sn = (t.zext(t.var(x, 32), 64) for x in ("mlen", "siglen"))
        mp = self.src(ex, st, "MSG", mn)
        sp = self.src(ex, st, "SIG", sn)
        MSG, SIG = ufseq("MSG", mn), ufseq("SIG", sn)
        P = self
        P.rng = 0

        def digest(ex, st, a0, a, s, n):
            if a0 == a and s.same(ex, st, MSG):
                return [t.uf("DIG_" + a, [C64(i)], 8) for i in range(n)]
            return P.fresh(n)
        self.digest = digest

        def rng(ex, st, name, args, where):
            p, n = args
            if not isc(n):
                raise Unsupported("random bytes of symbolic length")
            P.rng += 1
            k = P.rng
            ex.access(st, st.mem[p.a[0]], p.a[1], n, where, True)
            st.wobj(p.a[0]).w_conc(cv(p.a[1]), [t.uf("RNG%d" % k, [C64(i)], 8) for i in range(cv(n))])
            return [Outcome("ret", st, None)]
        self.calls(ex, r"^Caligo::generate_random\(std::span<unsigned char", rng)

        def op(ex, st, name, args, where):
            d = ex.dem.get(name, name)
            m = re.search(r"::(sign|validate)(Pss|Pkcs1_5)Signature<Caligo::(SHA2<\d+ul>)(?:, Caligo::MGF1<Caligo::(SHA2<\d+ul>) ?>)? ?>\(", d)
            if not m:
                raise Unsupported("signature operation " + d[:80])
            verb, kind, a, mg = m.groups()
            kind = "15" if kind == "Pkcs1_5" else "pss"
            args = list(args)
            out = args.pop(0) if verb == "sign" else None
            ok = st.decide(t.eq(args[0], kp)) is True and (kind == "15" or mg == a)
            q = [mem(ex, st, args[i], args[i + 1], where) for i in range(1, len(args), 2)]
            if verb == "validate":
                ok = ok and q[0].same(ex, st, MSG) and q[1].same(ex, st, SIG)
                return [Outcome("ret", st, t.var("V_%s_%s" % (kind, a), 1) if ok else P.fresh1())]
            if kind == "pss":
                L = ALGS[a][0]
                ok = ok and q[0].same(ex, st, by([t.uf("DIG_" + a, [C64(i)], 8) for i in range(L)]))
                s_ = st.fork()
                ok = ok and isc(q[1].len()) and cv(q[1].len()) == L and all(
                    q[1].at(s_, C64(i)) is t.uf("RNG%d" % P.rng, [C64(i)], 8) for i in range(L))
            else:
                ok = ok and q[0].same(ex, st, MSG)
            nm = "R_%s_%s" % (kind, a) if ok else "RBAD%d" % len(P.table)
            self.ret_vec(ex, st, out, t.zext(t.var(nm + "_len", 16), 64), lambda s_, j: t.uf(nm, [j], 8), where)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"^.*Caligo::rsa_(public|private)_key<4096ul>::(sign|validate)\w+<", op)
        f = [n for n, d in self.dem.items() if d.startswith("vf_" + what + "(")][0]
        v = ex.new_obj(st, 24, "result")
        out = t.ptr(v.id, C64(0))
        op_ = t.ptr(o.id, C64(0))
        w = cls + "::" + what
        for oc in self.run(ex, st, f, [op_, ty, mp, mn] + ([sp, sn] if what == "validate" else [out]), w):
            s = oc.st
            known = [c for c in self.SCHEMES if s.decide(t.eq(ty, const(c, 32))) is not False]
            for c in known:
                s2 = s.fork()
                s2.assume(t.eq(ty, const(c, 32)))
                if not s2.feasible():
                    continue
                kind, a = self.SCHEMES[c]
                if what == "validate":
                    b = oc.val if oc.val.w == 1 else t.extract(oc.val, 0, 0)
                    ex.prove(s2, t.eq(b, t.var("V_%s_%s" % (kind, a), 1)), "scheme-%04x" % c, w)
                else:
                    nm = "R_%s_%s" % (kind, a)
                    self.vec_is(ex, s2, out, ufseq(nm, t.zext(t.var(nm + "_len", 16), 64)), w + " scheme %04x" % c)
            s2 = s.fork()
            for c in known:
                s2.assume(t.bnot(t.eq(ty, const(c, 32))))
            if s2.feasible():
                if what == "validate":
                    ex.prove(s2, t.eq(oc.val, const(0, oc.val.w)), "unknown-scheme-refused", w)
                else:
                    ex.prove(s2, t.eq(stdmodel.vec_parts(ex, s2, out)[1], C64(0)), "unknown-scheme-empty", w)
        return [ex]

    def fresh1(self):
        self.nres += 1
        return t.var("OTHERB%d" % self.nres, 1)
