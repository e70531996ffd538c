"""AES-GCM over the contracts of the block cipher (C07) and of GF(2^128) multiplication (C08).

E(x, i) is byte i of the cipher applied to block x, GM(x) is the product of x with the hash key, rev8 reverses the bits of a byte.
GHASH over the associated data A and the text T is the chain GA(0)=0, GA(k+16)=GM(GA(k)^A[k..k+16)), zero-padded last block, then
GT(0)=end of A chain, GT(k+16)=GM(GT(k)^T[k..k+16)), then GM(. ^ lengths); applying GM to exactly the defining expression yields the
next chain value (that is the definition of the chain, so no axiom is assumed)."""
import re
from . import terms as t, stdmodel, smt, layout
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported, Failure
from .loops import LoopEngine
from .stream import PosLoop, content

C64 = lambda v: const(v, 64)


def rev8(b):
    if isc(b):
        return const(int("{:08b}".format(cv(b))[::-1], 2), 8)
    if b.op == "uf" and b.a[0] == "rev8":
        return b.a[1]
    if b.op == "xor":
        return t.bxor(*[rev8(x) for x in b.a])
    if b.op == "ite":
        return t.ite(b.a[0], rev8(b.a[1]), rev8(b.a[2]))
    return t.uf("rev8", [b], 8)


def bts(x):
    return [t.extract(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)]


def cat(bs):
    return t.concat(list(bs)[::-1])


def R(v):
    return cat([rev8(b) for b in bts(v)])


def E(x):
    return [t.uf("E", [x, const(i, 8)], 8) for i in range(16)]


def E_at(x, i):
    return t.uf("E", [x, i], 8)


def be32(v):
    return [t.extract(v, 31 - 8 * i, 24 - 8 * i) for i in range(4)]


class Chain:
    """GHASH of A then T"""

    def __init__(self, A, alen, T, tlen):
        self.A, self.alen, self.T, self.tlen = A, alen, T, tlen
        self.H = [t.var("H%d" % i, 8) for i in range(16)]
        self.nfold = 0

    def GA(self, k):
        return const(0, 128) if isc(k) and cv(k) == 0 else t.uf("GA", [k], 128)

    def SA(self, st):
        r = t.eq(t.extract(self.alen, 3, 0), const(0, 4))
        d = st.decide(r)
        if d is None:
            raise Unsupported("undecided residue of the associated data length")
        return self.GA(self.alen) if d else t.var("PA", 128)

    def GT(self, st, k):
        return self.SA(st) if isc(k) and cv(k) == 0 else t.uf("GT", [k], 128)

    def ST(self, st):
        d = st.decide(t.eq(t.extract(self.tlen, 3, 0), const(0, 4)))
        if d is None:
            raise Unsupported("undecided residue of the text length")
        return self.GT(st, self.tlen) if d else t.var("PT", 128)

    def lens(self):
        sh = lambda n: t.shl(n, C64(3))
        return cat([t.extract(sh(self.alen), 63 - 8 * i, 56 - 8 * i) for i in range(8)] + [t.extract(sh(self.tlen), 63 - 8 * i, 56 - 8 * i) for i in range(8)])

    def blk(self, f, k):
        return cat([f(t.add(k, C64(i))) for i in range(16)])

    def pad(self, f, k, n):
        return cat([t.ite(t.ult(t.add(k, C64(i)), n), f(t.add(k, C64(i))), const(0, 8)) for i in range(16)])

    def holds(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return st.decide(c) is True

    def fold(self, st, x):
        ks = {"GA": [], "GT": []}
        for u in t.topo([x]):
            if u.op == "uf" and u.a[0] in ks:
                ks[u.a[0]].append(u.a[1])
        same = lambda a, b: a is b or all(p is q or self.holds(st, t.eq(p, q)) for p, q in zip(bts(a), bts(b)))
        tries = []
        for k in ks["GA"] + ([C64(0)] if not ks["GA"] and not ks["GT"] else []):
            tries.append((self.GA(k), k, self.A, self.alen, lambda k: self.GA(k), t.var("PA", 128)))
        for k in ks["GT"]:
            tries.append((self.GT(st, k), k, self.T, self.tlen, lambda k: self.GT(st, k), t.var("PT", 128)))
        if not ks["GT"]:
            try:
                tries.append((self.SA(st), C64(0), self.T, self.tlen, lambda k: self.GT(st, k), t.var("PT", 128)))
            except Unsupported:
                pass
        for prev, k, f, n, nxt, part in tries:
            for cond, data, res in ((t.ule(t.add(k, C64(16)), n), self.blk(f, k), lambda: nxt(t.add(k, C64(16)))),
                                    (t.band(t.ult(k, n), t.ult(n, t.add(k, C64(16)))), self.pad(f, k, n), lambda: part)):
                if not self.holds(st, cond):
                    continue
                if same(t.bxor(prev, data), x):
                    self.nfold += 1
                    return res()
        return t.uf("GM", [x], 128)


class Gcm:
    def __init__(self, mod, dem, lay, bits):
        self.mod, self.dem, self.bits = mod, dem, bits
        cls = [k for k in lay if re.match(r"Caligo::GCM<(struct )?Caligo::AES<%d>" % bits, k)]
        if not cls:
            raise Unsupported("no layout for GCM<AES<%d>>" % bits)
        self.size, fs = layout.fields(lay, cls[0])
        self.off = {}
        for o, ty, nm, ind in fs:
            if "AesKeySchedule" in ty:
                self.off.setdefault("sched", o)
            elif ty == "__m128i":
                self.off.setdefault(nm, o)
            elif ty in ("uint64_t", "unsigned long", "size_t", "std::uint64_t"):
                self.off.setdefault("count", o)
            elif "std::vector<unsigned char>" in ty:
                self.off.setdefault("iv", o)
        for k in ("sched", "h", "count", "iv"):
            if k not in self.off:
                raise Unsupported("field %s not found in GCM" % k)
        self.nrk = 16 * (bits // 32 + 7)
        self.H = [t.var("H%d" % i, 8) for i in range(16)]

    # -- contracts
    def mk(self, chain=None):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)
        nb = self.bits // 8
        rk = [t.var("rk%d" % i, 8) for i in range(self.nrk)]
        self.rk = rk

        def sched(ex, st, name, args, where):
            p, kp, n = args
            outs = []
            ok = t.eq(n, C64(nb))
            s2 = st.fork()
            s2.assume(t.bnot(ok))
            if s2.feasible():
                outs.append(Outcome("throw", s2, "key size"))
            st.assume(ok)
            if st.feasible():
                for i in range(nb):
                    ex.prove(st, t.eq(ex.load(st, t.add(kp, C64(i)), 1, where), t.uf("KEY", [C64(i)], 8)), "key-bytes", where)
                ex.access(st, st.mem[p.a[0]], p.a[1], self.nrk, where, True)
                st.wobj(p.a[0]).w_conc(cv(p.a[1]), rk)
                outs.append(Outcome("ret", st, None))
            return outs

        def enc(ex, st, name, args, where):
            p, x = args
            o = st.mem[p.a[0]]
            same = all(o.rd(st, t.add(p.a[1], C64(i))) is rk[i] for i in range(self.nrk))
            ex.prove(st, TRUE if same else FALSE, "key-schedule-of-this-object", where)
            return [Outcome("ret", st, cat(E(x)))]

        def refl(ex, st, name, args, where):
            return [Outcome("ret", st, R(args[0]))]

        def gmul(ex, st, name, args, where):
            x, y = R(args[0]), R(args[1])
            h = cat(self.H)
            if y is not h:
                x, y = y, x
            if y is not h:
                return [Outcome("ret", st, R(t.uf("GM2", [x, y], 128)))]
            return [Outcome("ret", st, R(chain.fold(st, x) if chain else t.uf("GM", [x], 128)))]
        B = r"<%dul>" % self.bits
        ex.contracts = [(lambda n, d: re.search(r"AesKeySchedule" + B + r"::AesKeySchedule\(", d), sched),
                        (lambda n, d: re.search(r"Caligo::AesEncrypt" + B + r"\(Caligo::AesKeySchedule", d), enc),
                        (lambda n, d: d.startswith("Caligo::reflect("), refl),
                        (lambda n, d: d.startswith("Caligo::galoisMultiply("), gmul)] + ex.contracts
        ex.loop_hook = LoopEngine([])
        return ex

    def obj(self, ex, st, ivlen, ivbytes, count):
        o = ex.new_obj(st, self.size, "gcm")
        o.w_conc(self.off["sched"], self.rk)
        o.w_conc(self.off["h"], bts(R(cat(self.H))))
        o.w_conc(self.off["count"], bts(count))
        p = t.ptr(o.id, C64(0))
        if ivlen is None:
            return o, p
        b = ex.new_obj(st, ivlen, "iv", "heap")
        b.meta = "vecbuf"
        if isinstance(ivbytes, list):
            b.w_conc(0, ivbytes)
        else:
            b.base = ivbytes
        stdmodel.vec_set(ex, st, t.add(p, C64(self.off["iv"])), b.id, ivlen)
        self.ivbuf = b.id
        return o, p

    # -- 1. GHASH
    def prove_ghash(self):
        A, T = (lambda j: t.uf("A", [j], 8)), (lambda j: t.uf("T", [j], 8))
        alen, tlen = t.zext(t.var("alen", 60), 64), t.zext(t.var("tlen", 60), 64)
        ch = Chain(A, alen, T, tlen)
        ex = self.mk(ch)
        st = State(ex)
        o, p = self.obj(ex, st, None, None, t.var("count", 64))
        ao = ex.new_obj(st, alen, "aad", base=lambda s_, j: A(j))
        to = ex.new_obj(st, tlen, "text", base=lambda s_, j: T(j))
        ap, tp = t.ptr(ao.id, C64(0)), t.ptr(to.id, C64(0))
        out = ex.new_obj(st, 16, "out")
        for x in (ao, to):
            x.ro = True

        def tmpl(total, n, ptr, val, nm):
            def f(ex, st, *a):
                try:
                    val(st, C64(0))
                except Unsupported:
                    return None
                pl = PosLoop(nm, total, [16], [ptr], lambda *a: None, lambda *a: True, set(), extra=[("chash", lambda g: R(val(st, g["k"])))])
                pl.need = {"chash"}
                return pl
            return f
        al, tl = t.concat([t.extract(alen, 63, 4), const(0, 4)]), t.concat([t.extract(tlen, 63, 4), const(0, 4)])
        ex.loop_hook = LoopEngine([tmpl(al, alen, ap, lambda s, k: ch.GA(k), "aad-blocks"), tmpl(tl, tlen, tp, ch.GT, "text-blocks")])
        n = 0
        for oc in ex.start(st, "vf_ghash%d" % self.bits, [p, tp, tlen, ap, alen, t.ptr(out.id, C64(0))]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", "ghash")
                continue
            n += 1
            want = t.uf("GM", [t.bxor(ch.ST(oc.st), ch.lens())], 128)
            got = cat([oc.st.mem[out.id].rd(oc.st, C64(i)) for i in range(16)])
            ex.prove(oc.st, t.eq(got, want), "ghash-value", "ghash")
        if not n or not ch.nfold:
            raise Unsupported("no returning path")
        return [ex]

    def ghash_contract(self, ex, want_c, want_a, result):
        """want_c/want_a: (len, fn) that the spans must contain"""
        def h(ex, st, name, args, where):
            a = [x for x in args]
            if len(a) != 5:
                return NotImplemented
            this, cp, cn, ap, an = a
            for what, p, n, (wn, wf) in (("text", cp, cn, want_c), ("aad", ap, an, want_a)):
                ex.prove(st, t.eq(n, wn), "ghash-%s-length" % what, where)
                j = t.fresh("j", 64)
                s2 = st.fork()
                s2.assume(t.ult(j, wn))
                if s2.feasible():
                    ex.prove(s2, t.eq(ex.load(s2, t.add(p, j), 1, where), wf(s2, j)), "ghash-%s-bytes" % what, where)
                else:
                    ex.prove(s2, TRUE, "ghash-%s-bytes" % what, where)
            hm = cat([st.mem[this.a[0]].rd(st, t.add(this.a[1], C64(self.off["h"] + i))) for i in range(16)])
            ex.prove(st, t.eq(hm, R(cat(self.Hnow))), "ghash-key", where)
            return [Outcome("ret", st, (cat(result[:8]), cat(result[8:])))]
        ex.contracts.insert(0, (lambda n, d: bool(re.search(r"GCM<Caligo::AES<%dul> ?>::ghash\(std::span" % self.bits, d)), h))

    # -- 2. constructor
    def prove_ctor(self):
        ex = self.mk(None)
        st = State(ex)
        kl, il = t.zext(t.var("klen", 61), 64), t.zext(t.var("ivlen", 61), 64)
        K, IV = (lambda s_, j: t.uf("KEY", [j], 8)), (lambda s_, j: t.uf("IV", [j], 8))
        ko = ex.new_obj(st, kl, "key", base=K)
        io = ex.new_obj(st, il, "ivdata", base=IV)
        o = ex.new_obj(st, self.size, "gcm")
        J = [t.var("j%d" % i, 8) for i in range(16)]
        H0 = E(const(0, 128))
        self.Hnow = H0
        self.ghash_contract(ex, (il, IV), (C64(0), IV), J)
        p = t.ptr(o.id, C64(0))
        n = 0
        for oc in ex.start(st, "vf_ctor%d" % self.bits, [p, t.ptr(ko.id, C64(0)), kl, t.ptr(io.id, C64(0)), il]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, t.bnot(t.eq(kl, C64(self.bits // 8))), "valid-key-accepted", "constructor")
                continue
            n += 1
            ex.prove(s, t.eq(kl, C64(self.bits // 8)), "wrong-key-size-refused", "constructor")
            g = s.mem[o.id]
            ex.prove(s, TRUE if all(g.rd(s, C64(self.off["sched"] + i)) is self.rk[i] for i in range(self.nrk)) else FALSE, "key-schedule", "constructor")
            ex.prove(s, t.eq(cat([g.rd(s, C64(self.off["h"] + i)) for i in range(16)]), R(cat(H0))), "hash-key", "constructor")
            ex.prove(s, t.eq(cat([g.rd(s, C64(self.off["count"] + i)) for i in range(8)]), C64(0)), "message-counter", "constructor")
            vo, vl = stdmodel.vec_parts(ex, s, t.add(p, C64(self.off["iv"])))
            ghash = t.bor(t.eq(il, C64(8)), t.ult(C64(12), il))
            ex.prove(s, t.eq(vl, t.ite(ghash, C64(16), il)), "nonce-length", "constructor")
            for cnd, c0 in ((ghash, True), (t.bnot(ghash), False)):
                s2 = s.fork()
                s2.assume(cnd)
                if not s2.feasible():
                    continue
                if c0:
                    for i in range(16):
                        ex.prove(s2, t.eq(s2.mem[vo].rd(s2, C64(i)), J[i]), "nonce-bytes", "constructor")
                else:
                    j = t.fresh("j", 64)
                    s2.assume(t.ult(j, il))
                    if s2.feasible():
                        ex.prove(s2, t.eq(s2.mem[vo].rd(s2, j), IV(s2, j)), "nonce-bytes", "constructor")
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    # -- 3. messages
    def message(self, ivn, dec):
        """ivn: 12 or 16 (the class invariant established by the constructor)"""
        ex = self.mk(None)
        st = State(ex)
        count = t.var("count", 64)
        ivb = [t.var("iv%d" % i, 8) for i in range(ivn)]
        o, p = self.obj(ex, st, C64(ivn), list(ivb), count)
        self.Hnow = self.H
        P, A = (lambda s_, j: t.uf("P", [j], 8)), (lambda s_, j: t.uf("A", [j], 8))
        plen, alen = t.zext(t.var("plen", 58), 64), t.zext(t.var("alen", 58), 64)
        po = ex.new_obj(st, plen, "input", base=P)
        ao = ex.new_obj(st, alen, "aad", base=A)
        # pre-counter block: nonce xor message number in bytes 4..11
        J = list(ivb) + [const(0, 8)] * (16 - ivn)
        cb = bts(count)[::-1]
        for i in range(8):
            J[4 + i] = t.bxor(J[4 + i], cb[i])
        if ivn == 12:
            J[12:] = [const(x, 8) for x in (0, 0, 0, 1)]
        c0 = t.concat(J[12:])
        blk = lambda q: cat(J[:12] + be32(t.add(c0, t.extract(q, 31, 0), const(1, 32))))
        KS = lambda j: E_at(blk(t.lshr(j, C64(4))), t.zext(t.extract(j, 3, 0), 8))
        X = lambda s_, j: t.bxor(P(s_, j), KS(j))
        rnd = t.concat([t.extract(t.add(plen, C64(15)), 63, 4), const(0, 4)])
        gh = [t.var("gh%d" % i, 8) for i in range(16)]
        self.ghash_contract(ex, (plen, P if dec else X), (alen, A), gh)

        flr = t.concat([t.extract(plen, 63, 4), const(0, 4)])

        def tmpl(ex, st, f, H, lp, env, limit=None):
            outs = [i for i, ob in st.mem.items() if ob.meta == "vecbuf" and ob.alive and i not in (self.ivbuf,) and i not in (po.id, ao.id)]
            k0 = [t.concat(J)]

            def ctrs(st, k):
                c = be32(t.add(c0, t.extract(t.lshr(k, C64(4)), 31, 0)))
                return J[:12] + c
            cobs = [i for i, ob in st.mem.items() if ob.alive and ob.kind == "stack" and isc(ob.size) and cv(ob.size) == 16 and
                    all(ob.rd(st, C64(b)) is J[b] for b in range(12))]

            def cell(s, j, k):
                return t.ite(t.ult(j, k), t.ite(t.ult(j, plen), X(s, j), KS(j)), const(0, 8))

            def inst(ex, s, k):
                for i in cobs:
                    s.wobj(i).w_conc(0, ctrs(s, k))
                for i in outs:
                    ob = s.wobj(i)
                    ob.layers = ()
                    ob.base = None
                    ob.w_range(C64(0), ob.size, lambda s_, j, k=k: cell(s_, j, k))

            def chk(ex, s, k, where):
                ok = True
                for i in cobs:
                    want = ctrs(s, k)
                    got = [s.mem[i].rd(s, C64(b)) for b in range(16)]
                    ok = ok and ex.prove(s, t.eq(cat(got), cat(want)), "counter-block", where)
                for i in outs:
                    ok = ok and content(ex, s, i, lambda s_, j: cell(s_, j, k), C64(0), s.mem[i].size, where, "keystream-applied")
                return ok
            return PosLoop("ctr", rnd, [16], [], inst, chk, set(cobs) | set(outs),
                           extra=[("ctr32", lambda g: t.add(c0, t.extract(t.lshr(g["k"], C64(4)), 31, 0)))], limit=limit)
        ex.merge_calls = True
        ex.loop_hook = LoopEngine([lambda *a: tmpl(*a, limit=flr), tmpl])
        v = ex.new_obj(st, 24, "result")
        tg = ex.new_obj(st, 16, "tag")
        vp, tp = t.ptr(v.id, C64(0)), t.ptr(tg.id, C64(0))
        pp, ap = t.ptr(po.id, C64(0)), t.ptr(ao.id, C64(0))
        if dec:
            intag = [t.var("tag%d" % i, 8) for i in range(16)]
            tg.w_conc(0, intag)
            args = [p, pp, plen, ap, alen, tp, vp]
        else:
            args = [p, pp, plen, ap, alen, vp, tp]
        ET = E(cat(J))
        want_tag = [t.bxor(a, b) for a, b in zip(gh, ET)]
        n = 0
        w = "%s%d" % ("Decrypt" if dec else "Encrypt", self.bits)
        for oc in ex.start(st, "vf_%s%d" % ("dec" if dec else "enc", self.bits), args):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            n += 1
            ok = TRUE
            if dec:
                ok = t.extract(oc.val, 0, 0)
                ex.prove(s, t.eq(ok, t.eq(cat(intag), cat(want_tag))), "accepted-iff-tag-right", w)
                s2 = s.fork()
                s2.assume(t.eq(ok, const(1, 1)) if ok is not TRUE else TRUE)
                if not s2.feasible():
                    continue
            else:
                s2 = s
                for i in range(16):
                    ex.prove(s, t.eq(s.mem[tg.id].rd(s, C64(i)), want_tag[i]), "tag", w)
            vo, vl = stdmodel.vec_parts(ex, s2, vp)
            if ex.prove(s2, t.eq(vl, plen), "output-length", w) and vo:
                content(ex, s2, vo, X, C64(0), plen, w, "output-bytes")
            g = s.mem[o.id]
            ex.prove(s, t.eq(cat([g.rd(s, C64(self.off["count"] + i)) for i in range(8)]), t.add(count, C64(1))), "message-counter", w)
            ex.prove(s, TRUE if all(g.rd(s, C64(self.off["sched"] + i)) is self.rk[i] for i in range(self.nrk)) else FALSE, "key-unchanged", w)
            ex.prove(s, t.eq(cat([g.rd(s, C64(self.off["h"] + i)) for i in range(16)]), R(cat(self.H))), "hash-key-unchanged", w)
            io, il = stdmodel.vec_parts(ex, s, t.add(p, C64(self.off["iv"])))
            ex.prove(s, t.band(*[t.eq(il, C64(ivn))] + [t.eq(s.mem[io].rd(s, C64(i)), ivb[i]) for i in range(ivn)]), "nonce-unchanged", w)
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    def refused(self, dec):
        """nonces the constructor could not bring into shape: nothing is encrypted, nothing is accepted"""
        ex = self.mk(None)
        st = State(ex)
        il = t.zext(t.var("ivlen", 4), 64)
        st.assume(t.ult(il, C64(12)))
        o, p = self.obj(ex, st, il, lambda s_, j: t.uf("IV", [j], 8), t.var("count", 64))
        plen, alen = t.zext(t.var("plen", 58), 64), t.zext(t.var("alen", 58), 64)
        po = ex.new_obj(st, plen, "input", base=lambda s_, j: t.uf("P", [j], 8))
        ao = ex.new_obj(st, alen, "aad", base=lambda s_, j: t.uf("A", [j], 8))
        v = ex.new_obj(st, 24, "result")
        tg = ex.new_obj(st, 16, "tag")
        tg.w_conc(0, [t.var("tag%d" % i, 8) for i in range(16)])
        vp, tp = t.ptr(v.id, C64(0)), t.ptr(tg.id, C64(0))
        args = [p, t.ptr(po.id, C64(0)), plen, t.ptr(ao.id, C64(0)), alen] + ([tp, vp] if dec else [vp, tp])
        w = "%s%d short nonce" % ("Decrypt" if dec else "Encrypt", self.bits)
        for oc in ex.start(st, "vf_%s%d" % ("dec" if dec else "enc", self.bits), args):
            if oc.kind != "ret":
                ex.prove(oc.st, TRUE, "refused", w)
                continue
            if dec:
                ex.prove(oc.st, t.eq(t.extract(oc.val, 0, 0), const(0, 1)), "not-accepted", w)
            vo, vl = stdmodel.vec_parts(ex, oc.st, vp)
            ex.prove(oc.st, t.eq(vl, C64(0)), "nothing-returned", w)
        return [ex]
