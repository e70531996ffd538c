"""CTR mode over the block cipher contract (C07): E(x, i) is byte i of the cipher applied to block x."""
import re
from . import terms as t, stdmodel, layout, gcmproof
from .terms import const, isc, cv, TRUE, FALSE
from .exec import State, Unsupported
from .loops import LoopEngine
from .stream import PosLoop, content
from .gcmproof import C64, bts, cat, be32, E_at


class Ctr(gcmproof.Gcm):
    def __init__(self, mod, dem, lay, bits):
        self.mod, self.dem, self.bits = mod, dem, bits
        cls = [k for k in lay if re.match(r"Caligo::CTR<(struct )?Caligo::AES<%d>" % bits, k)]
        if not cls:
            raise Unsupported("no layout for CTR<AES<%d>>" % bits)
        self.size, fs = layout.fields(lay, cls[0])
        self.off = {}
        for o, ty, nm, ind in fs:
            if "AesKeySchedule" in ty:
                self.off.setdefault("sched", o)
            elif ty in ("uint64_t", "unsigned long", "size_t", "std::uint64_t"):
                self.off.setdefault("count", o)
            elif "std::vector<unsigned char>" in ty:
                self.off.setdefault("iv", o)
        for k in ("sched", "count", "iv"):
            if k not in self.off:
                raise Unsupported("field %s not found in CTR" % k)
        self.nrk = 16 * (bits // 32 + 7)

    def obj(self, ex, st, ivb, count):
        o = ex.new_obj(st, self.size, "ctr")
        o.w_conc(self.off["sched"], self.rk)
        o.w_conc(self.off["count"], bts(count))
        p = t.ptr(o.id, C64(0))
        b = ex.new_obj(st, C64(16), "iv", "heap")
        b.meta = "vecbuf"
        b.w_conc(0, ivb)
        stdmodel.vec_set(ex, st, t.add(p, C64(self.off["iv"])), b.id, C64(16))
        self.ivbuf = b.id
        return o, p

    def prove_ctor(self):
        ex = self.mk(None)
        st = State(ex)
        kl, il = t.zext(t.var("klen", 61), 64), t.zext(t.var("ivlen", 61), 64)
        ko = ex.new_obj(st, kl, "key", base=lambda s_, j: t.uf("KEY", [j], 8))
        io = ex.new_obj(st, il, "ivdata", base=lambda s_, j: t.uf("IV", [j], 8))
        o = ex.new_obj(st, self.size, "ctr")
        p = t.ptr(o.id, C64(0))
        good = t.band(t.eq(kl, C64(self.bits // 8)), t.eq(il, C64(16)))
        n = 0
        for oc in ex.start(st, "vf_ctor%d" % self.bits, [p, t.ptr(ko.id, C64(0)), kl, t.ptr(io.id, C64(0)), il]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, t.bnot(good), "valid-sizes-accepted", "constructor")
                continue
            n += 1
            ex.prove(s, good, "wrong-sizes-refused", "constructor")
            s.assume(good)
            if not s.feasible():
                continue
            g = s.mem[o.id]
            ex.prove(s, TRUE if all(g.rd(s, C64(self.off["sched"] + i)) is self.rk[i] for i in range(self.nrk)) else FALSE, "key-schedule", "constructor")
            ex.prove(s, t.eq(cat([g.rd(s, C64(self.off["count"] + i)) for i in range(8)]), C64(0)), "message-counter", "constructor")
            vo, vl = stdmodel.vec_parts(ex, s, t.add(p, C64(self.off["iv"])))
            ex.prove(s, t.eq(vl, C64(16)), "nonce-length", "constructor")
            for i in range(16):
                ex.prove(s, t.eq(s.mem[vo].rd(s, C64(i)), t.uf("IV", [C64(i)], 8)), "nonce-bytes", "constructor")
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    def message(self, which):
        """which: ks | enc | dec"""
        ex = self.mk(None)
        st = State(ex)
        count = t.var("count", 64)
        J = [t.var("iv%d" % i, 8) for i in range(16)]
        ivb = list(J)
        o, p = self.obj(ex, st, list(J), count)
        cb = bts(count)[::-1]
        for i in range(8):
            J[4 + i] = t.bxor(J[4 + i], cb[i])
        P = lambda s_, j: t.uf("P", [j], 8)
        plen = t.zext(t.var("plen", 58), 64)
        po = ex.new_obj(st, plen, "data", base=P)
        c0 = t.concat(J[12:])
        blk = lambda q: cat(J[:12] + be32(t.add(c0, t.extract(q, 31, 0), const(1, 32))))
        KS = lambda j: E_at(blk(t.lshr(j, C64(4))), t.zext(t.extract(j, 3, 0), 8))
        X = lambda s_, j: t.bxor(P(s_, j), KS(j))
        rnd = t.concat([t.extract(t.add(plen, C64(15)), 63, 4), const(0, 4)])

        def ctrs(k):
            return J[:12] + be32(t.add(c0, t.extract(t.lshr(k, C64(4)), 31, 0)))

        def gen(ex, st, f, H, lp, env):
            outs = [i for i, ob in st.mem.items() if ob.meta == "vecbuf" and ob.alive and i != self.ivbuf]
            cobs = [i for i, ob in st.mem.items() if ob.alive and ob.kind == "stack" and isc(ob.size) and cv(ob.size) == 16 and
                    all(ob.rd(st, C64(b)) is J[b] for b in range(12))]
            if not outs:
                return None
            cell = lambda s, j, k: t.ite(t.ult(j, k), KS(j), const(0, 8))

            def inst(ex, s, k):
                for i in cobs:
                    s.wobj(i).w_conc(0, ctrs(k))
                for i in outs:
                    ob = s.wobj(i)
                    ob.layers = ()
                    ob.base = None
                    ob.w_range(C64(0), ob.size, lambda s_, j, k=k: cell(s_, j, k))

            def chk(ex, s, k, where):
                ok = True
                for i in cobs:
                    ok = ok and ex.prove(s, t.eq(cat([s.mem[i].rd(s, C64(b)) for b in range(16)]), cat(ctrs(k))), "counter-block", where)
                for i in outs:
                    ok = ok and content(ex, s, i, lambda s_, j: cell(s_, j, k), C64(0), s.mem[i].size, where, "keystream")
                return ok
            return PosLoop("keystream", rnd, [16], [t.ptr(outs[0], C64(0))], inst, chk, set(cobs) | set(outs),
                           extra=[("ctr32", lambda g: t.add(c0, t.extract(t.lshr(g["k"], C64(4)), 31, 0)))])

        def app(ex, st, f, H, lp, env):
            cell = lambda s, j, k: t.ite(t.ult(j, k), X(s, j), P(s, j))

            def inst(ex, s, k):
                ob = s.wobj(po.id)
                ob.layers = ()
                ob.base = None
                ob.w_range(C64(0), ob.size, lambda s_, j, k=k: cell(s_, j, k))

            def chk(ex, s, k, where):
                return content(ex, s, po.id, lambda s_, j: cell(s_, j, k), C64(0), plen, where, "data")
            bufs = [t.ptr(i, C64(0)) for i, ob in st.mem.items() if ob.meta == "vecbuf" and ob.alive and i != self.ivbuf]
            return PosLoop("apply", plen, [1, 16], [t.ptr(po.id, C64(0))] + bufs, inst, chk, {po.id})
        ex.merge_calls = True
        ex.loop_hook = LoopEngine([gen, app] if which != "ks" else [gen])
        v = ex.new_obj(st, 24, "result")
        vp = t.ptr(v.id, C64(0))
        pp = t.ptr(po.id, C64(0))
        w = "%s%d" % (which, self.bits)
        n = 0
        for oc in ex.start(st, "vf_" + w, [p, plen, vp] if which == "ks" else [p, pp, plen]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            n += 1
            if which == "ks":
                vo, vl = stdmodel.vec_parts(ex, s, vp)
                if ex.prove(s, t.eq(vl, plen), "output-length", w) and vo:
                    content(ex, s, vo, lambda s_, j: KS(j), C64(0), plen, w, "keystream-bytes")
            else:
                content(ex, s, po.id, X, C64(0), plen, w, "output-bytes")
            g = s.mem[o.id]
            ex.prove(s, t.eq(cat([g.rd(s, C64(self.off["count"] + i)) for i in range(8)]), t.add(count, C64(1))), "message-counter", w)
            ex.prove(s, TRUE if all(g.rd(s, C64(self.off["sched"] + i)) is self.rk[i] for i in range(self.nrk)) else FALSE, "key-unchanged", w)
            io, il = stdmodel.vec_parts(ex, s, t.add(p, C64(self.off["iv"])))
            ex.prove(s, t.band(*[t.eq(il, C64(16))] + [t.eq(s.mem[io].rd(s, C64(i)), ivb[i]) for i in range(16)]), "nonce-unchanged", w)
        if not n:
            raise Unsupported("no returning path")
        return [ex]
