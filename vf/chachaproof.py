"""ChaCha20 (RFC 8439): block function for all states, stream position as the object's ghost state.
CC(c, i) is byte i of the key stream block with counter c under this object's key and nonce."""
import re
from . import terms as t, stdmodel, layout, specs
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported
from .loops import LoopEngine
from .stream import PosLoop, content
from .aesproof import eqwords
from .gcmproof import C64, bts, cat

SIGMA = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]


def block(words):
    w = list(words)

    def qr(a, b, c, d):
        w[a] = t.add(w[a], w[b]); w[d] = specs.rotl(t.bxor(w[d], w[a]), 16)
        w[c] = t.add(w[c], w[d]); w[b] = specs.rotl(t.bxor(w[b], w[c]), 12)
        w[a] = t.add(w[a], w[b]); w[d] = specs.rotl(t.bxor(w[d], w[a]), 8)
        w[c] = t.add(w[c], w[d]); w[b] = specs.rotl(t.bxor(w[b], w[c]), 7)
    for _ in range(10):
        for q in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            qr(*q)
    return sum([bts(t.add(a, b)) for a, b in zip(w, words)], [])


class ChaCha:
    def __init__(self, mod, dem, lay):
        self.mod, self.dem = mod, dem
        cls = [k for k in lay if re.match(r"(Caligo::)?ChaCha20$", k)]
        if not cls:
            raise Unsupported("no layout for ChaCha20")
        self.size, fs = layout.fields(lay, cls[0])
        self.off = {}
        for o, ty, nm, ind in fs:
            ty = ty.replace(" ", "")
            if ty in ("uint32_t[16]", "unsignedint[16]"):
                self.off["state"] = o
            elif ty in ("uint8_t[64]", "unsignedchar[64]"):
                self.off["buffer"] = o
            elif ty in ("uint8_t", "unsignedchar"):
                self.off["offset"] = o
        if len(self.off) != 3:
            raise Unsupported("fields of ChaCha20 not recognised")
        self.W = [const(x, 32) for x in SIGMA] + [t.var("key%d" % i, 32) for i in range(8)] + [None] + [t.var("nonce%d" % i, 32) for i in range(3)]

    def CC(self, c, i):
        return t.uf("CC", [c, i], 8)

    def mk(self, contract=True):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)
        ex.loop_hook = LoopEngine([])

        def gen(ex, st, name, args, where):
            p = args[0]
            ex.access(st, st.mem[p.a[0]], p.a[1], self.size, where, True)
            rd = lambda i: cat([st.mem[p.a[0]].rd(st, t.add(p.a[1], C64(self.off["state"] + 4 * i + b))) for b in range(4)])
            c = rd(12)
            for i in range(16):
                if i != 12:
                    ex.prove(st, t.eq(rd(i), self.W[i]), "state-words", where)
            self.install(st, p.a[0], t.add(c, const(1, 32)), const(0, 8))
            return [Outcome("ret", st, None)]
        if contract:
            ex.contracts.insert(0, (lambda n, d: bool(re.search(r"ChaCha20::GenerateBlock\(", d)), gen))
        return ex

    def install(self, st, oid, c, off):
        """next counter c, current block c-1, position off in it"""
        o = st.wobj(oid)
        o.w_conc(self.off["state"] + 48, bts(c))
        o.w_conc(self.off["offset"], [off])
        pc = t.sub(c, const(1, 32))
        o.w_range(C64(self.off["buffer"]), C64(64), lambda s_, j: self.CC(pc, t.extract(j, 7, 0)))

    def check(self, ex, st, oid, c, off, where):
        o = st.mem[oid]
        rd = lambda a, n: cat([o.rd(st, C64(a + b)) for b in range(n)])
        ok = True
        for i in range(16):
            ok = ex.prove(st, t.eq(rd(self.off["state"] + 4 * i, 4), c if i == 12 else self.W[i]), "state-words", where) and ok
        ok = ok and ex.prove(st, t.eq(rd(self.off["offset"], 1), off), "position-in-block", where)
        pc = t.sub(c, const(1, 32))
        B = self.off["buffer"]
        return ok and content(ex, st, oid, lambda s_, j: self.CC(pc, t.extract(t.sub(j, C64(B)), 7, 0)), C64(B), C64(B + 64), where, "block")

    def full(self, st, o):
        for i in range(16):
            if i != 12:
                o.w_conc(self.off["state"] + 4 * i, bts(self.W[i]))

    def prove_block(self):
        ex = self.mk(False)
        st = State(ex)
        o = ex.new_obj(st, self.size, "chacha")
        W = [t.var("s%d" % i, 32) for i in range(16)]
        for i in range(16):
            o.w_conc(self.off["state"] + 4 * i, bts(W[i]))
        n = 0
        for oc in ex.start(st, "vf_block", [t.ptr(o.id, C64(0))]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", "GenerateBlock")
                continue
            n += 1
            g = oc.st.mem[o.id]
            got = [g.rd(oc.st, C64(self.off["buffer"] + i)) for i in range(64)]
            eqwords(ex, oc.st, got, block(W), "key-stream-block", "GenerateBlock")
            for i in range(16):
                ex.prove(oc.st, t.eq(cat([g.rd(oc.st, C64(self.off["state"] + 4 * i + b)) for b in range(4)]),
                                     t.add(W[12], const(1, 32)) if i == 12 else W[i]), "next-state", "GenerateBlock")
            ex.prove(oc.st, t.eq(g.rd(oc.st, C64(self.off["offset"])), const(0, 8)), "position", "GenerateBlock")
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    def prove_ctor(self):
        kb = [t.uf("KEY", [C64(i)], 8) for i in range(32)]
        nb = [t.uf("NONCE", [C64(i)], 8) for i in range(12)]
        self.W = self.W[:4] + [cat(kb[4 * i:4 * i + 4]) for i in range(8)] + [None] + [cat(nb[4 * i:4 * i + 4]) for i in range(3)]
        ex = self.mk()
        st = State(ex)
        kl, il = t.zext(t.var("klen", 61), 64), t.zext(t.var("nlen", 61), 64)
        ko = ex.new_obj(st, kl, "key", base=lambda s_, j: t.uf("KEY", [j], 8))
        io = ex.new_obj(st, il, "nonce", base=lambda s_, j: t.uf("NONCE", [j], 8))
        o = ex.new_obj(st, self.size, "chacha")
        good = t.band(t.eq(kl, C64(32)), t.eq(il, C64(12)))
        n = 0
        for oc in ex.start(st, "vf_ctor", [t.ptr(o.id, C64(0)), t.ptr(ko.id, C64(0)), kl, t.ptr(io.id, C64(0)), il]):
            if oc.kind != "ret":
                ex.prove(oc.st, t.bnot(good), "valid-sizes-accepted", "constructor")
                continue
            n += 1
            if ex.prove(oc.st, good, "wrong-sizes-refused", "constructor"):
                self.check(ex, oc.st, o.id, const(2, 32), const(0, 8), "constructor")
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    def stream(self, fn):
        ex = self.mk()
        st = State(ex)
        c = t.var("ctr", 32)
        o6 = t.var("off", 6)
        off = t.zext(o6, 8)
        P = lambda s_, j: t.uf("P", [j], 8)
        plen = t.zext(t.var("plen", 61), 64)
        o = ex.new_obj(st, self.size, "chacha")
        self.full(st, o)
        self.install(st, o.id, c, off)
        po = ex.new_obj(st, plen, "data", base=P)
        pos = lambda j: t.add(j, t.zext(o6, 64))
        cnt = lambda j: t.add(c, t.extract(pos(j), 37, 6))
        X = lambda s_, j: t.bxor(P(s_, j), self.CC(t.sub(cnt(j), const(1, 32)), t.zext(t.extract(pos(j), 5, 0), 8)))
        cell = lambda s, j, k: t.ite(t.ult(j, k), X(s, j), P(s, j))

        def tmpl(ex, st, f, H, lp, env):
            def inst(ex, s, k):
                d = s.wobj(po.id)
                d.layers = ()
                d.base = None
                d.w_range(C64(0), d.size, lambda s_, j, k=k: cell(s_, j, k))
                self.install(s, o.id, cnt(k), t.zext(t.extract(pos(k), 5, 0), 8))

            def chk(ex, s, k, where):
                return self.check(ex, s, o.id, cnt(k), t.zext(t.extract(pos(k), 5, 0), 8), where) and \
                    content(ex, s, po.id, lambda s_, j: cell(s_, j, k), C64(0), plen, where, "data")
            return PosLoop("stream", plen, [1], [t.ptr(po.id, C64(0))], inst, chk, {po.id, o.id})
        ex.loop_hook = LoopEngine([tmpl])
        n = 0
        for oc in ex.start(st, fn, [t.ptr(o.id, C64(0)), t.ptr(po.id, C64(0)), plen]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", fn)
                continue
            n += 1
            content(ex, oc.st, po.id, X, C64(0), plen, fn, "output-bytes")
            self.check(ex, oc.st, o.id, cnt(plen), t.zext(t.extract(pos(plen), 5, 0), 8), fn)
        if not n:
            raise Unsupported("no returning path")
        return [ex]
