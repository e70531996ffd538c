"""CRC-32: state after k bytes is C(k), C(0) = all ones, C(k+1) = step(C(k), M(k))."""
from . import terms as t, smt, sweep, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported, Failure
from .loops import LoopEngine
from .stream import PosLoop
from .mdhash import M, HashProof


def step(c, b):
    c = t.bxor(c, t.zext(b, 32))
    for _ in range(8):
        c = t.bxor(t.lshr(c, const(1, 32)), t.ite(t.extract(c, 0, 0), const(0xEDB88320, 32), const(0, 32)))
    return c


C = lambda k: const(0xFFFFFFFF, 32) if isc(k) and cv(k) == 0 else t.uf("C", [k], 32)


class CrcProof(HashProof):
    def __init__(self, mod, dem, size):
        self.mod, self.dem, self.cls, self.size = mod, dem, "Caligo::CRC32", size
        self.exs = []

        class L:
            pass
        self.lo = L()
        self.lo.size = size

    def word(self, ex, st, oid):
        return ex.load(st, t.ptr(oid, const(0, 64)), 4)

    def install(self, st, oid, p):
        o = st.wobj(oid)
        w = C(p)
        o.w_conc(0, [t.extract(w, 8 * k + 7, 8 * k) for k in range(4)])

    def check(self, ex, st, oid, p, where):
        h = self.word(ex, st, oid)
        for _ in range(17):
            if h.op == "uf" and h.a[0] == "C":
                return ex.prove(st, t.eq(h.a[1], p), "crc-value", where)
            if isc(h) and cv(h) == 0xFFFFFFFF:
                return ex.prove(st, t.eq(p, const(0, 64)), "crc-value", where)
            xs = {}
            for u in t.topo([h]):
                if u.op == "uf" and u.a[0] == "C":
                    xs[u.a[1]] = u
            if len(xs) != 1:
                break
            x, u = next(iter(xs.items()))
            nx = t.add(x, const(1, 64))
            # one byte at a time: replace step(C(x), M(x)) by C(x+1)
            s1 = step(u, M(x))
            ok, s = sweep.equal([h], [s1], budget=30)
            if ok:
                ex.oblig += 1
                ex.discharged += 1
                h = C(nx)
                continue
            # several bytes folded together
            done = False
            cur, k = s1, 1
            while k < 16:
                cur = step(cur, M(t.add(x, const(k, 64))))
                k += 1
                ok, s = sweep.equal([h], [cur], budget=20)
                if ok:
                    h = C(t.add(x, const(k, 64)))
                    done = True
                    break
            if not done:
                break
        ex.oblig += 1
        ex.failures.append(Failure("crc-value", where, "state is not the CRC of the bytes so far", None, st, "unknown"))
        return False

    def prove_ctor(self, fn):
        ex = self.executor()
        st = State(ex)
        o = ex.new_obj(st, self.size, "this")
        for oc in ex.start(st, fn, [t.ptr(o.id, const(0, 64))]):
            self.check(ex, oc.st, o.id, const(0, 64), "constructor")
        return ex

    def prove_add(self, fn):
        ex = self.executor()
        st = State(ex)
        n, ln = t.zext(t.var("n", 62), 64), t.zext(t.var("dlen", 62), 64)
        o = ex.new_obj(st, self.size, "this")
        self.install(st, o.id, n)
        d = ex.new_obj(st, ln, "data", base=lambda s_, i: M(t.add(n, i)))
        dp = t.ptr(d.id, const(0, 64))
        hs = {}

        def inst(ex, s, k):
            self.install(s, o.id, t.add(n, k))

        def chk(ex, s, k, where):
            return self.check(ex, s, o.id, t.add(n, k), where)
        ex.loop_hook = LoopEngine([lambda *a: PosLoop("crc", ln, [1, 4, 8, 16], [dp], inst, chk, {o.id},
                                                      extra=[("h", lambda g: C(t.add(n, g["k"])))])])
        nret = 0
        for oc in ex.start(st, fn, [t.ptr(o.id, const(0, 64)), dp, ln]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", "add")
                continue
            nret += 1
            self.check(ex, oc.st, o.id, t.add(n, ln), "add")
        if not nret:
            raise Unsupported("no returning path")
        return ex

    def prove_digest(self, fn):
        ex = self.executor()
        st = State(ex)
        o = ex.new_obj(st, self.size, "this")
        h = t.var("h", 32)
        o.w_conc(0, [t.extract(h, 8 * k + 7, 8 * k) for k in range(4)])
        out = ex.new_obj(st, 4, "out")
        want = t.bnot(h)
        for oc in ex.start(st, fn, [t.ptr(o.id, const(0, 64)), t.ptr(out.id, const(0, 64))]):
            for k in range(4):
                ex.prove(oc.st, t.eq(oc.st.mem[out.id].rd(oc.st, const(k, 64)), t.extract(want, 31 - 8 * k, 24 - 8 * k)), "digest-byte", "digest byte %d" % k)
            ex.prove(oc.st, t.eq(self.word(ex, oc.st, o.id), h), "object-unchanged", "digest")
        return ex

    def prove_wrapper(self, fn, parts, ctor):
        ex = self.executor()
        an = self.add_name()
        if an is None:
            raise Unsupported("add(span) not found")
        st = State(ex)
        o = ex.new_obj(st, self.size, "this")
        n = const(0, 64) if ctor else t.zext(t.var("n", 60), 64)
        if not ctor:
            self.install(st, o.id, n)
        args = [t.ptr(o.id, const(0, 64))]
        want = []
        for k in range(parts):
            ln = t.zext(t.var("dlen%d" % k, 60), 64)
            d = ex.new_obj(st, ln, "data%d" % k, base=(lambda n: lambda s_, i: M(t.add(n, i)))(n))
            want.append((n, t.ptr(d.id, const(0, 64)), ln))
            args += [t.ptr(d.id, const(0, 64)), ln]
            n = t.add(n, ln)

        def rec(ex, s, name, a, where):
            k = s.ghost.get("calls", 0)
            s.ghost["calls"] = k + 1
            if k >= parts:
                ex.prove(s, FALSE, "extra-add-call", where)
                return [Outcome("ret", s, None)]
            p, dp, ln = want[k]
            ex.prove(s, t.band(t.eq(a[0], args[0]), t.eq(a[1], dp), t.eq(a[2], ln)), "add-arguments", where)
            self.check(ex, s, o.id, p, where)
            self.install(s, o.id, t.add(p, ln))
            return [Outcome("ret", s, None)]
        ex.contracts.insert(0, (lambda nm, d: nm == an, rec))
        for oc in ex.start(st, fn, args):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", fn)
                continue
            self.check(ex, oc.st, o.id, n, fn)
        return ex
