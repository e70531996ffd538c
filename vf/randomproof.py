"""Random fills: the bytes of the target are the little-endian bytes of consecutive generator values, cut at the target's end."""
import re
from . import terms as t, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Unsupported, Outcome
from .loops import LoopEngine, Template
from .stream import content

C64 = lambda v: const(v, 64)


def value(i):
    return t.uf("RV", [i], 64)


def rvbyte(b):
    if isc(b):
        return t.extract(value(C64(cv(b) >> 3)), 8 * (cv(b) & 7) + 7, 8 * (cv(b) & 7))
    return t.extract(t.lshr(value(t.lshr(b, C64(3))), t.concat([const(0, 58), t.extract(b, 2, 0), const(0, 3)])), 7, 0)


class FillLoop(Template):
    """k elements are filled and ceil(k/per) values used.  Modes: whole values (k may run past the end up to a multiple of per),
    cut (k is a multiple of per or the end), flat (any k; a loop variable may hold what is left of the value in use)."""
    name = "fill"

    def __init__(self, n, per, sz, p, up, install, check, managed):
        self.n, self.per, self.sz, self.p, self.up = n, per, sz, p, up
        self._install, self._check, self._managed = install, check, managed
        self.lg, self.ls = per.bit_length() - 1, sz.bit_length() - 1

    def modes(self):
        return ["whole", "cut", "flat"] if self.per > 1 else ["flat"]

    def aligned(self, k):
        return t.eq(t.band(k, C64(self.per - 1)), C64(0))

    def cond(self, k, mode):
        if mode == "whole":
            return t.band(t.ule(k, self.up), self.aligned(k))
        if mode == "cut":
            return t.band(t.ule(k, self.n), t.bor(self.aligned(k), t.eq(k, self.n)))
        return t.ule(k, self.n)

    def ghost(self, ex, st, mode):
        k = t.fresh("gk", 64)
        if mode == "whole" and self.lg:
            k = t.concat([t.fresh("gk", 64 - self.lg), const(0, self.lg)])
        return {"k": k}, [self.cond(k, mode)]

    def gconds(self, ex, st, gh, mode):
        return [("range", self.cond(gh["k"], mode))]

    def drivers(self, ex, st, v, mode):
        out = []
        if v.op == "ptr":
            if self.p.op == "ptr" and self.p.a[0] == v.a[0]:
                out.append(("ptr", lambda x: {"k": t.lshr(t.sub(x.a[1], self.p.a[1]), C64(self.ls))} if x.op == "ptr" and x.a[0] == self.p.a[0] else None))
        elif v.w == 64:
            out.append(("consumed", lambda x: {"k": x}))
            out.append(("remaining", lambda x: {"k": t.sub(self.n, x)}))
            if mode == "whole" and self.lg:
                out.append(("index", lambda x: {"k": t.shl(x, C64(self.lg))}))
        return out

    def ptr(self, k):
        return t.add(self.p, t.shl(k, C64(self.ls)))

    def invert(self, gh, b):
        k = gh["k"]
        return {"ptr": self.ptr, "consumed": lambda k: k, "remaining": lambda k: t.sub(self.n, k),
                "index": lambda k: t.lshr(k, C64(self.lg))}[b["desc"].split("~")[1].split("/")[0]](k)

    def phi_cands(self, ex, st, mode):
        K = lambda f: (lambda gh: f(gh["k"]))
        out = [("consumed", K(lambda k: k)), ("remaining", K(lambda k: t.sub(self.n, k))), ("ptr", K(self.ptr))]
        if self.lg:
            m = C64(self.per - 1)
            out += [("index", K(lambda k: t.lshr(k, C64(self.lg)))), ("calls", K(lambda k: t.lshr(t.add(k, m), C64(self.lg)))),
                    ("phase", K(lambda k: t.band(k, m)))]
            if mode == "flat":
                bits = 8 * self.sz
                last = lambda k: t.sub(k, C64(1))
                val = lambda k: value(t.lshr(last(k), C64(self.lg)))
                rest = lambda k: t.lshr(val(k), t.mul(t.add(t.band(last(k), m), C64(1)), C64(bits)))
                z = lambda f: K(lambda k: t.ite(t.eq(k, C64(0)), C64(0), f(k)))
                out += [("left", z(rest)), ("value", z(val))]
        return out

    def apply(self, ex, st, gh, mode):
        self._install(ex, st, gh["k"])

    def conds(self, ex, st, gh, mode):
        return [("state", lambda s: self._check(ex, s, gh["k"], self.name))]

    def measure(self, gh):
        return gh["k"]

    def managed(self, st):
        return self._managed


class Fill:
    def __init__(self, mod, dem):
        self.mod, self.dem = mod, dem

    def mk(self):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)

        def gen(ex, st, name, args, where):
            c = st.ghost["calls"]
            st.ghost["calls"] = t.add(c, C64(1))
            return [Outcome("ret", st, value(c))]
        ex.contracts.insert(0, (lambda n, d: bool(re.search(r"^Caligo::generate_random_value\(\)", d)), gen))
        return ex

    def fill(self, bits):
        ex = self.mk()
        st = State(ex)
        st.ghost["calls"] = C64(0)
        sz, per = bits // 8, 64 // bits
        n = t.zext(t.var("n", 48), 64)
        size = t.mul(n, C64(sz))
        old = lambda s_, j: t.uf("OLD", [j], 8)
        o = ex.new_obj(st, size, "target", base=old)
        p = t.ptr(o.id, C64(0))
        w = "generate_random(span<uint%d_t>)" % bits
        up = t.concat([t.extract(t.add(n, C64(per - 1)), 63, per.bit_length() - 1), const(0, per.bit_length() - 1)]) if per > 1 else n
        by = lambda k: t.mul(k, C64(sz))
        cell = lambda s, j, k: t.ite(t.ult(j, by(k)), rvbyte(j), old(s, j))
        calls = lambda k: t.lshr(t.add(k, C64(per - 1)), C64(per.bit_length() - 1))

        def inst(ex, s, k):
            ob = s.wobj(o.id)
            ob.layers = ()
            ob.base = None
            ob.w_range(C64(0), ob.size, lambda s_, j, k=k: cell(s_, j, k))
            s.ghost["calls"] = calls(k)

        def chk(ex, s, k, where):
            return ex.prove(s, t.eq(s.ghost["calls"], calls(k)), "values-used", where) and content(ex, s, o.id, lambda s_, j: cell(s_, j, k), C64(0), size, where, "target")
        ex.loop_hook = LoopEngine([FillLoop(n, per, sz, p, up, inst, chk, {o.id})])
        got = 0
        for oc in ex.start(st, "vf_fill%d" % bits, [p, n]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            got += 1
            content(ex, s, o.id, lambda s_, j: rvbyte(j), C64(0), size, w, "every-element-filled-in-order")
            ex.prove(s, t.eq(s.ghost["calls"], calls(up)), "no-value-skipped-or-reused", w)
        if not got:
            raise Unsupported("no returning path")
        return [ex]

    def number(self, K):
        ex = self.mk()
        st = State(ex)
        st.ghost["calls"] = C64(0)
        nb = (K + 31) // 32 * 4
        o = ex.new_obj(st, nb, "number")
        ex.loop_hook = LoopEngine([])
        w = "bignum<%d>::random" % K
        got = 0
        for oc in ex.start(st, "vf_bn%d" % K, [t.ptr(o.id, C64(0))]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            got += 1
            for b in range(nb):
                ex.prove(s, t.eq(s.mem[o.id].rd(s, C64(b)), rvbyte(C64(b))), "every-word-random", w)
        if not got:
            raise Unsupported("no returning path")
        return [ex]
