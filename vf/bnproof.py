"""bignum<W>: word-level functions against integer arithmetic, all values, one template instance at a time."""
import re
from . import terms as t, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Unsupported
from .loops import LoopEngine
from .intpoly import IP

C64 = lambda v: const(v, 64)


def nw(W):
    return (W + 31) // 32


class Bn:
    def __init__(self, mod, dem):
        self.mod, self.dem = mod, dem

    def fn(self, cls, name):
        for n, d in self.dem.items():
            if re.search(r"(^|\s)%s::%s\(" % (re.escape(cls), name), d):
                return n
        raise Unsupported("no entry point %s::%s" % (cls, name))

    def mk(self):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)
        ex.loop_hook = LoopEngine([])
        return ex, State(ex)

    def num(self, ex, st, nm, n, ro=False):
        """an object of n words with arbitrary contents"""
        o = ex.new_obj(st, 4 * n, nm)
        ws = [t.var("%s%d" % (nm, i), 32) for i in range(n)]
        o.w_conc(0, [t.extract(w, 8 * k + 7, 8 * k) for w in ws for k in range(4)])
        o.ro = ro
        return t.ptr(o.id, C64(0)), ws

    def rd(self, ex, st, p, n):
        return [ex.load(st, t.add(p, C64(4 * i)), 4, "result") for i in range(n)]

    def poly(self, ex, st, ip, a, b, kind, where):
        """obligation: the integer polynomials a and b are equal"""
        d = ip.sub(a, b)
        ex.oblig += 1
        ex.obkinds[kind] = ex.obkinds.get(kind, 0) + 1
        if not d:
            ex.discharged += 1
            return True
        from .exec import Failure
        ex.failures.append(Failure(kind, where, "difference of the integer polynomials has %d terms" % len(d), None, st, "unknown"))
        return False

    def one(self, ex, st, f, args, where):
        outs = ex.start(st, f, args)
        rets = [o for o in outs if o.kind == "ret"]
        for o in outs:
            if o.kind != "ret":
                ex.prove(o.st, FALSE, "no-throw", where)
        if not rets:
            raise Unsupported("no returning path")
        return rets

    def flag(self, x):
        return x if x.w == 1 else t.extract(x, 0, 0)

    # -- arithmetic
    def arith(self, W, op):
        N = nw(W)
        cls = "Use<%dul>" % W
        ex, st = self.mk()
        w = "bignum<%d> %s" % (W, op)
        inplace = op in ("addto", "subfrom")
        a, A = self.num(ex, st, "a", N, not inplace)
        b, B = self.num(ex, st, "b", N, True)
        ip = IP()
        pa, pb = ip.words(A), ip.words(B)
        no = {"add": N, "sub": N, "mul": 2 * N if 2 * W > 32 else 2, "square": nw(2 * W), "mulw": nw(W + 32)}.get(op, 0)
        no = {"mul": nw(2 * W)}.get(op, no)
        o, _ = self.num(ex, st, "o", max(no, 1))
        m = t.var("m", 32)
        args = {"add": [a, b, o], "sub": [a, b, o], "mul": [a, b, o], "square": [a, o], "mulw": [a, m, o], "addto": [a, b], "subfrom": [a, b], "lt": [a, b]}[op]
        for oc in self.one(ex, st, self.fn(cls, op), args, w):
            s = oc.st
            if op in ("add", "sub", "addto", "subfrom"):
                r = ip.words(self.rd(ex, s, a if inplace else o, N))
                f = ip.val(self.flag(oc.val))[0]
                sg = 1 if op in ("add", "addto") else -1
                # out + 2^W carry = a + b ;  out - 2^W borrow = a - b
                self.poly(ex, s, ip, ip.add(r, ip.scale(f, sg << (32 * N))), ip.add(pa, ip.scale(pb, sg)), "exact-result-and-carry", w)
                ex.prove(s, t.ule(oc.val, const(1, oc.val.w)), "flag-is-0-or-1", w)
            elif op == "lt":
                self.borrow(ex, s, ip, A, B, oc.val, w)
            else:
                r = ip.words(self.rd(ex, s, o, no))
                want = ip.mul(pa, pb) if op == "mul" else ip.mul(pa, pa) if op == "square" else ip.mul(pa, ip.val(m)[0])
                self.poly(ex, s, ip, r, want, "exact-product", w)
        return [ex]

    def borrow(self, ex, st, ip, A, B, got, where):
        """got = [A < B]: the borrow out of the subtraction chain, whose outputs lie in [0, 2^32)"""
        c, total = {}, {}
        for i, (x, y) in enumerate(zip(A, B)):
            d = ip.sub(ip.sub(ip.val(x)[0], ip.val(y)[0]), c)
            lo, hi = -(1 << 32), (1 << 32) - 1
            f, _, _ = ip.floor(d, lo, hi, 32)
            total = ip.add(total, ip.scale(ip.sub(d, ip.scale(f, 1 << 32)), 1 << (32 * i)))
            c = ip.scale(f, -1)
        self.poly(ex, st, ip, ip.sub(total, ip.scale(c, 1 << (32 * len(A)))), ip.sub(ip.words(A), ip.words(B)), "borrow-lemma", where)
        if not ip.sub(ip.val(self.flag(got))[0], c):
            return self.poly(ex, st, ip, ip.val(self.flag(got))[0], c, "less-than", where)
        return ex.prove(st, t.eq(self.flag(got), t.ult(t.concat(A[::-1]), t.concat(B[::-1]))), "less-than", where)

    # -- bitwise functions
    def bits(self, W, op):
        N = nw(W)
        cls = "Use<%dul>" % W
        w = "bignum<%d> %s" % (W, op)
        exs = []

        def run(args, check, mut=True):
            ex, st = self.mk()
            a, A = self.num(ex, st, "a", N, not mut)
            b, B = self.num(ex, st, "b", N, op != "swap")
            o, _ = self.num(ex, st, "o", N)
            for oc in self.one(ex, st, self.fn(cls, op), args(ex, st, a, b, o), w):
                check(ex, oc.st, oc.val, a, A, b, B, o)
            exs.append(ex)

        def same(ex, st, got, want, kind):
            for x, y in zip(got, want):
                ex.prove(st, t.eq(x, y), kind, w)
        x32 = lambda v: const(v, 32)
        if op == "eq":
            run(lambda ex, st, a, b, o: [a, b], lambda ex, s, v, a, A, b, B, o: ex.prove(s, t.eq(self.flag(v), t.eq(t.concat(A), t.concat(B))), "equality", w), False)
        elif op == "shr1":
            run(lambda ex, st, a, b, o: [a], lambda ex, s, v, a, A, b, B, o: same(ex, s, self.rd(ex, s, a, N),
                [t.concat([t.extract(A[i + 1], 0, 0) if i + 1 < N else const(0, 1), t.extract(A[i], 31, 1)]) for i in range(N)], "half"))
        elif op == "shlw":
            for k in (range(N + 1) if N <= 16 else sorted({0, 1, 2, N // 2, N - 1, N})):
                run(lambda ex, st, a, b, o: [a, C64(k)], lambda ex, s, v, a, A, b, B, o: same(ex, s, self.rd(ex, s, a, N), [A[i - k] if i >= k else x32(0) for i in range(N)], "word-shift"))
        elif op == "neg":
            run(lambda ex, st, a, b, o: [a], lambda ex, s, v, a, A, b, B, o: same(ex, s, self.rd(ex, s, a, N), [t.bnot(x) for x in A], "complement"))
        elif op == "bxor":
            run(lambda ex, st, a, b, o: [a, b, o], lambda ex, s, v, a, A, b, B, o: same(ex, s, self.rd(ex, s, o, N), [t.bxor(x, y) for x, y in zip(A, B)], "xor"), False)
        elif op in ("xoreq", "andeq"):
            g = t.bxor if op == "xoreq" else t.band
            run(lambda ex, st, a, b, o: [a, b], lambda ex, s, v, a, A, b, B, o: same(ex, s, self.rd(ex, s, a, N), [g(x, y) for x, y in zip(A, B)], op))
        elif op in ("bit", "setbit", "clrbit"):
            n = t.zext(t.var("n", max(1, (32 * N - 1).bit_length())), 64)

            def args(ex, st, a, b, o):
                st.assume(t.ult(n, C64(32 * N)))
                return [a, n]
            sh = t.shl(const(1, 32), t.extract(t.urem(n, C64(32)), 31, 0)) if False else t.shl(const(1, 32), t.zext(t.extract(n, 4, 0), 32))

            def chk(ex, s, v, a, A, b, B, o):
                if op == "bit":
                    x = t.concat(A[::-1])
                    for i in range(N):
                        s2 = s.fork()
                        s2.assume(t.eq(t.lshr(n, C64(5)), C64(i)))
                        if s2.feasible():
                            ex.prove(s2, t.eq(v, t.band(t.lshr(A[i], t.zext(t.extract(n, 4, 0), 32)), const(1, 32))), "bit", w)
                    return
                for i, x in enumerate(self.rd(ex, s, a, N)):
                    here = t.eq(t.lshr(n, C64(5)), C64(i))
                    y = t.bor(A[i], sh) if op == "setbit" else t.band(A[i], t.bnot(sh))
                    ex.prove(s, t.eq(x, t.ite(here, y, A[i])), op, w)
            run(args, chk, op != "bit")
        elif op == "swap":
            f = t.var("f", 1)

            def chk(ex, s, v, a, A, b, B, o):
                same(ex, s, self.rd(ex, s, a, N), [t.ite(f, y, x) for x, y in zip(A, B)], "swap")
                same(ex, s, self.rd(ex, s, b, N), [t.ite(f, x, y) for x, y in zip(A, B)], "swap")
            run(lambda ex, st, a, b, o: [f, a, b], chk)
        elif op in ("assign", "make"):
            m = t.var("m", 32)
            run(lambda ex, st, a, b, o: [o, m], lambda ex, s, v, a, A, b, B, o: same(ex, s, self.rd(ex, s, o, N), [m] + [x32(0)] * (N - 1), "value"))
        elif op == "words":
            run(lambda ex, st, a, b, o: [a, o], lambda ex, s, v, a, A, b, B, o: same(ex, s, self.rd(ex, s, o, N), A[::-1], "words"), False)
        elif op == "out":
            vec = {}

            def args(ex, st, a, b, o):
                q = ex.new_obj(st, 24, "vector")
                vec["p"] = t.ptr(q.id, C64(0))
                return [a, vec["p"]]

            def chk(ex, s, v, a, A, b, B, o):
                oid, n = stdmodel.vec_parts(ex, s, vec["p"])
                if ex.prove(s, t.eq(n, C64(4 * N)), "byte-count", w):
                    same(ex, s, [s.mem[oid].rd(s, C64(i)) for i in range(4 * N)], [t.extract(A[i // 4], 8 * (i % 4) + 7, 8 * (i % 4)) for i in range(4 * N)], "bytes")
            run(args, chk, False)
        elif op == "bytes":
            # any length up to and beyond the capacity: every length to W/8 + 3, by cases
            D = [t.var("d%d" % i, 8) for i in range(4 * N + 3)]
            for n in (range(4 * N + 4) if N <= 8 else sorted({0, 1, 2, 3, 4, 5, 2 * N + 1, 4 * N - 4, 4 * N - 3, 4 * N - 2, 4 * N - 1, 4 * N, 4 * N + 1, 4 * N + 3})):
                def args(ex, st, a, b, o):
                    q = ex.new_obj(st, n, "data")
                    q.w_conc(0, D[:n])
                    q.ro = True
                    return [t.ptr(q.id, C64(0)), C64(n), o]
                E = D[:n] + [const(0, 8)] * (4 * N)
                run(args, lambda ex, s, v, a, A, b, B, o: same(ex, s, self.rd(ex, s, o, N), [t.concat(E[4 * i:4 * i + 4][::-1]) for i in range(N)], "value"))
        else:
            raise Unsupported(op)
        return exs

    def conv(self, W, K):
        """bignum<W>(bignum<K>): the value modulo 2^(32 words)"""
        ex, st = self.mk()
        a, A = self.num(ex, st, "a", nw(K), True)
        o, _ = self.num(ex, st, "o", nw(W))
        w = "bignum<%d>(bignum<%d>)" % (W, K)
        for oc in self.one(ex, st, self.fn("Conv<%dul, %dul>" % (W, K), "conv"), [a, o], w):
            for i, x in enumerate(self.rd(ex, oc.st, o, nw(W))):
                ex.prove(oc.st, t.eq(x, A[i] if i < nw(K) else const(0, 32)), "value", w)
        return [ex]

    def slice(self, W, K):
        exs = []
        for k in range(0, nw(W) - nw(K) + 1, max(1, (nw(W) - nw(K)) // 8)):
            ex, st = self.mk()
            a, A = self.num(ex, st, "a", nw(W), True)
            o, _ = self.num(ex, st, "o", nw(K))
            w = "bignum<%d>::slice<%d>(%d)" % (W, K, 32 * k)
            for oc in self.one(ex, st, self.fn("Slice<%dul, %dul>" % (W, K), "slice"), [a, C64(32 * k), o], w):
                for i, x in enumerate(self.rd(ex, oc.st, o, nw(K))):
                    ex.prove(oc.st, t.eq(x, A[i + k]), "value", w)
            exs.append(ex)
        return exs


ARITH = ("add", "sub", "addto", "subfrom", "mul", "square", "mulw", "lt")
BITS = ("eq", "shr1", "shlw", "neg", "bxor", "xoreq", "andeq", "bit", "setbit", "clrbit", "swap", "assign", "make", "words", "out", "bytes")
WIDTHS = (32, 64, 160, 256, 512, 1024, 2048, 4096)
CONVS = ((64, 32), (32, 64), (513, 256), (256, 513), (256, 512), (64, 33), (8193, 4096), (4096, 8193), (2048, 1024), (100, 100), (100, 70))
SLICES = ((512, 256), (288, 256), (64, 32), (8192, 4096), (256, 128))
