"""Curve25519 field and ladder: every function of x25519.h against arithmetic modulo p = 2^255 - 19.

A field element is any 256-bit number; a contract's result is a fresh number congruent to the polynomial of its operands (coefficients
modulo p), nothing more.  Congruence of two polynomials: every coefficient of the difference is divisible by p."""
import re
from . import terms as t
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Unsupported, Outcome, Failure
from .bnproof import C64
from .bnhigh import Hi, HiLoop

P = 2 ** 255 - 19
ONE = {(): 1}
E_ = r"Caligo::ec_value"


class Ec(Hi):
    def nf(self, p):
        return {m: c % P for m, c in self.ip.reduce(p).items() if c % P}

    def element(self, st, nm, p):
        """a fresh 256-bit number congruent to p"""
        self.qn += 1
        d = self.ip.add(self.nf(p), self.ip.scale(self.ip.ghost("q%d" % self.qn), P))
        x = self.fresh(nm, 256, d)
        self.know(st, (d, ">="), (self.ip.add(d, self.ip.const(-(1 << 256))), "<"))
        return x

    def begin(self, templates=()):
        ex, st = self.mk(templates)
        self.qn = 0
        return ex, st

    def el(self, st, nm, ro=True):
        return self.num(st, nm, 8, ro)

    def is_cong(self, st, a, b, span=range(-6, 7)):
        d = self.ip.sub(a, b)
        if not self.nf(d):
            return True
        for k in span:
            if self.ask(st, lambda z: z.poly(d) == k * P, 10) == "unsat":
                return True
        return False

    def cong(self, st, a, b, kind, where, span=range(-6, 7)):
        ex = self.ex
        ex.oblig += 1
        ex.obkinds[kind] = ex.obkinds.get(kind, 0) + 1
        if self.is_cong(st, a, b, span):
            ex.discharged += 1
            return True
        ex.failures.append(Failure(kind, where, "not shown congruent modulo 2^255-19", None, st, "unknown"))
        return False

    # -- contracts of the field operations
    def oncall(self, ex, pat, h):
        r = re.compile(pat)

        def hd(ex, st, name, args, where):
            self.cur = name
            sret = self.mod.funcs[name].ret.k == "void"
            return h(st, args, sret, where)
        ex.contracts.insert(0, (lambda n, d: bool(r.search(d)), hd))

    def field(self, ex, without=()):
        """contracts of the field operations except those under proof"""
        def bin_(f):
            def h(st, args, sret, where):
                r, a, b = args
                A, B = [self.nf(self.val(self.get(st, x, 8, where))) for x in (a, b)]
                return [self.give(st, r, self.by(self.element(st, "fe", f(A, B))), where)]
            return h

        def mulw(st, args, sret, where):
            r, a, b = args
            A = self.nf(self.val(self.get(st, a, 8, where)))
            return [self.give(st, r, self.by(self.element(st, "fe", self.ip.mul(A, self.val(b)))), where)]

        def sq(st, args, sret, where):
            r, a = args
            A = self.nf(self.val(self.get(st, a, 8, where)))
            return [self.give(st, r, self.by(self.element(st, "fe", self.ip.mul(A, A))), where)]

        def canon(st, args, sret, where):
            A = self.val(self.get(st, args[0], 8, where))
            self.qn += 1
            d = self.ip.add(self.nf(A), self.ip.scale(self.ip.ghost("q%d" % self.qn), P))
            x = self.fresh("canon", 256, d)
            self.know(st, (d, ">="), (self.ip.add(d, self.ip.const(-P)), "<"))
            self.put(st, args[0], x)
            return [Outcome("ret", st, None)]
        ip = self.ip
        cs = {"add": (r"operator\+\(%s const&, %s const&\)" % (E_, E_), bin_(lambda a, b: ip.add(a, b))),
              "sub": (r"operator-\(%s const&, %s const&\)" % (E_, E_), bin_(lambda a, b: ip.sub(a, b))),
              "mul": (r"operator\*\(%s const&, %s const&\)" % (E_, E_), bin_(lambda a, b: ip.mul(a, b))),
              "mulw": (r"operator\*\(%s const&, unsigned int\)" % E_, mulw),
              "square": (r"ec_value::square\(\)", sq),
              "canon": (r"ec_value::applyModulus\(\)", canon)}
        for k, (pat, h) in cs.items():
            if k not in without:
                self.oncall(ex, pat, h)

    def outs(self, ex, st, f, args, w):
        got = []
        for oc in ex.start(st, f, args):
            if oc.kind != "ret":
                if self.ask(oc.st, lambda z: z.z3.BoolVal(False), 5) != "unsat":
                    ex.prove(oc.st, FALSE, "no-throw", w)
                continue
            if self.ask(oc.st, lambda z: z.z3.BoolVal(False), 5) == "unsat":
                continue
            got.append(oc)
        if not got:
            raise Unsupported("no returning path")
        return got

    def op(self, what):
        """add | sub | mul | mulw | square"""
        ex, st = self.begin()
        # each operation is proved over the others it uses (square over *, * over +, ...), never over itself
        order = ["add", "sub", "mulw", "mul", "square"]
        self.field(ex, without=set(order[order.index(what):]) | {"canon"})
        ip = self.ip
        w = "ec_value " + what
        a, A = self.el(st, "a")
        b, B = self.el(st, "b")
        o, _ = self.el(st, "o", False)
        m = t.var("m", 32)
        pa, pb, pm = ip.val(A)[0], ip.val(B)[0], ip.val(m)[0]
        args = [a, m, o] if what == "mulw" else [a, o] if what == "square" else [a, b, o]
        want = {"add": ip.add(pa, pb), "sub": ip.sub(pa, pb), "mul": ip.mul(pa, pb), "mulw": ip.mul(pa, pm), "square": ip.mul(pa, pa)}[what]
        for oc in self.outs(ex, st, "vf_" + what, args, w):
            r = self.val(self.get(oc.st, o, 8))
            self.cong(oc.st, r, want, "congruent-modulo-p", w)
        return [ex]

    def canon(self):
        ex, st = self.begin()
        w = "ec_value::applyModulus"
        a, A = self.el(st, "a", False)
        for oc in self.outs(ex, st, "vf_canon", [a], w):
            r = self.val(self.get(oc.st, a, 8))
            self.cong(oc.st, r, self.ip.val(A)[0], "congruent-modulo-p", w)
            self.claim(oc.st, lambda z: z.z3.And(z.poly(r) >= 0, z.poly(r) < P), "canonical", w)
        return [ex]

    def cmp(self, what):
        ex, st = self.begin()
        self.field(ex)
        w = "ec_value " + what
        a, A = self.el(st, "a")
        b, B = self.el(st, "b")
        pa, pb = self.ip.val(A)[0], self.ip.val(B)[0]
        for oc in self.outs(ex, st, "vf_" + what, [a, b], w):
            v = oc.val if oc.val.w == 1 else t.extract(oc.val, 0, 0)
            s = oc.st

            def goal(z):
                z3 = z.z3
                x, y = z.poly(pa), z.poly(pb)
                f = z.term(v) == 1
                cl = []
                # the residues of numbers below 2^256 are x - i p with i = 0, 1, 2
                for i in range(3):
                    for j in range(3):
                        rx, ry = x - i * P, y - j * P
                        inr = z3.And(rx >= 0, rx < P, ry >= 0, ry < P)
                        cl.append(z3.Implies(inr, f == {"eq": rx == ry, "ne": rx != ry, "lt": rx < ry}[what]))
                return z3.And(cl)
            self.claim(s, goal, "comparison-of-residues", w)
        return [ex]

    def clamp(self):
        ex, st = self.begin()
        w = "ec_value::normalize"
        a, A = self.el(st, "a", False)
        for oc in self.outs(ex, st, "vf_clamp", [a], w):
            r = self.get(oc.st, a, 8)
            ex.prove(oc.st, t.eq(r, self.clamped(A)), "clamped-scalar", w)
        return [ex]

    def clamped(self, A):
        return t.concat([const(1, 2), t.extract(A, 253, 3), const(0, 3)])

    def swap(self):
        exs = []
        for f in (0, 1):
            ex, st = self.begin()
            w = "ctime_swap(ec_value)"
            a, A = self.el(st, "a", False)
            b, B = self.el(st, "b", False)
            for oc in self.outs(ex, st, "vf_swap", [const(f, 1), a, b], w):
                x, y = self.get(oc.st, a, 8), self.get(oc.st, b, 8)
                ex.prove(oc.st, t.band(t.eq(x, B if f else A), t.eq(y, A if f else B)), "swap", w)
            exs.append(ex)
        return exs

    # -- inverse: every value is a power of z
    def inverse(self):
        ex, st = self.begin()
        w = "inverse(ec_value)"
        a, A = self.el(st, "z")
        o, _ = self.el(st, "o", False)
        exps = {A: 1}

        def power(st, r, e, where):
            x = t.fresh("zp", 256)
            exps[x] = e
            return [self.give(st, r, self.by(x), where)]

        def of(st, p, where):
            x = self.get(st, p, 8, where)
            if x not in exps:
                raise Unsupported("operand is not a power of z")
            return exps[x]
        self.oncall(ex, r"operator\*\(%s const&, %s const&\)" % (E_, E_), lambda st, args, sret, where: power(st, args[0], of(st, args[1], where) + of(st, args[2], where), where))
        self.oncall(ex, r"ec_value::square\(\)", lambda st, args, sret, where: power(st, args[0], 2 * of(st, args[1], where), where))
        for oc in self.outs(ex, st, "vf_inverse", [a, o], w):
            e = of(oc.st, o, w)
            # z^e = z^(p-2) for every z: equal exponents modulo p - 1, both positive
            ex.prove(oc.st, TRUE if e > 0 and (e - (P - 2)) % (P - 1) == 0 else FALSE, "exponent-is-p-2", w)
        return [ex]

    # -- the ladder
    def ladder(self):
        ex, st = self.begin([self.t_ladder])
        self.field(ex)
        ip = self.ip
        w = "X25519"
        k, K = self.el(st, "k")
        u, U = self.el(st, "u")
        o, _ = self.el(st, "o", False)
        self.u = ip.val(U)[0]
        self.kc = self.clamped(K)

        def bit(st, args, sret, where):
            p, n = args
            x = self.get(st, p, 8, where)
            ex.prove(st, t.eq(x, self.kc), "bits-of-the-clamped-scalar", where)
            ex.prove(st, t.ult(n, C64(256)), "bit-index-in-range", where)
            out = []
            for b in (0, 1):
                if isc(n):
                    kb = t.extract(self.kc, cv(n), cv(n))
                    if isc(kb) and cv(kb) != b:
                        continue
                s2 = st.fork()
                if "bit" in s2.ghost:
                    s2.ghost["bit"] = ("twice",)
                else:
                    s2.ghost["bit"] = (n, b)
                out.append(Outcome("ret", s2, const(b, self.mod.bits(self.mod.funcs[self.cur].ret))))
            return out
        self.oncall(ex, r"^Caligo::ec_value::bit\(", bit)
        self.oncall(ex, r"^Caligo::bignum<256ul>::bit\(", bit)

        def cswap(st, args, sret, where):
            c, a, b = args
            A, B = self.get(st, a, 8, where), self.get(st, b, 8, where)
            c = c if c.w == 1 else t.extract(c, 0, 0)
            if not isc(c):
                out = []
                for v in (0, 1):
                    s2 = st.fork()
                    s2.assume(c if v else t.bnot(c))
                    if s2.feasible():
                        out += cswap(s2, [const(v, 1), a, b], sret, where)
                return out
            if cv(c):
                self.put(st, a, B)
                self.put(st, b, A)
            return [Outcome("ret", st, None)]
        self.oncall(ex, r"^Caligo::ctime_swap\(bool, Caligo::(ec_value|bignum<256ul>)&", cswap)

        def inv(st, args, sret, where):
            r, a = args
            A = self.nf(self.val(self.get(st, a, 8, where)))
            self.qn += 1
            I = ip.ghost("inv%d" % self.qn)
            st.ghost["inv"] = st.ghost.get("inv", ()) + ((A, I),)
            return [self.give(st, r, self.by(self.element(st, "inv", I)), where)]
        self.oncall(ex, r"^Caligo::inverse\(Caligo::ec_value const&\)", inv)
        ex.loop_hook.force = lambda ex, st, f, H: "X25519(" in self.dem.get(f.name, "")
        for oc in self.outs(ex, st, "vf_x25519", [k, u, o], w):
            s = oc.st
            r = self.val(self.get(s, o, 8))
            lo = s.ghost.get("final")
            ex.prove(s, TRUE if lo is not None else FALSE, "all-scalar-bits-used", w)
            if lo is None:
                continue
            X, Z = lo
            ok = False
            for A, I in s.ghost.get("inv", ()):
                if not self.nf(ip.sub(A, Z)):
                    ok = True
                    self.cong(s, r, ip.mul(X, I), "x-over-z", w)
            ex.prove(s, TRUE if ok else FALSE, "inverse-of-z", w)
            self.claim(s, lambda z: z.z3.And(z.poly(r) >= 0, z.poly(r) < P), "canonical-result", w)
        return [ex]

    def t_ladder(self, ex, st, f, H, lp, env):
        vals = {}
        for i, o in st.mem.items():
            if o.alive and o.kind == "stack" and isc(o.size) and cv(o.size) == 32 and not getattr(o, "ro", False):
                try:
                    vals[i] = self.nf(self.val(self.get(st, t.ptr(i, C64(0)), 8)))
                except Exception:
                    continue
        ones = [i for i, p in vals.items() if p == ONE]
        zeros = [i for i, p in vals.items() if p == {}]
        us = [i for i, p in vals.items() if p == self.u]
        c = [(x2, z2, x3, z3) for x2 in ones for z2 in zeros for x3 in us for z3 in ones if x2 != z3]
        if not c:
            return None
        return Ladder(self, c)

    def step(self, X2, Z2, X3, Z3):
        """RFC 7748 section 5, one step: the double of the first point and the sum"""
        ip = self.ip
        mul, add, sub = ip.mul, ip.add, ip.sub
        A, B, C, D = add(X2, Z2), sub(X2, Z2), add(X3, Z3), sub(X3, Z3)
        AA, BB, DA, CB = mul(A, A), mul(B, B), mul(D, A), mul(C, B)
        E = sub(AA, BB)
        s, d = add(DA, CB), sub(DA, CB)
        return mul(AA, BB), mul(E, add(AA, ip.scale(E, 121665))), mul(s, s), mul(self.u, mul(d, d))


class Ladder(HiLoop):
    """k bits left; memory holds the logical points (P, Q), exchanged when s = 1.  A step with bit b gives (2P, P+Q) or (P+Q, 2Q)."""
    name = "ladder"

    def __init__(self, h, cands):
        self.h, self.cands = h, cands
        self.man = set()

    def modes(self):
        return [(c, m) for c in self.cands for m in ("lazy", "eager")]

    def drivers(self, ex, st, v, mode):
        return []

    def memdrivers(self, ex, st, mode):
        self.man = set(mode[0])

        def fn(s):
            bt = s.ghost.get("bit")
            if bt is None or bt[0] == "twice":
                return None
            return self.g(bt[0], bt[1] if mode[1] == "lazy" else 0)
        return [("k%d" % n, self.g(C64(n), 0), fn) for n in (256, 255)]

    def g(self, k, s):
        return {"k": k, "s": s, "m": t.sub(C64(300), k)}

    def invert(self, g, b):
        return None

    def ghosts(self, ex, st, mode):
        out = []
        for s in (0, 1) if mode[1] == "lazy" else (0,):
            k = t.zext(t.fresh("left", 9), 64)
            out.append((self.g(t.add(k, C64(1)), s), [t.ult(k, C64(256))]))
            out.append((self.g(C64(0), s), []))
        return out

    def phi_cands(self, ex, st, mode):
        c = [("left", lambda g: g["k"]), ("left-1", lambda g: t.sub(g["k"], C64(1))), ("left32", lambda g: t.extract(g["k"], 31, 0)), ("index32", lambda g: t.extract(t.sub(g["k"], C64(1)), 31, 0))]
        return c + [("swap%d" % w, lambda g, w=w: const(g["s"], w)) for w in (1, 8, 32)]

    def enter(self, g):
        self.cur = g

    def order(self, mode, s):
        a, b, c, d = mode[0]
        return (c, d, a, b) if s else (a, b, c, d)

    def apply(self, ex, st, g, mode):
        h = self.h
        h.qn += 1
        G = [h.ip.ghost("%s%d" % (n, h.qn)) for n in ("X2", "Z2", "X3", "Z3")]
        st.ghost["L"] = G
        st.ghost.pop("bit", None)
        if isc(g["k"]) and cv(g["k"]) == 0:
            st.ghost["final"] = (G[0], G[1])
        else:
            st.ghost.pop("final", None)
        for o, p in zip(self.order(mode, g["s"]), G):
            h.put(st, t.ptr(o, C64(0)), h.element(st, "lad", p))

    def gconds(self, ex, st, g, mode):
        return [("range", t.ule(g["k"], C64(256)))]

    def conds(self, ex, st, g, mode):
        h = self.h

        def ok(s):
            got = [h.nf(h.val(h.get(s, t.ptr(o, C64(0)), 8))) for o in self.order(mode, g["s"])]
            if "L" not in s.ghost:
                want = [ONE, {}, h.u, ONE]
            else:
                if not ex.prove(s, t.eq(g["k"], t.sub(self.cur["k"], C64(1))), "loop-invariant", "ladder: next bit"):
                    return False
                b = s.ghost["bit"][1]
                X2, Z2, X3, Z3 = s.ghost["L"]
                if b:
                    d = h.step(X3, Z3, X2, Z2)
                    want = [d[2], d[3], d[0], d[1]]
                else:
                    want = list(h.step(X2, Z2, X3, Z3))
            return all([h.cong(s, x, y, "loop-invariant", "ladder: " + n, ()) for x, y, n in zip(got, want, ("x2", "z2", "x3", "z3"))])
        return [("points", ok)]
