"""The Miller-Rabin test: one round for any base, the decomposition N - 1 = 2^r d, the small primes, and the search for primes.

Powers: P_i = a^(d 2^i) mod N.  A round is a walk along i with the facts "P_j is not -1 for j < m"; comparisons of residues below N are
recorded as congruences."""
import re
from . import terms as t
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Unsupported, Outcome, Abort
from .bnproof import nw, C64
from .bnhigh import HiLoop
from .montproof import Mont, ONE

PRIMES = [p for p in range(2, 7920) if all(p % q for q in range(2, int(p ** .5) + 1))]


class Prime(Mont):
    def fp(self, name):
        return self.fn("Prime<%dul>" % self.Kt, name)

    def isstate(self, st, p, where):
        if p.op != "ptr":
            return False
        g = lambda k: self.get(st, t.add(p, C64(self.so[k])), self.n, where)
        return all(g(k) is v for k, v in self.fields.items())

    def setstate(self, st, p):
        """the contract of MontgomeryState's constructor for the modulus self.Nv (C16)"""
        ip, R = self.ip, 1 << self.K
        if not hasattr(self, "fields"):
            self.Niv = t.var("Ninv", self.K)
            g = ip.ghost("g")
            self.gat = next(iter(g))[0]
            ip.rule(self.Np, ip.val(self.Niv)[0], ip.add(ip.scale(g, R), ip.const(-1)))
            self.fields = {"N": self.Nv, "Ninv": self.Niv, "R2MN": self.residue(st, "R2", ip.const(R * R))}
            self.all = dict(self.fields)
            for k, e in (("R1MN", 1), ("R3MN", 3)):
                if k in self.so:
                    self.all[k] = self.residue(st, k, ip.const(R ** e))
            self.sfacts = st.ghost["ipc"]
        for k, v in self.all.items():
            self.put(st, t.add(p, C64(self.so[k])), v)

    def start(self, K, templates=()):
        ex, st = self.begin(K, templates)
        self.W = self.K
        for k in ("ev", "par", "ne", "sp"):
            st.ghost[k] = ()
        self.Nv = t.var("N", self.K)
        self.Np = self.ip.val(self.Nv)[0]
        self.Nat = next(iter(self.Np))[0]
        return ex, st

    # -- contracts of the value operations, over any copy of the state
    def with_values(self, ex):
        V = r"^Caligo::MontgomeryValue<%dul>::" % self.Kt

        def operand(st, p, where):
            q, A = self.vget(st, p, where)
            ex.prove(st, TRUE if self.isstate(st, q, where) else FALSE, "same-modulus", where)
            self.below(st, A, "operand-reduced", where)
            return q, A

        def binop(st, args, sret, where, sq=False):
            res, args = (args[0], args[1:]) if sret else (None, args)
            q, A = operand(st, args[0], where)
            B = A if sq else operand(st, args[1], where)[1]
            self.sp = q
            return [self.vgive(st, res, self.residue(st, "mm", self.ip.mul(self.ip.mul(self.nf(A), self.nf(B)), {(self.gat,): 1})), where)]
        self.oncall(ex, V + r"operator\*\(", binop)
        self.oncall(ex, V + r"square\(\)", lambda st, args, sret, where: binop(st, args, sret, where, True))

        def ctor(st, args, sret, where):
            if len(args) != 3:
                return NotImplemented
            p, sp, x = args
            ex.prove(st, TRUE if self.isstate(st, sp, where) else FALSE, "same-modulus", where)
            v = self.residue(st, "mk", self.ip.scale(self.val(self.get(st, x, self.n, where)), 1 << self.K))
            ex.access(st, st.mem[p.a[0]], p.a[1], self.vsize, where, True)
            ex.store(st, t.add(p, C64(self.vo["state"])), sp, 8, where)
            self.put(st, t.add(p, C64(self.vo["value"])), v)
            return [Outcome("ret", st, None)]
        self.oncall(ex, V + r"MontgomeryValue\(Caligo::MontgomeryState<\d+ul> const&", ctor)

        def conv(st, args, sret, where):
            res, args = (args[0], args[1:]) if sret else (None, args)
            q, A = operand(st, args[0], where)
            return [self.give(st, res, self.by(self.residue(st, "out", self.ip.mul(self.nf(A), {(self.gat,): 1}))), where)]
        self.oncall(ex, V + r"operator Caligo::bignum<", conv)

        def exp(st, args, sret, where):
            res, args = (args[0], args[1:]) if sret else (None, args)
            q, A = operand(st, args[0], where)
            e = self.val(self.arg(st, args[1:], self.n, where)[0])
            R = 1 << self.K
            ok = self.nf(A) == self.nf(self.ip.scale(self.ap, R)) and self.nf(e) == self.nf(self.D)
            ex.prove(st, TRUE if ok else FALSE, "power-of-the-base-to-d", where)
            self.below(st, e, "exponent-is-d", where)
            self.sp = q
            return [self.vgive(st, res, self.residue(st, "pw", self.ip.scale(self.P0, R)), where)]
        self.oncall(ex, V + r"exp\(Caligo::bignum<", exp)

    def reduced(self, st, p):
        return self.ask(st, lambda z: z.z3.And(z.poly(p) >= 0, z.poly(p) < z.poly(self.Np)), 10) == "unsat"

    def c_cmp(self, st, sret, args, n, op, where):
        if op == "<" or n != self.n:
            return Mont.c_cmp(self, st, sret, args, n, op, where)
        A, B = (self.val(self.get(st, x, n, where)) for x in args)
        if self.mode == "test":
            k = [x for x in (A, B) if all(not m for m in x)]
            if self.Np in (A, B) and k:
                c = k[0].get((), 0)
                s2 = st.fork()
                st.ghost["eq"] = c
                s2.ghost["ne"] = s2.ghost["ne"] + (c,)
                return [Outcome("ret", st, const(1, 1)), Outcome("ret", s2, const(0, 1))]
            return Mont.c_cmp(self, st, sret, args, n, op, where)
        if not (self.reduced(st, A) and self.reduced(st, B)):
            return Mont.c_cmp(self, st, sret, args, n, op, where)
        d = self.nf(self.ip.sub(A, B))
        if all(not m for m in d):
            return [Outcome("ret", st, const(1 if not d else 0, 1))]
        s2 = st.fork()
        st.ghost["ev"] = st.ghost["ev"] + ((d, 1),)
        s2.ghost["ev"] = s2.ghost["ev"] + ((d, 0),)
        return [Outcome("ret", st, const(1, 1)), Outcome("ret", s2, const(0, 1))]

    # -- one round
    def powers(self, st):
        k, Z = st.ghost["base"]
        out, i = [], 0
        for i in range(4):
            out.append((t.add(k, C64(i)) if i else k, Z))
            Z = self.nf(self.ip.mul(Z, Z))
        return out

    def saw(self, st, p, yes):
        """the comparison `p is 0 modulo N` came out as yes"""
        q = self.ip.scale(p, -1)
        return any(b == yes and d in (p, q) for d, b in st.ghost["ev"])

    def refuted(self, st):
        """m such that P_i is known not to be -1 for every i < m"""
        m = st.ghost["m"]
        for i, Z in self.powers(st):
            if i is m and self.saw(st, self.nf(self.ip.add(Z, ONE)), 0):
                m = t.add(m, C64(1))
        return m

    def notone(self, st):
        return st.ghost["one"] or self.saw(st, self.nf(self.ip.sub(self.P0, ONE)), 0)

    def once(self, K):
        ex, st = self.start(K, [self.t_round])
        self.mode = "once"
        ip = self.ip
        w = "miller_rabin_one_loop<%d>" % K
        st.assume(t.eq(t.extract(self.Nv, 0, 0), const(1, 1)))
        self.know(st, (ip.add(self.Np, ip.const(-7920)), ">="))
        o = ex.new_obj(st, self.ssize, "state")
        sp = self.sp = t.ptr(o.id, C64(0))
        self.setstate(st, sp)
        st.wobj(o.id).ro = True
        self.with_values(ex)
        dp, self.D = self.value(st, "d")
        self.know(st, (self.D, ">="), (ip.sub(self.D, self.Np), "<"))
        a = t.var("a", 13)
        self.ap = ip.val(t.zext(a, 64))[0]
        st.assume(t.ult(a, const(7920, 13)))
        self.P0 = ip.ghost("P0")
        self.r = t.var("r", 64)
        st.assume(t.ule(C64(1), self.r))
        st.assume(t.ult(self.r, C64(1 << 32)))
        o = ex.new_obj(st, 4 * self.n, "N-1")
        mp = t.ptr(o.id, C64(0))
        self.put(st, mp, self.fresh("nm1", self.K, ip.sub(self.Np, ONE)))
        st.wobj(o.id).ro = True
        st.ghost.update(base=(C64(0), self.P0), m=C64(0), one=False)
        got = 0
        for oc in ex.start(st, self.fp("once"), [sp, dp, self.r, t.zext(a, 64), mp]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            got += 1
            if not isc(oc.val):
                raise Unsupported("symbolic answer of a round")
            if cv(oc.val) & 1:
                if self.saw(s, self.nf(ip.sub(self.P0, ONE)), 1):
                    ex.prove(s, TRUE, "accepts-only-strong-probable-primes", w)
                    continue
                ix = [i for i, Z in self.powers(s) if self.saw(s, self.nf(ip.add(Z, ONE)), 1)]
                # a^(N - 1) = -1 is impossible for odd N, so i = r is harmless
                ex.prove(s, t.ule(ix[0], self.r) if ix else FALSE, "accepts-only-strong-probable-primes", w)
            else:
                ex.prove(s, TRUE if self.notone(s) else FALSE, "rejects-only-if-a^d-is-not-1", w)
                ex.prove(s, t.ule(self.r, self.refuted(s)), "rejects-only-after-every-square", w)
        if not got:
            raise Unsupported("no returning path")
        return [ex]

    def t_round(self, ex, st, f, H, lp, env):
        want = self.nf(self.ip.scale(self.P0, 1 << self.K))
        obs = []
        for i, o in st.mem.items():
            if o.alive and isc(o.size) and cv(o.size) == self.vsize and not getattr(o, "ro", False):
                try:
                    q, p = self.vget(st, t.ptr(i, C64(0)), "value")
                    if self.isstate(st, q, "value") and self.nf(p) == want:
                        obs.append(i)
                except Exception:
                    continue
        plain = []
        for i, o in st.mem.items():
            if o.alive and isc(o.size) and cv(o.size) == 4 * self.n and not getattr(o, "ro", False):
                try:
                    p = self.val(self.get(st, t.ptr(i, C64(0)), self.n))
                    if self.nf(p) == self.nf(self.P0) and self.reduced(st, p):
                        plain.append(i)
                except Exception:
                    continue
        return Round(self, obs, plain) if obs else None

    def parity(self, st, x):
        ip = self.ip
        for p, h, b in st.ghost["par"]:
            if p == x:
                return [(st, h, b)]
            c = ip.reduce(ip.sub(x, p))
            if all(not m for m in c):
                c = c.get((), 0) + b
                h = ip.add(h, ip.const(c >> 1))
                st.ghost["par"] = st.ghost["par"] + ((x, h, c & 1),)
                return [(st, h, c & 1)]
        out = []
        for b in (0, 1):
            s = st.fork()
            self.qn += 1
            h = ip.ghost("h%d" % self.qn)
            d = ip.sub(ip.sub(x, ip.scale(h, 2)), ip.const(b))
            self.know(s, (h, ">="), (d, "=="), (ip.mul(d, s.ghost["T"]), "=="))
            s.ghost["par"] = s.ghost["par"] + ((x, h, b),)
            out.append((s, h, b))
        return out

    # -- the whole test
    def test(self, K):
        ex, st = self.start(K, [self.t_halve])
        self.mode = "test"
        ip = self.ip
        ex.loop_hook.force = lambda ex, st, f, H: "D" not in st.ghost and "miller_rabin" in self.dem.get(f.name, "") and bool(self.t_halve(ex, st, f, H, None, None))
        w = "miller_rabin_is_probably_prime<%d>" % K
        self.with_values(ex)
        o = ex.new_obj(st, 4 * self.n, "num")
        np_ = t.ptr(o.id, C64(0))
        self.put(st, np_, self.Nv)
        st.wobj(o.id).ro = True
        st.ghost["T"] = ip.const(1)

        parity = self.parity

        def bit(st, args, sret, where):
            if not (isc(args[1]) and cv(args[1]) == 0):
                return NotImplemented
            return [Outcome("ret", s, const(b, 32)) for s, h, b in parity(st, self.val(self.get(st, args[0], self.n, where)))]
        self.oncall(ex, r"^Caligo::bignum<%dul>::bit\(" % K, bit)

        def shr1(st, args, sret, where):
            out = []
            for s, h, b in parity(st, self.val(self.get(st, args[0], self.n, where))):
                self.put(s, args[0], self.fresh("half", self.K, h))
                out.append(Outcome("ret", s, None))
            return out
        self.oncall(ex, r"^Caligo::bignum<%dul>::shr1\(" % K, shr1)

        def odd(st, x):
            return any(p == x and b == 1 for p, h, b in st.ghost["par"])

        def mkstate(st, args, sret, where):
            p = args[0]
            x = self.val(self.arg(st, args[1:], self.n, where)[0])
            ex.prove(st, TRUE if x == self.Np and odd(st, x) else FALSE, "odd-modulus", where)
            if ex.failures:
                raise Abort(ex)
            ex.access(st, st.mem[p.a[0]], p.a[1], self.ssize, where, True)
            self.setstate(st, p)
            return [Outcome("ret", st, None)]
        self.oncall(ex, r"^Caligo::MontgomeryState<%dul>::MontgomeryState\(Caligo::bignum" % K, mkstate)

        def round_(st, args, sret, where):
            sp = args[0]
            if self.vsize <= 16:
                q, v, i = args[1], t.extract(args[2], self.K - 1, 0), 3
            else:
                q = ex.load(st, t.add(args[1], C64(self.vo["state"])), 8, where)
                v, i = self.get(st, t.add(args[1], C64(self.vo["value"])), self.n, where), 2
            r, a = args[i], args[i + 1]
            m1 = self.val(self.arg(st, args[i + 2:], self.n, where)[0])
            D, k = st.ghost.get("D", (None, None))
            ex.prove(st, TRUE if self.isstate(st, sp, where) and self.isstate(st, q, where) else FALSE, "round-on-the-number", where)
            V = self.val(v)
            if D is None or r is not k or self.nf(V) != self.nf(ip.scale(D, 1 << self.K)):
                D = k = None
                for x, h, b in st.ghost["par"]:
                    if b == 1 and self.nf(V) == self.nf(ip.scale(x, 1 << self.K)):
                        if self.poly_is(st, ip.sub(ip.mul(x, self.pw(r)), ip.sub(self.Np, ONE)), "d 2^r = N - 1", where):
                            D, k = st.ghost["D"] = (x, r)
                        break
            ok = D is not None and odd(st, D)
            ex.prove(st, TRUE if ok else FALSE, "round-with-the-odd-part-of-N-1", where)
            self.below(st, V, "operand-reduced", where)
            ex.prove(st, t.eq(r, k) if k is not None else FALSE, "round-with-the-power-of-two-of-N-1", where)
            ex.prove(st, t.ule(C64(1), r), "N-1-even", where)
            ex.prove(st, t.ult(a, C64(7920)), "base-below-N", where)
            self.poly_is(st, ip.sub(m1, ip.sub(self.Np, ONE)), "round-with-N-1", where)
            ex.prove(st, t.ult(r, C64(1 << 32)), "number-of-squarings", where)
            if not isc(a):
                raise Unsupported("symbolic base")
            if ex.failures:
                raise Abort(ex)
            s2 = st.fork()
            st.ghost["sp"] = st.ghost["sp"] + (cv(a),)
            s2.ghost["wit"] = cv(a)
            return [Outcome("ret", st, const(1, 1)), Outcome("ret", s2, const(0, 1))]
        self.oncall(ex, r"miller_rabin_one_loop<%dul>\(" % K, round_)
        small = lambda z: z.poly(self.Np) < 7927
        got = 0
        for oc in ex.start(st, self.fp("test"), [np_]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            got += 1
            if not isc(oc.val):
                raise Unsupported("symbolic answer")
            if cv(oc.val) & 1:
                if "eq" in s.ghost:
                    ex.prove(s, TRUE if s.ghost["eq"] in PRIMES else FALSE, "small-accepted-is-prime", "%s %d" % (w, s.ghost["eq"]))
                else:
                    ex.prove(s, TRUE if set(PRIMES) <= set(s.ghost["sp"]) else FALSE, "accepted-passes-every-base", w)
            elif "wit" in s.ghost:
                ex.prove(s, TRUE if 2 <= s.ghost["wit"] < 7920 else FALSE, "rejected-fails-a-base", w)
            elif s.ghost["par"] and s.ghost["par"][0][0] == self.Np and s.ghost["par"][0][2] == 0:
                self.claim(s, lambda z: z.poly(self.Np) > 2, "even-rejected-is-not-2", w)
            else:
                ex.prove(s, TRUE if set(PRIMES) <= set(s.ghost["ne"]) else FALSE, "small-rejected-is-not-prime", w)
                self.claim(s, small, "only-small-numbers-by-the-table", w)
        if not got:
            raise Unsupported("no returning path")
        return [ex]

    def t_halve(self, ex, st, f, H, lp, env):
        want = self.ip.reduce(self.ip.sub(self.Np, ONE))
        obs = []
        for i, o in st.mem.items():
            if o.alive and isc(o.size) and cv(o.size) == 4 * self.n and not getattr(o, "ro", False):
                try:
                    if self.val(self.get(st, t.ptr(i, C64(0)), self.n)) == want:
                        obs.append(i)
                except Exception:
                    continue
        zero = lambda i: all(z is const(0, 8) for z in [st.mem[i].rd(st, C64(b)) for b in range(8)])
        cells = [i for i, o in st.mem.items() if o.alive and isc(o.size) and cv(o.size) == 8 and not getattr(o, "ro", False) and o.layers and zero(i)]
        return Halve(self, obs, cells) if obs else None


class Round(HiLoop):
    name = "squares"

    def __init__(self, h, obs, plain):
        self.h, self.obs, self.plain, self.man = h, obs, plain, set()

    def modes(self):
        return [(o, off, strict, q) for q in [()] + [(x,) for x in self.plain] for strict, offs in ((0, (1, 0)), (1, (0, 1))) for o in self.obs for off in offs]

    def drivers(self, ex, st, v, mode):
        self.man = {mode[0]} | set(mode[3])
        if v.op in ("ptr", "base") or v.w not in (32, 64):
            return []
        z = lambda x: t.zext(x, 64) if x.w < 64 else x
        r = self.h.r
        return [("n", lambda x: self.g(z(x))), ("n1", lambda x: self.g(t.sub(z(x), C64(1)))), ("rest", lambda x: self.g(t.sub(r, z(x)))), ("rest1", lambda x: self.g(t.sub(t.sub(r, C64(1)), z(x))))]

    def g(self, k):
        r = self.h.r
        return {"k": k, "m": k, "inv": {"n": k, "n1": t.add(k, C64(1)), "rest": t.sub(r, k), "rest1": t.sub(t.sub(r, C64(1)), k)}}

    def ghost(self, ex, st, mode):
        k = t.fresh("i", 64)
        return self.g(k), [self.inside(k, mode)]

    def inside(self, k, mode):
        return t.ult(k, self.h.r) if mode[2] else t.ule(k, self.h.r)

    def apply(self, ex, st, g, mode):
        h = self.h
        h.qn += 1
        Z = h.ip.ghost("Z%d" % h.qn)
        st.ghost.update(base=(g["k"], Z), m=t.add(g["k"], C64(1)) if mode[1] else g["k"], one=True, ev=())
        h.put(st, t.ptr(mode[0], C64(h.vo["value"])), h.residue(st, "sq", h.ip.scale(Z, 1 << h.K)))
        for o in mode[3]:
            h.put(st, t.ptr(o, C64(0)), h.residue(st, "px", Z))

    def gconds(self, ex, st, g, mode):
        return [("range", self.inside(g["k"], mode))]

    def conds(self, ex, st, g, mode):
        h = self.h

        def ok(s):
            q, p = h.vget(s, t.ptr(mode[0], C64(0)), "loop value")
            if not h.isstate(s, q, "loop value"):
                return False
            ix = [i for i, Z in h.powers(s) if h.nf(p) == h.nf(h.ip.scale(Z, 1 << h.K))]
            if not ix or not h.notone(s):
                return False
            for o in mode[3]:
                q = h.val(h.get(s, t.ptr(o, C64(0)), h.n))
                if not any(i is ix[0] and h.nf(q) == h.nf(Z) for i, Z in h.powers(s)) or not h.below(s, q, "loop-invariant", "round: a^(d 2^i) reduced"):
                    return False
            return ex.prove(s, t.eq(ix[0], g["k"]), "loop-invariant", "round: x = a^(d 2^i)") and \
                ex.prove(s, t.ule(t.add(g["k"], C64(mode[1])), h.refuted(s)), "loop-invariant", "round: no earlier square is -1") and \
                h.below(s, p, "loop-invariant", "round: x reduced")
        return [("x", ok)]


class Halve(HiLoop):
    """d 2^r = N - 1"""
    name = "odd part"

    def __init__(self, h, obs, cells):
        self.h, self.obs, self.cells, self.man = h, obs, cells, set()

    def modes(self):
        return [(o, e, c) for c in [None] + self.cells for o in self.obs for e in (0, 1)]

    def drivers(self, ex, st, v, mode):
        self.man = {mode[0]}
        if mode[2] is not None:
            return []
        if v.w in (32, 64) and v.op not in ("ptr", "base"):
            return [("r", lambda x: self.g(t.zext(x, 64) if x.w < 64 else x))]
        return []

    def memdrivers(self, ex, st, mode):
        """r lives in memory"""
        if mode[2] is None:
            return []
        self.man = {mode[0], mode[2]}
        rd = lambda s: self.g(ex.load(s, t.ptr(mode[2], C64(0)), 8, "odd part"))
        return [("r", rd(st), rd)]

    def g(self, k):
        return {"k": k, "m": k, "inv": {"r": k}}

    def ghosts(self, ex, st, mode):
        h = self.h
        k = t.zext(t.fresh("r", 20), 64)
        return [(self.g(t.add(k, C64(1))), [t.ult(k, C64(h.W - 1))]), (self.g(C64(0)), [])]

    def plemma(self, k):
        """2^k < 2^W implies k < W"""
        h = self.h
        for m, c in h.pw(k).items():
            for i in m:
                base = h.pws.get(i)
                if base is not None and (i, c) not in h.lemmas:
                    h.lemmas.add((i, c))
                    h.ip.facts.setdefault(i, []).append(lambda z, i=i, base=base, c=c: z.z3.Implies(c * z.atom(i) < 1 << h.W, z.poly(h.ip.val(base)[0]) + c.bit_length() - 1 < h.W))

    def apply(self, ex, st, g, mode):
        h, k = self.h, g["k"]
        h.qn += 1
        T = h.pw(k)
        if isc(k) and cv(k) == 0:
            D = h.ip.sub(h.Np, ONE)
            x = h.fresh("d", h.K, D)
        else:
            D = h.ip.ghost("D%d" % h.qn)
            x = h.fresh("d", h.K, D)
            h.know(st, (h.ip.sub(h.ip.mul(D, T), h.ip.sub(h.Np, ONE)), "=="), (h.ip.sub(D, ONE), ">="), (h.ip.sub(h.ip.mul(D, T), T), ">="), (h.ip.sub(h.ip.mul(D, T), D), ">="))
        self.plemma(k)
        st.ghost["T"] = T
        st.ghost["D"] = (h.ip.reduce(D), k)
        h.put(st, t.ptr(mode[0], C64(0)), x)
        if mode[2] is not None:
            ex.store(st, t.ptr(mode[2], C64(0)), k, 8, "odd part")
        if mode[1] and not (isc(k) and cv(k) == 0):
            E = h.ip.ghost("E%d" % h.qn)
            d = h.ip.sub(D, h.ip.scale(E, 2))
            h.know(st, (E, ">="), (d, "=="), (h.ip.mul(d, T), "=="))
            st.ghost["par"] = st.ghost["par"] + ((h.val(x), E, 0),)

    def gconds(self, ex, st, g, mode):
        return []

    def conds(self, ex, st, g, mode):
        h, k = self.h, g["k"]

        def ok(s):
            T = h.pw(k)
            x = h.val(h.get(s, t.ptr(mode[0], C64(0)), h.n))
            if mode[1]:
                q = h.parity(s, x)
                if len(q) != 1 or q[0][2]:
                    return False
            if not (h.poly_is(s, h.ip.sub(h.ip.mul(x, T), h.ip.sub(h.Np, ONE)), "loop-invariant", "odd part: d 2^r = N - 1") and
                    h.claim(s, lambda z: z.poly(x) >= 1, "loop-invariant", "odd part: d > 0")):
                return False
            self.plemma(k)
            h.know(s, (h.ip.sub(h.ip.mul(x, T), T), ">="))
            return h.claim(s, lambda z: z.term(k) < h.W, "loop-invariant", "odd part: r bounded")
        return [("d", ok)]


class Search(HiLoop):
    """nothing is carried from one candidate to the next (partial correctness)"""
    name = "search"
    man = ()

    def memdrivers(self, ex, st, mode):
        return [("any", {}, lambda s: {})]

    def ghost(self, ex, st, mode):
        return {}, []

    def invert(self, g, b):
        return None

    def measure(self, g):
        return None

    def apply(self, ex, st, g, mode):
        st.ghost["tested"] = None

    def gconds(self, ex, st, g, mode):
        return []

    conds = gconds


def gen(self, K, strict):
    """random_prime: what it returns passed the test and has the required bits"""
    ex, st = self.start(K, [Search()])
    self.mode = "gen"
    w = "random_prime<%d%s>" % (K, ", true" if strict else "")
    ex.loop_hook.force = lambda ex, st, f, H: "random_prime<" in self.dem.get(f.name, "")
    st.ghost["tested"] = None

    def rnd(st, args, sret, where):
        return [self.give(st, args[0] if sret else None, self.by(t.fresh("rnd", self.K)), where)]
    self.oncall(ex, r"^Caligo::bignum<%dul>::random\(\)" % K, rnd)

    def test(st, args, sret, where):
        st.ghost["tested"] = self.get(st, args[0], self.n, where)
        return [Outcome("ret", st.fork(), const(0, 1)), Outcome("ret", st, const(1, 1))]
    self.oncall(ex, r"miller_rabin_is_probably_prime<%dul>\(" % K, test)
    o = ex.new_obj(st, 4 * self.n, "o")
    op = t.ptr(o.id, C64(0))
    got = 0
    for oc in ex.start(st, self.fp("genf" if strict else "gen"), [op]):
        s = oc.st
        if oc.kind != "ret":
            ex.prove(s, FALSE, "no-throw", w)
            continue
        got += 1
        x = self.get(s, op, self.n, w)
        y = s.ghost["tested"]
        ex.prove(s, t.eq(x, y) if y is not None else FALSE, "returned-number-was-tested", w)
        for b in [0, K - 1] + ([K - 2] if strict else []):
            ex.prove(s, t.eq(t.extract(x, b, b), const(1, 1)), "required-bit-set", w)
    if not got:
        raise Unsupported("no returning path")
    return [ex]


Prime.gen = gen
