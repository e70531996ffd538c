"""Montgomery arithmetic: every function of mont.h against modular arithmetic, for all odd moduli of a template width.

g is the integer with 2^K g = 1 + N Ninv, the inverse of 2^K modulo N.  nf() is a normal form modulo N: multiples of N vanish and
2^K g becomes 1."""
import re
from . import terms as t
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Unsupported, Outcome
from .bnproof import nw, C64
from .bnhigh import Hi, HiLoop
from . import layout

ONE = {(): 1}


class Mont(Hi):
    def __init__(self, mod, dem, lay):
        Hi.__init__(self, mod, dem)
        self.lay = lay

    def setup(self, K):
        self.K, self.n = 32 * nw(K), nw(K)
        self.Kt = K
        for cls in ("MontgomeryState", "MontgomeryValue"):
            ks = [k for k in self.lay if re.match(r"^(struct |class )?Caligo::%s<%d(UL|ul)?>$" % (cls, K), k)]
            if not ks:
                raise Unsupported("no layout for %s<%d>" % (cls, K))
            size, fs = layout.fields(self.lay, ks[0])
            d = {}
            for off, ty, nm, ind in fs:
                if ind == min(x[3] for x in fs):
                    d.setdefault(nm, off)
            if cls == "MontgomeryState":
                self.ssize, self.so = size, d
            else:
                self.vsize, self.vo = size, d
        if not {"N", "Ninv", "R2MN"} <= set(self.so) or not {"state", "value"} <= set(self.vo):
            raise Unsupported("fields of the Montgomery classes not found")

    def f(self, name):
        return self.fn("Mont<%dul>" % self.Kt, name)

    # -- arithmetic modulo N
    def nf(self, p):
        i, j = self.Nat, self.gat
        p = self.ip.reduce(p)
        R = 1 << self.K
        while True:
            out, ch = {}, False
            for m, c in p.items():
                if i in m:
                    ch = True
                    continue
                m = list(m)
                while j in m and c % R == 0:
                    m.remove(j)
                    c //= R
                    ch = True
                m = tuple(m)
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
            p = out
            if not ch:
                return p

    def cong(self, st, a, b, kind, where):
        d = self.nf(self.ip.sub(a, b))
        self.ex.oblig += 1
        self.ex.obkinds[kind] = self.ex.obkinds.get(kind, 0) + 1
        if not d:
            self.ex.discharged += 1
            return True
        from .exec import Failure
        self.ex.failures.append(Failure(kind, where, "not congruent modulo N: %d terms" % len(d), None, st, "unknown"))
        return False

    def below(self, st, a, kind, where):
        return self.claim(st, lambda z: z.z3.And(z.poly(a) >= 0, z.poly(a) < z.poly(self.Np)), kind, where)

    def residue(self, st, nm, p):
        """a fresh K-bit number in [0, N) congruent to p"""
        self.qn += 1
        q = self.ip.ghost("q%d" % self.qn)
        d = self.ip.sub(self.nf(p), self.ip.mul(q, self.Np))
        x = self.fresh(nm, self.K, d)
        self.know(st, (d, ">="), (self.ip.sub(d, self.Np), "<"))
        return x

    def begin(self, K, templates=(), skip=()):
        self.setup(K)
        ex, st = self.mk(templates, skip)
        self.qn = 0
        return ex, st

    def modulus(self, st, with_state=True):
        """a state object for an arbitrary odd modulus"""
        ip = self.ip
        N, Ni = t.var("N", self.K), t.var("Ninv", self.K)
        self.Nv, self.Niv = N, Ni
        self.Np = ip.val(N)[0]
        self.Nat = next(iter(self.Np))[0]
        g = ip.ghost("g")
        self.gat = next(iter(g))[0]
        ip.rule(self.Np, ip.val(Ni)[0], ip.add(ip.scale(g, 1 << self.K), ip.const(-1)))
        self.know(st, (ip.add(self.Np, ip.const(-1)), ">="))
        o = self.ex.new_obj(st, self.ssize, "state")
        p = t.ptr(o.id, C64(0))
        R = 1 << self.K
        vals = {"N": N, "Ninv": Ni, "R1MN": self.residue(st, "R1", ip.const(R)), "R2MN": self.residue(st, "R2", ip.const(R * R)), "R3MN": self.residue(st, "R3", ip.const(R ** 3))}
        for k, off in self.so.items():
            if k in vals:
                self.put(st, t.add(p, C64(off)), vals[k])
        st.wobj(o.id).ro = True
        self.sp = p
        return p

    def value(self, st, nm, ro=True):
        """a Montgomery value holding X 2^K mod N"""
        o = self.ex.new_obj(st, self.vsize, nm)
        p = t.ptr(o.id, C64(0))
        X = self.ip.ghost(nm)
        self.ex.store(st, t.add(p, C64(self.vo["state"])), self.sp, 8, nm)
        self.put(st, t.add(p, C64(self.vo["value"])), self.residue(st, nm + "v", self.ip.scale(X, 1 << self.K)))
        st.wobj(o.id).ro = ro
        return p, X

    def vget(self, st, p, where):
        """(state pointer, polynomial of the stored residue)"""
        sp = self.ex.load(st, t.add(p, C64(self.vo["state"])), 8, where)
        return sp, self.val(self.get(st, t.add(p, C64(self.vo["value"])), self.n, where))

    # -- contracts
    def oncall(self, ex, pat, h):
        r = re.compile(pat)

        def hd(ex, st, name, args, where):
            self.cur = name
            sret = self.mod.funcs[name].ret.k == "void"
            return h(st, args, sret, where)
        ex.contracts.insert(0, (lambda n, d: bool(r.search(d)), hd))

    def with_redc(self, ex):
        def h(st, args, sret, where):
            res, args = (args[0], args[1:]) if sret else (None, args)
            x, _ = self.arg(st, args[1:], 2 * self.n, where)
            if args[0].op != "ptr":
                raise Unsupported("state pointer")
            N = self.get(st, t.add(args[0], C64(self.so["N"])), self.n, where)
            Ni = self.get(st, t.add(args[0], C64(self.so["Ninv"])), self.n, where)
            pn = self.ip.val(N)[0]
            ok = self.ip.reduce(pn) == self.Np and self.isneginv(self.ip.mul(self.Np, self.ip.val(Ni)[0]))
            ex.prove(st, TRUE if ok else FALSE, "REDC-on-a-valid-state", where)
            v = self.val(x)
            lim = self.ip.scale(self.Np, 1 << self.K)
            self.claim(st, lambda z: z.z3.And(z.poly(v) >= 0, z.poly(v) < z.poly(lim)), "REDC-argument-below-RN", where)
            return [self.give(st, res, self.by(self.residue(st, "redc", self.ip.mul(v, {(self.gat,): 1}))), where)]
        self.oncall(ex, r"^Caligo::MontgomeryState<%dul>::REDC\(" % self.Kt, h)

    def isneginv(self, p):
        """p = -1 modulo 2^K"""
        d = self.ip.add(self.ip.reduce(p), ONE)
        return all(c % (1 << self.K) == 0 for c in d.values())

    def with_inverse(self, ex, M, odd):
        """RecursiveInverseModPower2 of another width (or of this one, for its callers)"""
        def h(st, args, sret, where):
            m = re.search(r"RecursiveInverseModPower2<(\d+)ul>", self.dem[self.cur])
            w = int(m.group(1))
            if w == M:
                return NotImplemented
            n = nw(w)
            res, args = (args[0], args[1:]) if sret else (None, args)
            x, _ = self.arg(st, args, n, where)
            ex.prove(st, t.eq(t.extract(x, 0, 0), const(1, 1)), "inverse-of-an-odd-number", where)
            p = {k: c for k, c in self.val(x).items() if c % (1 << (32 * n))}
            if list(p.values()) != [1] or len(next(iter(p))) != 1:
                raise Unsupported("argument of the inverse is not a number's low words")
            r = t.fresh("inv", 32 * n)
            pr = self.ip.val(r)[0]
            self.en = getattr(self, "en", 0) + 1
            self.ip.rule(p, pr, self.ip.add(ONE, self.ip.scale(self.ip.ghost("e%d" % self.en), 1 << (32 * n))))
            return [self.give(st, res, self.by(r), where)]
        self.oncall(ex, r"RecursiveInverseModPower2<\d+ul>\(", h)

    # -- properties
    def inverse(self, M):
        """A r = 1 modulo 2^M for odd A"""
        name = [n for n, d in self.dem.items() if re.search(r"RecursiveInverseModPower2<%dul>\(" % M, d)]
        if not name:
            raise Unsupported("no RecursiveInverseModPower2<%d>" % M)
        w = "RecursiveInverseModPower2<%d>" % M
        f = self.mod.funcs[name[0]]
        n = nw(M)
        exs = []
        for low in (1, 3) if M <= 32 else (None,):
            ex, st = self.mk()
            ip = self.ip
            self.with_inverse(ex, M, None)
            A = t.concat([t.var("A", M - 2), const(low, 2)]) if low else t.var("A", 32 * n)
            st.assume(t.eq(t.extract(A, 0, 0), const(1, 1)))
            args = []
            sret = f.ret.k == "void"
            if sret:
                ro = ex.new_obj(st, 4 * n, "r")
                args.append(t.ptr(ro.id, C64(0)))
            if len(f.params) > len(args) and f.ptys[len(args)].k == "ptr":
                ao = ex.new_obj(st, 4 * n, "A")
                ao.w_conc(0, self.by(A))
                args.append(t.ptr(ao.id, C64(0)))
            else:
                k = len(f.params) - len(args)
                for i in range(k):
                    args.append(t.extract(A, min(64 * i + 63, A.w - 1), 64 * i))
            got = 0
            for oc in ex.start(st, name[0], args):
                if oc.kind != "ret":
                    ex.prove(oc.st, FALSE, "no-throw", w)
                    continue
                got += 1
                if sret:
                    x = self.get(oc.st, args[0], n)
                elif isinstance(oc.val, tuple):
                    x = t.concat(list(oc.val)[::-1])
                else:
                    x = oc.val
                if low:
                    d = self.modpoly(x, 32)
                    d = ip.sub(ip.mul(d, self.modpoly(A, 32)), ONE)
                else:
                    d = ip.sub(ip.reduce(ip.mul(self.val(A), self.val(x))), ONE)
                bad = [c for c in d.values() if c % (1 << (32 * n))]
                ex.prove(oc.st, FALSE if bad else TRUE, "inverse-modulo-2^%d" % (32 * n), w)
            if not got:
                raise Unsupported("no returning path")
            exs.append(ex)
        return exs

    def modpoly(self, x, w):
        """polynomial congruent to x modulo 2^min(w, width of x)"""
        memo = {}
        ip = self.ip

        def red(p, y):
            M = 1 << min(w, y.w)
            return {m: c % M for m, c in p.items() if c % M}
        for y in t.topo([x]):
            r = None
            if y.op == "c":
                r = ip.const(y.a[0])
            elif y.op == "add":
                r = ip.const(y.a[0])
                for k, z in y.a[1]:
                    r = ip.add(r, ip.scale(memo[z], k))
            elif y.op == "mul":
                r = ONE
                for z in y.a:
                    r = red(ip.mul(r, memo[z]), y)
            elif y.op == "cat":
                # a congruence suffices for the top part; the others must be exact
                r, off = {}, 0
                for i, z in enumerate(reversed(y.a)):
                    p = memo[z] if i == len(y.a) - 1 or z.op == "c" else ip._leaf(z)[0]
                    r = ip.add(r, ip.scale(p, 1 << off))
                    off += z.w
            elif y.op == "ex" and y.a[2] == 0:
                r = memo[y.a[0]]
            if r is None:
                r = ip._leaf(y)[0]
            memo[y] = red(r, y)
        return memo[x]

    def redc(self, K):
        ex, st = self.begin(K)
        w = "MontgomeryState<%d>::REDC" % K
        ip = self.ip
        sp = self.modulus(st)
        vp, V = self.num(st, "v", 2 * self.n)
        op, _ = self.num(st, "o", self.n, False)
        v = ip.val(V)[0]
        self.know(st, (ip.sub(v, ip.scale(self.Np, 1 << self.K)), "<"))
        got = 0
        for oc in ex.start(st, self.f("redc"), [sp, vp, op]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            got += 1
            r = self.val(self.get(s, op, self.n))
            if self.ask(s, lambda z: z.z3.BoolVal(False), 5) == "unsat":
                continue
            self.cong(s, r, ip.mul(v, {(self.gat,): 1}), "result-is-v/R-mod-N", w)
            self.below(s, r, "result-below-N", w)
        if not got:
            raise Unsupported("no returning path")
        return [ex]

    def state(self, K):
        ex, st = self.begin(K)
        w = "MontgomeryState<%d>" % K
        ip = self.ip
        self.with_redc(ex)
        self.with_inverse(ex, None, None)
        np_, N = self.num(st, "N", self.n)
        self.Np = ip.val(N)[0]
        self.Nat = next(iter(self.Np))[0]
        self.gat = next(iter(ip.ghost("g")))[0]
        st.assume(t.eq(t.extract(N, 0, 0), const(1, 1)))
        self.know(st, (ip.add(self.Np, ip.const(-1)), ">="))

        def h(st, args, sret, where):
            m = re.search(r"bignum<(\d+)ul>::naive_reduce<(\d+)ul>", self.dem[self.cur])
            res, args = (args[0], args[1:]) if sret else (None, args)
            a = self.val(self.get(st, args[0], nw(int(m.group(1))), where))
            p = self.val(self.get(st, args[1], nw(int(m.group(2))), where))
            ex.prove(st, TRUE if p == self.Np and int(m.group(2)) == self.Kt else FALSE, "reduction-modulo-N", where)
            return [self.give(st, res, self.by(self.residue(st, "red", a)), where)]
        self.oncall(ex, r"bignum<\d+ul>::naive_reduce<\d+ul>\(", h)
        o = ex.new_obj(st, self.ssize, "state")
        sp = t.ptr(o.id, C64(0))
        got = 0
        for oc in ex.start(st, self.f("state"), [np_, sp]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            got += 1
            fld = lambda k: self.val(self.get(s, t.add(sp, C64(self.so[k])), self.n))
            ex.prove(s, TRUE if fld("N") == self.Np else FALSE, "modulus-stored", w)
            ex.prove(s, TRUE if self.isneginv(ip.mul(self.Np, fld("Ninv"))) else FALSE, "Ninv-is-minus-inverse", w)
            for k, e in (("R1MN", 1), ("R2MN", 2), ("R3MN", 3)):
                if k in self.so:
                    self.cong(s, fld(k), ip.const(1 << (e * self.K)), k + "-congruent", w)
                    self.below(s, fld(k), k + "-below-N", w)
        if not got:
            raise Unsupported("no returning path")
        return [ex]

    def op(self, K, what):
        """make | add | mul | square | out"""
        ex, st = self.begin(K)
        w = "MontgomeryValue<%d> %s" % (K, what)
        ip = self.ip
        sp = self.modulus(st)
        self.with_redc(ex)
        R = 1 << self.K
        o = ex.new_obj(st, self.vsize if what != "out" else 4 * self.n, "o")
        op = t.ptr(o.id, C64(0))
        if what == "make":
            xp, X = self.num(st, "x", self.n)
            args, want = [sp, xp, op], ip.scale(ip.val(X)[0], R)
        else:
            a, X = self.value(st, "X")
            b, Y = self.value(st, "Y")
            args = {"add": [a, b, op], "mul": [a, b, op], "square": [a, op], "out": [a, op]}[what]
            want = {"add": ip.scale(ip.add(X, Y), R), "mul": ip.scale(ip.mul(X, Y), R), "square": ip.scale(ip.mul(X, X), R), "out": X}[what]
        got = 0
        for oc in ex.start(st, self.f({"make": "value"}.get(what, what)), args):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            if self.ask(s, lambda z: z.z3.BoolVal(False), 5) == "unsat":
                continue
            got += 1
            if what == "out":
                r = self.val(self.get(s, op, self.n))
            else:
                q, r = self.vget(s, op, w)
                ex.prove(s, TRUE if q is sp else FALSE, "same-state", w)
            self.cong(s, r, want, "value", w)
            self.below(s, r, "reduced", w)
        if not got:
            raise Unsupported("no returning path")
        return [ex]

    def with_ops(self, ex):
        """contracts of the value operations, for exp"""
        V = r"^Caligo::MontgomeryValue<%dul>::" % self.Kt
        def binop(st, args, sret, where, sq=False):
            res, args = (args[0], args[1:]) if sret else (None, args)
            for i, a in enumerate(args[:1 if sq else 2]):
                if a.op != "ptr":
                    # a choice between two values: fork on it
                    alts = ex.split(st, a, where)
                    if len(alts) > 1:
                        outs = []
                        for c, oid, off in alts:
                            s2 = st.fork()
                            s2.assume(c)
                            if s2.feasible():
                                args2 = list(args)
                                args2[i] = t.ptr(oid, off)
                                outs += binop(s2, ([res] if sret else []) + args2, sret, where, sq)
                        return outs
            q, A = self.vget(st, args[0], where)
            if sq:
                q2, B = q, A
            else:
                q2, B = self.vget(st, args[1], where)
            ex.prove(st, TRUE if q is self.sp and q2 is self.sp else FALSE, "same-modulus", where)
            self.below(st, A, "operand-reduced", where)
            if not sq:
                self.below(st, B, "operand-reduced", where)
            x = self.residue(st, "mm", self.ip.mul(self.ip.mul(self.nf(A), self.nf(B)), {(self.gat,): 1}))
            return [self.vgive(st, res, x, where)]
        self.oncall(ex, V + r"operator\*\(", binop)
        self.oncall(ex, V + r"square\(\)", lambda st, args, sret, where: binop(st, args, sret, where, True))

        def ctor(st, args, sret, where):
            p, sp, x = args
            ex.prove(st, TRUE if sp is self.sp else FALSE, "same-modulus", where)
            v = self.residue(st, "mk", self.ip.scale(self.val(self.get(st, x, self.n, where)), 1 << self.K))
            ex.access(st, st.mem[p.a[0]], p.a[1], self.vsize, where, True)
            ex.store(st, t.add(p, C64(self.vo["state"])), self.sp, 8, where)
            self.put(st, t.add(p, C64(self.vo["value"])), v)
            return [Outcome("ret", st, None)]
        self.oncall(ex, V + r"MontgomeryValue\(Caligo::MontgomeryState", lambda st, args, sret, where: ctor(st, args, sret, where) if len(args) == 3 else NotImplemented)

        def bit(st, args, sret, where):
            p, k = args
            x = self.val(self.get(st, p, self.n, where))
            ex.prove(st, t.ult(k, C64(self.K)), "bit-index-in-range", where)
            out = []
            for b in (0, 1):
                s2 = st.fork()
                s2.ghost["bit"] = (x, k, b)
                out.append(Outcome("ret", s2, const(b, 32)))
            return out
        self.oncall(ex, r"^Caligo::bignum<%dul>::bit\(" % self.Kt, bit)

    def vgive(self, st, res, x, where):
        o = self.ex.new_obj(st, self.vsize, "mv")
        p = t.ptr(o.id, C64(0))
        if res is not None:
            del st.mem[o.id]
            self.ex.access(st, st.mem[res.a[0]], res.a[1], self.vsize, where, True)
            self.ex.store(st, t.add(res, C64(self.vo["state"])), self.sp, 8, where)
            self.put(st, t.add(res, C64(self.vo["value"])), x)
            return Outcome("ret", st, None)
        self.ex.store(st, t.add(p, C64(self.vo["state"])), self.sp, 8, where)
        self.put(st, t.add(p, C64(self.vo["value"])), x)
        v = self.ex.loadty(st, p, self.mod.funcs[self.cur].ret, where)
        del st.mem[o.id]
        return Outcome("ret", st, v)

    def exp(self, K, big):
        ex, st = self.begin(K, [self.t_exp])
        self.big = big
        ex.loop_hook.force = lambda ex, st, f, H: "exp" in self.dem.get(f.name, "")
        w = "MontgomeryValue<%d>::exp(%s)" % (K, "bignum" if big else "uint32_t")
        self.w = w
        ip = self.ip
        sp = self.modulus(st)
        self.with_ops(ex)
        a, X = self.value(st, "X")
        self.X = X
        o = ex.new_obj(st, self.vsize, "o")
        op = t.ptr(o.id, C64(0))
        if big:
            ep, E = self.num(st, "e", self.n)
            self.E = ip.val(E)[0]
            arg = ep
        else:
            self.E = arg = t.var("e", 32)
        got = 0
        for oc in ex.start(st, self.f("expb" if big else "expw"), [a, arg, op]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, FALSE, "no-throw", w)
                continue
            if self.ask(s, lambda z: z.z3.BoolVal(False), 5) == "unsat":
                continue
            got += 1
            q, r = self.vget(s, op, w)
            Y = s.ghost.get("done")
            ex.prove(s, TRUE if Y is not None else FALSE, "all-exponent-bits-used", w)
            if Y is None:
                continue
            ex.prove(s, TRUE if q is sp else FALSE, "same-state", w)
            self.cong(s, r, ip.scale(Y, 1 << self.K), "power", w)
            self.below(s, r, "reduced", w)
        if not got:
            raise Unsupported("no returning path")
        return [ex]

    def t_exp(self, ex, st, f, H, lp, env):
        vals = {}
        for i, o in st.mem.items():
            if o.alive and isc(o.size) and cv(o.size) == self.vsize and not getattr(o, "ro", False):
                try:
                    q, p = self.vget(st, t.ptr(i, C64(0)), "value")
                except Exception:
                    continue
                if q is self.sp:
                    vals[i] = self.nf(p)
        R = 1 << self.K
        ys = [i for i, p in vals.items() if p == {(): R}]
        zs = [i for i, p in vals.items() if p == self.nf(self.ip.scale(self.X, R))]
        if not ys or not zs:
            return None
        return Exp(self, [(y, z) for y in ys for z in zs])


class Exp(HiLoop):
    """v = Y R, b = Z R; reading bit n of the exponent: Y' = Y Z or Y, Z' = Z Z.  From Y = 1, Z = x and all bits this is x^e."""
    name = "square-and-multiply"

    def __init__(self, h, pairs):
        self.h, self.pairs = h, pairs
        self.man = set()

    def modes(self):
        return self.pairs

    def drivers(self, ex, st, v, mode):
        self.man = set(mode)
        h = self.h
        if v.op in ("ptr", "base"):
            return []
        if h.big and v.w in (32, 64):
            return [("bits", lambda x: self.g(t.zext(x, 64) if x.w < 64 else x))]
        if not h.big and v.w == 32:
            return [("rest", lambda x: self.g(x))]
        return []

    def g(self, k):
        return {"k": k, "m": k if self.h.big else t.bnot(k), "inv": {"bits": k, "rest": k}}

    def ghosts(self, ex, st, mode):
        h = self.h
        if h.big:
            k = t.zext(t.fresh("n", 16), 64)
            return [(self.g(k), [t.ult(k, C64(h.K))]), (self.g(C64(h.K)), [])]
        k = t.fresh("er", 31)
        return [(self.g(t.concat([k, const(1, 1)])), []), (self.g(t.concat([k, const(0, 1)])), [t.bnot(t.eq(k, const(0, 31)))]), (self.g(const(0, 32)), [])]

    def enter(self, g):
        self.cur = g

    def apply(self, ex, st, g, mode):
        h = self.h
        h.qn += 1
        Y, Z = h.ip.ghost("Y%d" % h.qn), h.ip.ghost("Z%d" % h.qn)
        st.ghost["YZ"] = (Y, Z)
        st.ghost.pop("bit", None)
        if isc(g["k"]) and cv(g["k"]) == (h.K if h.big else 0):
            st.ghost["done"] = Y
        else:
            st.ghost.pop("done", None)
        for o, G in zip(mode, (Y, Z)):
            h.put(st, t.ptr(o, C64(h.vo["value"])), h.residue(st, "lp", h.ip.scale(G, 1 << h.K)))

    def gconds(self, ex, st, g, mode):
        return [("range", t.ule(g["k"], C64(self.h.K)))] if self.h.big else []

    def conds(self, ex, st, g, mode):
        h = self.h
        R = 1 << h.K

        def ok(s):
            y, z = [h.vget(s, t.ptr(o, C64(0)), "loop value") for o in mode]
            if y[0] is not h.sp or z[0] is not h.sp:
                return False
            if "YZ" not in s.ghost:
                Yw, Zw = ONE, h.X
                start = C64(0) if h.big else h.E
                if not ex.prove(s, t.eq(g["k"], start), "loop-invariant", "exp: starts with the whole exponent"):
                    return False
            else:
                Y, Z = s.ghost["YZ"]
                k = self.cur["k"]
                if h.big:
                    bt = s.ghost.get("bit")
                    if bt is None or bt[0] != h.E:
                        return False
                    if not ex.prove(s, t.band(t.eq(bt[1], k), t.eq(g["k"], t.add(k, C64(1)))), "loop-invariant", "exp: next exponent bit"):
                        return False
                    b = bt[2]
                else:
                    b = cv(t.extract(k, 0, 0))
                    if not ex.prove(s, t.eq(g["k"], t.lshr(k, const(1, 32))), "loop-invariant", "exp: next exponent bit"):
                        return False
                Yw, Zw = (h.ip.mul(Y, Z) if b else Y), h.ip.mul(Z, Z)
            return h.cong(s, y[1], h.ip.scale(Yw, R), "loop-invariant", "exp: product") and h.cong(s, z[1], h.ip.scale(Zw, R), "loop-invariant", "exp: squares") and \
                h.below(s, y[1], "loop-invariant", "exp: product reduced") and h.below(s, z[1], "loop-invariant", "exp: square reduced")
        return [("powers", ok)]
