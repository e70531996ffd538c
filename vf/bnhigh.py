"""Functions above bignum's word arithmetic: numbers are single integer-valued variables, the word functions enter by contract (C15).

A contract of an operation with a carry or comparison result forks: on each path the flag is a constant and the integer facts
(a + b >= 2^W or not) are recorded in st.ghost["ipc"].  Results are fresh variables defined to be integer polynomials (intpoly.IP);
claims are linear integer arithmetic over the polynomials' monomials, or divisibility of every monomial by a modulus."""
import re
from . import terms as t, stdmodel
from .terms import const, isc, cv, TRUE, FALSE, T
from .exec import Executor, State, Unsupported, Outcome, Failure
from .loops import LoopEngine, Template
from .intpoly import IP, Z3
from .bnproof import nw, C64


class Hi:
    def __init__(self, mod, dem):
        self.mod, self.dem = mod, dem

    def fn(self, cls, name):
        for n, d in self.dem.items():
            if re.search(r"(^|\s)%s::%s\(" % (re.escape(cls), name), d):
                return n
        raise Unsupported("no entry point %s::%s" % (cls, name))

    def mk(self, templates=(), skip=()):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)
        ex.loop_hook = LoopEngine(list(templates))
        self.ex = ex
        self.ip = IP()
        self.pws = {}
        self.lemmas = set()
        st = State(ex)
        st.ghost["ipc"] = ()
        B = r"Caligo::bignum<(\d+)ul>"
        cs = [(r"^Caligo::operator([-+])\(%s const&, Caligo::bignum<\d+ul> const&\)$" % B, self.c_addsub),
              (r"^Caligo::operator(\*)\(%s const&, Caligo::bignum<\d+ul> const&\)$" % B, self.c_mul),
              (r"^Caligo::operator(\*)\(%s const&, unsigned int\)$" % B, self.c_mulw),
              (r"^%s::(square)\(\) const$" % B, self.c_square),
              (r"^%s::operator(<|==)\(Caligo::bignum<\d+ul> const&\) const$" % B, self.c_cmp),
              (r"^%s::(add|sub)\(unsigned int const ?\(&\) ?\[\d+\]\)$" % B, self.c_inplace)]
        for pat, h in cs:
            r = re.compile(pat)

            def pred(n, d, r=r):
                return bool(r.search(d)) and n not in skip

            def hd(ex, st, name, args, where, h=h, r=r):
                gs = r.search(self.dem[name]).groups()
                W = int([g for g in gs if g.isdigit()][0])
                op = [g for g in gs if not g.isdigit()][0]
                self.cur = name
                sret = self.mod.funcs[name].ret.k == "void"
                return h(st, args[0] if sret else None, args[1:] if sret else args, nw(W), op, where)
            ex.contracts.insert(0, (pred, hd))
        return ex, st

    # -- numbers in memory
    def put(self, st, p, x):
        o = st.wobj(p.a[0])
        o.w_conc(cv(p.a[1]), [t.extract(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)])

    def get(self, st, p, n, where="number"):
        if not (p.op == "ptr" and isc(p.a[1])):
            raise Unsupported("number at a symbolic address")
        self.ex.access(st, st.mem[p.a[0]], p.a[1], 4 * n, where)
        o, b = st.mem[p.a[0]], cv(p.a[1])
        return t.concat([o.rd(st, C64(b + i)) for i in range(4 * n)][::-1])

    def num(self, st, nm, n, ro=True):
        o = self.ex.new_obj(st, 4 * n, nm)
        x = t.var(nm, 32 * n)
        p = t.ptr(o.id, C64(0))
        self.put(st, p, x)
        o = st.wobj(o.id)
        o.ro = ro
        return p, x

    def fresh(self, nm, w, poly, hi=None):
        x = t.fresh(nm, w)
        self.ip.define(x, self.ip.reduce(poly), 0, hi)
        return x

    def val(self, x):
        return self.ip.reduce(self.ip.val(x)[0])

    def know(self, st, *facts):
        st.ghost["ipc"] = st.ghost["ipc"] + tuple((self.ip.reduce(p), r) for p, r in facts)

    # -- integer reasoning
    def ask(self, st, claim, timeout=20):
        z = Z3(self.ip)
        cl = claim(z)
        for p, rel in st.ghost["ipc"]:
            q = z.poly(p)
            z.asm.append(q >= 0 if rel == ">=" else q < 0 if rel == "<" else q == 0 if rel == "==" else q != 0)
        return z.check(st.pc, lambda z: cl, timeout)

    def claim(self, st, fn, kind, where, detail=""):
        ex = self.ex
        ex.oblig += 1
        ex.obkinds[kind] = ex.obkinds.get(kind, 0) + 1
        ex.tick()
        r = self.ask(st, fn)
        if r == "unsat":
            ex.discharged += 1
            return True
        ex.failures.append(Failure(kind, where, detail or "integer claim: " + r, None, st, "unknown"))
        return False

    def poly_is(self, st, d, kind, where):
        """the integer polynomial d is zero (syntactically, or by linear reasoning on this path)"""
        d = self.ip.reduce(d)
        if not d:
            self.ex.oblig += 1
            self.ex.discharged += 1
            self.ex.obkinds[kind] = self.ex.obkinds.get(kind, 0) + 1
            return True
        return self.claim(st, lambda z: z.poly(d) == 0, kind, where, "difference with %d terms" % len(d))

    def divides(self, st, at, d, kind, where):
        """every monomial of d contains the atom at"""
        i = next(iter(at))[0]
        d = self.ip.reduce(d)
        ok = all(i in m for m in d)
        ex = self.ex
        ex.oblig += 1
        ex.obkinds[kind] = ex.obkinds.get(kind, 0) + 1
        if ok:
            ex.discharged += 1
        else:
            ex.failures.append(Failure(kind, where, "not shown to be a multiple of the modulus", None, st, "unknown"))
        return ok

    def forks(self, st, p, where=""):
        """the sign of p: [(state, p < 0)]"""
        p = self.ip.reduce(p)
        out = []
        for rel, f in ((">=", 0), ("<", 1)):
            s2 = st.fork()
            s2.ghost["ipc"] = st.ghost["ipc"] + ((p, rel),)
            if self.ask(s2, lambda z: z.z3.BoolVal(False), 5) != "unsat":
                out.append((s2, f))
        return out

    # -- contracts
    def give(self, st, sret, by, where):
        """return an object made of the bytes `by`: through the result pointer or in registers"""
        if sret is not None:
            if not (sret.op == "ptr" and isc(sret.a[1])):
                raise Unsupported("result at a symbolic address")
            self.ex.access(st, st.mem[sret.a[0]], sret.a[1], len(by), where, True)
            st.wobj(sret.a[0]).w_conc(cv(sret.a[1]), by)
            return Outcome("ret", st, None)
        ty = self.mod.funcs[self.cur].ret
        o = self.ex.new_obj(st, max(len(by), self.mod.size(ty)), "ret")
        o.w_conc(0, by + [const(0, 8)] * (self.mod.size(ty) - len(by)))
        v = self.ex.loadty(st, t.ptr(o.id, C64(0)), ty, where)
        del st.mem[o.id]
        return Outcome("ret", st, v)

    @staticmethod
    def by(x):
        return [t.extract(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)]

    def c_addsub(self, st, sret, args, n, op, where):
        a, b = args
        A, B = self.val(self.get(st, a, n, where)), self.val(self.get(st, b, n, where))
        return [self.give(s, sret, [const(f, 8), const(0, 8), const(0, 8), const(0, 8)] + self.by(x), where) for s, f, x in self.addsub(st, A, B, n, op)]

    def addsub(self, st, A, B, n, op):
        M = 1 << (32 * n)
        out = []
        if op == "+":
            d = self.ip.add(A, B)
            for s, lt in self.forks(st, self.ip.add(d, self.ip.const(-M))):
                f = 1 - lt
                out.append((s, f, self.fresh("sum", 32 * n, self.ip.add(d, self.ip.const(-M * f)))))
        else:
            d = self.ip.sub(A, B)
            for s, lt in self.forks(st, d):
                out.append((s, lt, self.fresh("dif", 32 * n, self.ip.add(d, self.ip.const(M * lt)))))
        return out

    def c_inplace(self, st, sret, args, n, op, where):
        a, b = args
        A, B = self.val(self.get(st, a, n, where)), self.val(self.get(st, b, n, where))
        out = []
        for s, f, x in self.addsub(st, A, B, n, "+" if op == "add" else "-"):
            self.put(s, a, x)
            out.append(Outcome("ret", s, const(f, 1)))
        return out

    def c_mul(self, st, sret, args, n, op, where):
        a, b = args
        A, B = self.val(self.get(st, a, n, where)), self.val(self.get(st, b, n, where))
        P = self.ip.reduce(self.ip.mul(A, B))
        mx = (1 << (32 * n)) - 1
        # 0 <= A, B < 2^W: the product lies between 0 and (2^W - 1) times either factor
        self.know(st, (P, ">="), (self.ip.sub(self.ip.scale(A, mx), P), ">="), (self.ip.sub(self.ip.scale(B, mx), P), ">="))
        return [self.give(st, sret, self.by(self.fresh("prod", 64 * n, P)), where)]

    def c_mulw(self, st, sret, args, n, op, where):
        a, b = args
        p, lo, hi = self.ip.val(b)
        x = self.fresh("prod", 32 * n + 32, self.ip.mul(self.val(self.get(st, a, n, where)), p), hi * ((1 << (32 * n)) - 1))
        return [self.give(st, sret, self.by(x), where)]

    def c_square(self, st, sret, args, n, op, where):
        A = self.val(self.get(st, args[0], n, where))
        P = self.ip.reduce(self.ip.mul(A, A))
        self.know(st, (P, ">="), (self.ip.sub(self.ip.scale(A, (1 << (32 * n)) - 1), P), ">="))
        return [self.give(st, sret, self.by(self.fresh("sq", 64 * n, self.ip.mul(A, A))), where)]

    def c_cmp(self, st, sret, args, n, op, where):
        a, b = args
        d = self.ip.sub(self.val(self.get(st, a, n, where)), self.val(self.get(st, b, n, where)))
        if op == "<":
            return [Outcome("ret", s, const(f, 1)) for s, f in self.forks(st, d)]
        out = []
        for rel, f in (("==", 1), ("!=", 0)):
            s2 = st.fork()
            s2.ghost["ipc"] = st.ghost["ipc"] + ((self.ip.reduce(d), rel),)
            if self.ask(s2, lambda z: z.z3.BoolVal(False), 5) != "unsat":
                out.append(Outcome("ret", s2, const(f, 1)))
        return out

    def arg(self, st, args, n, where):
        """a number passed by value: in registers or by reference"""
        if args[0].op == "ptr":
            return self.get(st, args[0], n, where), 1
        k = 1 if 32 * n <= 64 else 2
        x = t.concat(list(args[:k])[::-1]) if k > 1 else args[0]
        return (t.extract(x, 32 * n - 1, 0) if x.w > 32 * n else x), k

    # -- powers of two
    def pw(self, k):
        """2^k for a 64-bit term k"""
        if isc(k):
            return self.ip.const(1 << cv(k))
        base, c = k, 0
        if k.op == "add":
            c = k.a[0]
            if c >> 63:
                c = 0
            elif c:
                base = t.sub(k, C64(c))
        at = self.ip.atom(("g", "pow2", base), 1, None)
        i = next(iter(at))[0]
        self.pws[i] = base
        return self.ip.scale(at, 1 << c)

    # -- naive_reduce
    def reduce(self, W, K):
        N, NK = nw(W), nw(K)
        w = "bignum<%d>::naive_reduce<%d>" % (W, K)
        ex, st = self.mk([self.t_norm, self.t_main])
        ip = self.ip
        self.W, self.N = 32 * N, N
        pa, A = self.num(st, "a", N)
        pp, P = self.num(st, "p", NK)
        po, _ = self.num(st, "o", NK, False)
        self.pat = ip.val(P)[0]
        self.apoly = ip.val(A)[0]
        n = thr = 0
        for oc in ex.start(st, self.fn("Red<%dul, %dul>" % (W, K), "reduce"), [pa, pp, po]):
            s = oc.st
            if oc.kind != "ret":
                thr += 1
                self.claim(s, lambda z: z.poly(self.pat) == 0, "throws-only-for-zero", w)
                continue
            n += 1
            self.claim(s, lambda z: z.poly(self.pat) > 0, "zero-modulus-refused", w)
            r = self.val(self.get(s, po, NK))
            C = s.ghost.get("residue")
            if C is None:
                raise Unsupported("no residue ghost")
            self.divides(s, self.pat, ip.sub(C, self.apoly), "congruent", w)
            self.poly_is(s, ip.sub(r, C), "result-is-residue", w)
            self.claim(s, lambda z: z.z3.And(z.poly(r) >= 0, z.poly(r) < z.poly(self.pat)), "fully-reduced", w)
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    def nums(self, ex, st):
        """objects of N words: {id: poly}"""
        out = {}
        for i, o in st.mem.items():
            if o.alive and isc(o.size) and cv(o.size) == 4 * self.N and not getattr(o, "ro", False):
                try:
                    x = t.concat([o.rd(st, C64(j)) for j in range(4 * self.N)][::-1])
                except Exception:
                    continue
                if any(u.op == "uf" or (u.op == "var" and "undef" in str(u.a[0])) for u in t.topo([x])):
                    continue
                out[i] = self.val(x)
        return out

    def multiple(self, p):
        i = next(iter(self.pat))[0]
        return bool(p) and all(i in m for m in p)

    def t_norm(self, ex, st, f, H, lp, env):
        ns = self.nums(ex, st)
        sobs = [i for i, p in ns.items() if self.multiple(p)]
        if len(sobs) != 1:
            return None
        return Norm(self, sobs[0])

    def t_main(self, ex, st, f, H, lp, env):
        ns = self.nums(ex, st)
        sobs = [i for i, p in ns.items() if self.multiple(p)]
        cobs = [i for i, p in ns.items() if p and not self.multiple(p) and self.multiple(self.ip.sub(p, self.apoly)) or p == self.apoly]
        if len(sobs) != 1 or len(cobs) != 1:
            return None
        p = ns[sobs[0]]
        # s = p 2^sh
        if len(p) != 1:
            return None
        (m, c), = p.items()
        i = next(iter(self.pat))[0]
        m = [x for x in m if x != i]
        if c & (c - 1) or len(m) > 1 or (m and m[0] not in self.pws):
            return None
        sh = t.add(self.pws[m[0]] if m else C64(0), C64(c.bit_length() - 1))
        return Main(self, sobs[0], cobs[0], sh)


class HiLoop(Template):
    def invert(self, g, b):
        return g["inv"][b["desc"].split("~")[1].split("/")[0]]

    def measure(self, g):
        return g["m"]

    def phi_cands(self, ex, st, mode):
        return []

    def managed(self, st):
        return set(self.man)


class Norm(HiLoop):
    """s = p 2^k with no bit lost; k counts up"""
    name = "normalise"

    def __init__(self, h, so):
        self.h, self.so, self.man = h, so, {so}

    def drivers(self, ex, st, v, mode):
        if v.w in (32, 64) and v.op not in ("ptr", "base"):
            return [("shift", lambda x: self.g(t.zext(x, 64) if x.w < 64 else x))]
        return []

    def g(self, k):
        return {"k": k, "m": k, "inv": {"shift": k}}

    def ghost(self, ex, st, mode):
        k = t.zext(t.fresh("sh", 20), 64)
        return self.g(k), [t.ult(k, C64(self.h.W))]

    def want(self, g):
        return self.h.ip.mul(self.h.pat, self.h.pw(g["k"]))

    def apply(self, ex, st, g, mode):
        h = self.h
        p = self.want(g)
        st.ghost["ipc"] = st.ghost["ipc"] + ((h.ip.add(p, h.ip.const(-(1 << h.W))), "<"),)
        h.lemma(st, g["k"])
        h.put(st, t.ptr(self.so, C64(0)), h.fresh("s", h.W, p))

    def gconds(self, ex, st, g, mode):
        return []

    def conds(self, ex, st, g, mode):
        h = self.h

        def ok(s):
            p = h.ip.reduce(self.want(g))
            h.lemma(s, g["k"])
            x = h.val(h.get(s, t.ptr(self.so, C64(0)), h.N))
            return h.poly_is(s, h.ip.sub(x, p), "loop-invariant", "normalise: s = p 2^k") and \
                h.claim(s, lambda z: z.poly(p) < 1 << h.W, "loop-invariant", "normalise: no bit lost") and \
                h.claim(s, lambda z: z.term(g["k"]) < h.W, "loop-invariant", "normalise: shift bounded")
        return [("s", ok)]


class Main(HiLoop):
    """k counts down from sh to -1: s = p 2^k (floor(p/2) at -1), c = a - q p, 0 <= c < 2 p 2^k"""
    name = "subtract"

    def __init__(self, h, so, co, sh):
        self.h, self.so, self.co, self.sh, self.man = h, so, co, sh, {so, co}

    def drivers(self, ex, st, v, mode):
        if v.w in (32, 64) and v.op not in ("ptr", "base"):
            z = lambda x: t.zext(x, 64) if x.w < 64 else x
            return [("up", lambda x: self.g(t.sub(self.sh, z(x)))), ("down", lambda x: self.g(z(x))), ("down1", lambda x: self.g(t.sub(z(x), C64(1))))]
        return []

    def g(self, k):
        return {"k": k, "m": t.sub(C64(2 * self.h.W), k), "inv": {"up": t.sub(self.sh, k), "down": k, "down1": t.add(k, C64(1))}}

    def ghosts(self, ex, st, mode):
        m = t.zext(t.fresh("m", 20), 64)
        return [(self.g(t.add(m, C64(1))), [t.ult(m, self.sh), t.ult(self.sh, C64(self.h.W))]), (self.g(C64(0)), [t.ult(self.sh, C64(self.h.W))]), (self.g(C64(-1 & (1 << 64) - 1)), [t.ult(self.sh, C64(self.h.W))])]

    def last(self, k):
        return isc(k) and cv(k) == (1 << 64) - 1

    def phi_cands(self, ex, st, mode):
        return [("sh", lambda g: self.sh)]

    def bound(self, k):
        h = self.h
        return h.pat if self.last(k) else h.ip.scale(h.ip.mul(h.pat, h.pw(k)), 2)

    def apply(self, ex, st, g, mode):
        h, k = self.h, g["k"]
        q = h.ip.ghost("q%d" % t._cnt[0])
        t.fresh("q", 1)
        c = h.ip.sub(h.apoly, h.ip.mul(q, h.pat))
        bd = self.bound(k)
        ipc = ((c, ">="), (h.ip.sub(c, bd), "<"), (h.ip.add(c, h.ip.const(-(1 << h.W))), "<"))
        if self.last(k):
            s = h.ip.floor(h.pat, 0, h.ip.atoms[next(iter(h.pat))[0]][2], 1)[0]
        else:
            s = h.ip.mul(h.pat, h.pw(k))
            ipc += ((h.ip.add(s, h.ip.const(-(1 << h.W))), "<"),)
        st.ghost["ipc"] = st.ghost["ipc"] + ipc
        st.ghost["residue"] = c
        h.put(st, t.ptr(self.so, C64(0)), h.fresh("s", h.W, s))
        h.put(st, t.ptr(self.co, C64(0)), h.fresh("c", h.W, c))

    def gconds(self, ex, st, g, mode):
        return [("range", t.bor(t.ule(g["k"], self.sh), t.eq(g["k"], C64(-1 & (1 << 64) - 1))))]

    def conds(self, ex, st, g, mode):
        h, k = self.h, g["k"]
        if isc(k) is False and st.decide(t.eq(k, C64(-1 & (1 << 64) - 1))) is True:
            k = C64(-1 & (1 << 64) - 1)

        def ok(s):
            x = h.val(h.get(s, t.ptr(self.so, C64(0)), h.N))
            c = h.val(h.get(s, t.ptr(self.co, C64(0)), h.N))
            s.ghost["residue"] = c
            bd = self.bound(k)
            want = h.ip.floor(h.pat, 0, h.ip.atoms[next(iter(h.pat))[0]][2], 1)[0] if self.last(k) else h.ip.mul(h.pat, h.pw(k))
            return h.poly_is(s, h.ip.sub(x, want), "loop-invariant", "subtract: s") and h.divides(s, h.pat, h.ip.sub(c, h.apoly), "loop-invariant", "subtract: c = a mod p") and \
                h.claim(s, lambda z: z.z3.And(z.poly(c) >= 0, z.poly(c) < z.poly(bd)), "loop-invariant", "subtract: c < 2 s")
        return [("c", ok)]


def lemma(self, st, k):
    """2^k < 2^W implies k < W; p >= 1 implies p 2^b >= 2^b"""
    ip = self.ip
    for m, c in self.pw(k).items():
        for i in m:
            base = self.pws.get(i)
            if base is None or (i, c) in self.lemmas:
                continue
            self.lemmas.add((i, c))
            ip.facts.setdefault(i, []).append(lambda z, i=i, base=base, c=c: z.z3.And(
                z.z3.Implies(c * z.atom(i) < 1 << self.W, z.poly(ip.val(base)[0]) + c.bit_length() - 1 < self.W),
                z.z3.Implies(z.poly(self.pat) >= 1, z.poly(ip.mul(self.pat, {(i,): 1})) >= z.atom(i))))


Hi.lemma = lemma
