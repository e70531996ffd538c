"""Exact integer values of machine words as polynomials.

Every bit-vector term denotes an integer; a term is rewritten to a polynomial with integer coefficients over atoms:
variables, floor(P / 2^k) for polynomials P (carries and high halves), [P < 0] (borrows) and equality tests.
Wrap-around is made explicit: a w-bit sum with integer value P outside [0, 2^w) becomes P - 2^w floor(P / 2^w).
Equal polynomials denote equal integers, so an identity between polynomials is a proof for all values of the variables."""
import sys
from . import terms as t
from .terms import isc, cv

sys.set_int_max_str_digits(0)


class IP:
    def __init__(self):
        self.ids = {}
        self.atoms = []          # (key, lo, hi)
        self._val = {}
        self._raw = {}
        self.rules = {}
        self._dec = {}
        self.facts = {}          # atom id -> [fn(z) -> z3 formula]

    # -- polynomials: {sorted tuple of atom ids: coefficient}
    def atom(self, key, lo, hi):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.atoms)
            self.atoms.append((key, lo, hi))
        return {(i,): 1}

    def isbool(self, i):
        return self.atoms[i][1] == 0 and self.atoms[i][2] == 1

    @staticmethod
    def const(c):
        return {(): c} if c else {}

    @staticmethod
    def add(*ps):
        r = dict(ps[0])
        for p in ps[1:]:
            for m, c in p.items():
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    @staticmethod
    def scale(p, k):
        return {m: c * k for m, c in p.items()} if k else {}

    def sub(self, a, b):
        return self.add(a, self.scale(b, -1))

    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = m + n
                if m and n:
                    k = sorted(k)
                    o = []
                    for x in k:
                        if not (o and o[-1] == x and self.isbool(x)):
                            o.append(x)
                    k = tuple(o)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    @staticmethod
    def key(p):
        return frozenset(p.items())

    def floor(self, p, lo, hi, k):
        """floor(p / 2^k) for lo <= p <= hi"""
        if k == 0:
            return p, lo, hi
        p = self.reduce(p)
        if p and all(c % (1 << k) == 0 for c in p.values()):
            return {m: c >> k for m, c in p.items()}, lo >> k, hi >> k
        a, b = lo >> k, hi >> k
        if a == b:
            return self.const(a), a, a
        c = p.get((), 0)
        if c and all(v % (1 << k) == 0 for m, v in p.items() if m):
            return {m: v >> k for m, v in p.items() if v >> k}, a, b
        if c and c % (1 << k) == 0:
            q = dict(p)
            del q[()]
            r, x, y = self.floor(q, lo - c, hi - c, k)
            return self.add(r, self.const(c >> k)), x + (c >> k), y + (c >> k)
        if len(p) <= 12:
            out = {m: v >> k for m, v in p.items() if v % (1 << k) == 0}
            if out:
                q = {m: v for m, v in p.items() if v % (1 << k)}
                r = self.range(q)
                if r is not None:
                    x, _, _ = self.floor(q, r[0], r[1], k)
                    return self.add(out, x), a, b
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]][0][0] == "F":
                kk = self.atoms[m[0]][0]
                return self.atom(("F", kk[1], kk[2] + k), a, b), a, b
        if lo >= -(1 << k) and hi < (1 << k):
            return self.scale(self.negative(p), -1), -1, 0
        return self.atom(("F", self.key(p), k), a, b), a, b

    def wrap(self, p, lo, hi, w):
        if lo >= 0 and hi < 1 << w:
            return p, lo, hi
        f, _, _ = self.floor(p, lo, hi, w)
        return self.sub(p, self.scale(f, 1 << w)), 0, (1 << w) - 1

    def raw(self, x):
        """polynomial congruent to x modulo 2^w, with range"""
        r = self._raw.get(x)
        if r is None:
            self.warm(x)
            r = self._raw[x] = self._mkraw(x)
        return r

    def warm(self, x):
        """children first, to keep the recursion flat"""
        todo = [y for y in t.topo([x]) if y not in self._val]
        for y in todo:
            if y is not x and 0 < y.w and y.op not in ("ptr", "base", "tab"):
                try:
                    self.val(y, False)
                except NotImplementedError:
                    pass

    def val(self, x, warm=True):
        r = self._val.get(x)
        if r is None:
            if warm:
                self.warm(x)
            p, lo, hi = self._raw.get(x) or self._mkraw(x)
            self._raw[x] = (p, lo, hi)
            r = self._val[x] = self.wrap(p, lo, hi, x.w)
        return r

    def _leaf(self, x):
        u = min((1 << x.w) - 1, t.ubound(x))
        return self.atom(("v", x), 0, u), 0, u

    def _mkraw(self, x):
        op, w = x.op, x.w
        if op == "c":
            return self.const(x.a[0]), x.a[0], x.a[0]
        if op == "cat":
            p, lo, hi, off = {}, 0, 0, 0
            for y in reversed(x.a):
                q, a, b = self.val(y, False)
                p = self.add(p, self.scale(q, 1 << off))
                lo, hi = lo + (a << off), hi + (b << off)
                off += y.w
            return p, lo, hi
        if op == "ex":
            y, h, l = x.a
            q, a, b = self.raw(y) if y not in self._raw else self._raw[y]
            q = self.reduce(q)
            p, lo, hi = self.floor(q, a, b, l)
            if lo >= 0 and hi < 1 << (h - l + 1):
                return p, lo, hi
            f, _, _ = self.floor(q, a, b, h + 1)
            return self.sub(p, self.scale(f, 1 << (h - l + 1))), 0, (1 << w) - 1
        if op == "add":
            c, prs = x.a
            if c >> (w - 1):
                c -= 1 << w
            p, lo, hi = self.const(c), c, c
            for k, y in prs:
                k &= (1 << w) - 1
                if k >> (w - 1):
                    k -= 1 << w
                q, a, b = self.raw(y) if y.op == "sext" else self.val(y, False)
                p = self.add(p, self.scale(q, k))
                lo, hi = lo + min(k * a, k * b), hi + max(k * a, k * b)
            return p, lo, hi
        if op == "sext" or (op == "ashr" and isc(x.a[1])):
            y = x.a[0]
            k = cv(x.a[1]) if op == "ashr" else 0
            half = 1 << (y.w - 1)
            p = None
            if y.op == "ex":
                z, h, l = y.a
                q, a, b = self.raw(z) if z not in self._raw else self._raw[z]
                p, lo, hi = self.floor(self.reduce(q), a, b, l)
            elif y in self._raw:
                p, lo, hi = self._raw[y]
            if p is None or lo < -half or hi >= half:
                p, lo, hi = self.val(y, False)
                if hi >= half:
                    p, lo, hi = self.sub(p, self.scale(self.sub(self.const(1), self.negative(self.sub(p, self.const(half)), lo - half, hi - half)), 2 * half)), -half, half - 1
            return self.floor(p, lo, hi, k)
        if op == "mul":
            p, lo, hi = self.const(1), 1, 1
            for y in x.a:
                q, a, b = self.val(y, False)
                p = self.mul(p, q)
                lo, hi = lo * a, hi * b
            return p, lo, hi
        if op == "ite":
            c, a, b = x.a
            pc = self.val(c, False)[0]
            pa, l1, h1 = self.val(a, False)
            pb, l2, h2 = self.val(b, False)
            r = self.add(self.mul(pc, pa), pb, self.scale(self.mul(pc, pb), -1))
            return self.simplify(r) if w == 1 else r, min(l1, l2), max(h1, h2)
        if w == 1 and op in ("and", "or", "xor"):
            vs = [self.val(y, False)[0] for y in x.a]
            r = vs[0]
            for v in vs[1:]:
                m = self.mul(r, v)
                r = self.simplify(m if op == "and" else self.add(r, v, self.scale(m, -1 if op == "or" else -2)))
            return r, 0, 1
        if op == "xor" and len(x.a) == 2 and x.a[1].op == "c" and x.a[1].a[0] == (1 << w) - 1:
            q, a, b = self.val(x.a[0], False)
            return self.sub(self.const((1 << w) - 1), q), (1 << w) - 1 - b, (1 << w) - 1 - a
        if op in ("eq", "ult"):
            a, b = x.a
            if a.op in ("ptr", "base") or b.op in ("ptr", "base"):
                return self._leaf(x)
            pa, l1, h1 = self.val(a, False)
            pb, l2, h2 = self.val(b, False)
            d = self.sub(pa, pb)
            lo, hi = l1 - h2, h1 - l2
            at = sorted({i for m in d for i in m})
            if len(at) <= 4 and all(self.isbool(i) for i in at):
                r = {}
                for bits in range(1 << len(at)):
                    on = {i for k, i in enumerate(at) if bits >> k & 1}
                    v = sum(c for m, c in d.items() if set(m) <= on)
                    if (v == 0) if op == "eq" else (v < 0):
                        term = self.const(1)
                        for k, i in enumerate(at):
                            term = self.mul(term, {(i,): 1} if bits >> k & 1 else {(): 1, (i,): -1})
                        r = self.add(r, term)
                return r, 0, 1
            if op == "ult":
                if hi < 0:
                    return self.const(1), 1, 1
                if lo >= 0:
                    return {}, 0, 0
                return self.negative(d, lo, hi), 0, 1
            if lo > 0 or hi < 0:
                return {}, 0, 0
            return self.atom(("EQ", self.key(d)), 0, 1), 0, 1
        return self._leaf(x)

    # -- truth values
    def range(self, p):
        lo = hi = 0
        for m, c in p.items():
            a = b = 1
            for i in m:
                l, h = self.atoms[i][1:3]
                if l is None or h is None or l < 0:
                    return None
                a, b = a * l, b * h
            lo, hi = (lo + c * a, hi + c * b) if c > 0 else (lo + c * b, hi + c * a)
        return lo, hi

    @staticmethod
    def subst(p, i, v):
        r = {}
        for m, c in p.items():
            if i in m:
                if not v:
                    continue
                m = tuple(x for x in m if x != i)
            r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}

    def sign(self, p):
        """1 for p < 0, 0 for p >= 0, None when the ranges do not tell"""
        r = self.range(p)
        return None if r is None else 1 if r[1] < 0 else 0 if r[0] >= 0 else None

    def boolpick(self, i, hi, lo):
        """hi where the truth value i is 1, lo where it is 0"""
        x = {(i,): 1}
        return self.add(self.mul(x, hi), lo, self.scale(self.mul(x, lo), -1))

    def negative(self, d, lo=None, hi=None):
        """[d < 0]"""
        if len(d) <= 8:
            for i in sorted({i for m in d for i in m if self.isbool(i)}):
                on, off = self.subst(d, i, 1), self.subst(d, i, 0)
                a, b = self.sign(on), self.sign(off)
                if a is None and b is None:
                    continue
                return self.boolpick(i, self.const(a) if a is not None else self.negative(on), self.const(b) if b is not None else self.negative(off))
        if lo is not None and len(d) <= 12 and -(1 << 32) <= lo and hi < 1 << 32 and any(m and c % (1 << 32) == 0 for m, c in d.items()):
            return self.scale(self.floor(d, lo, hi, 32)[0], -1)
        return self.atom(("NEG", self.key(d)), 0, 1)

    def asneg(self, p):
        """the polynomials q with p = [q < 0]"""
        if p == {}:
            return None
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]][0][0] == "NEG":
                return dict(self.atoms[m[0]][0][1])
        if len(p) == 2 and p.get(()) == 1:
            m = next(k for k in p if k)
            if p[m] == -1 and len(m) == 1 and self.atoms[m[0]][0][0] == "NEG":
                return self.add(self.scale(dict(self.atoms[m[0]][0][1]), -1), self.const(-1))
        return None

    def decided(self, j, i):
        """the value of the truth atom j where the truth atom i is 1, if the ranges tell"""
        k = (j, i)
        r = self._dec.get(k, 0)
        if r == 0:
            key, r = self.atoms[j][0], None
            if key[0] in ("F", "NEG"):
                q = dict(key[1])
                other = self.atoms[i][0]
                if other[0] == key[0] and (key[0] == "NEG" or other[2] == key[2]):      # one of two monotone truth values implies the other
                    x = self.range(self.sub(q, dict(other[1])))
                    if x and (x[1] <= 0 if key[0] == "NEG" else x[0] >= 0):
                        r = 1
                if r is None and any(i in m for m in q):
                    on = self.subst(q, i, 1)
                    if key[0] == "NEG":
                        r = self.sign(on)
                    else:
                        x = self.range(on)
                        if x and x[0] >> key[2] == x[1] >> key[2]:
                            r = x[0] >> key[2]
            self._dec[k] = r
        return r

    def simplify(self, p):
        """a truth value: products of carries that exclude each other, comparisons chosen by a carry"""
        if len(p) > 12:
            return p
        again = True
        while again:
            again = False
            for m in list(p):
                for j in m:
                    for i in m:
                        r = self.decided(j, i) if i != j and self.isbool(i) and self.isbool(j) else None
                        if r is not None:
                            c = p[m]
                            p = {k: v for k, v in p.items() if k != m}
                            if r:
                                p = self.add(p, {tuple(x for x in m if x != j): c})
                            again = True
                            break
                    if again:
                        break
                if again:
                    break
        if max((len(m) for m in p), default=0) == 2:
            at = {i for m in p for i in m}
            if len(at) <= 4:
                for i in sorted(at):
                    if not self.isbool(i):
                        return p
                for i in sorted(at):
                    a, b = self.asneg(self.subst(p, i, 1)), self.asneg(self.subst(p, i, 0))
                    if a is None or b is None:
                        continue
                    k = self.sub(a, b)
                    if not k or set(k) == {()}:
                        return self.negative(self.add(b, self.scale({(i,): 1}, k.get((), 0))))
        return p

    def words(self, ws, bits=32):
        """value of little-endian words"""
        p = {}
        for i, x in enumerate(ws):
            p = self.add(p, self.scale(self.val(x)[0], 1 << (bits * i)))
        return p

    # -- ghosts: variables standing for known integers, products with known values
    def define(self, x, p, lo=0, hi=None):
        """the fresh variable x denotes the integer p"""
        self._val[x] = self._raw[x] = (p, lo, (1 << x.w) - 1 if hi is None else hi)

    def ghost(self, name, lo=None, hi=None):
        return self.atom(("g", name), lo, hi)

    def rule(self, a, b, p):
        """the product of the atoms a and b equals p"""
        i, j = (next(iter(x))[0] for x in (a, b))
        self.rules[tuple(sorted((i, j)))] = p

    def reduce(self, p):
        """apply the product rules"""
        if not self.rules:
            return p
        while True:
            for m in p:
                for (i, j), q in self.rules.items():
                    if i in m and j in m and (i != j or m.count(i) > 1):
                        l = list(m)
                        l.remove(i)
                        l.remove(j)
                        c = p[m]
                        r = {k: v for k, v in p.items() if k != m}
                        p = self.add(r, self.scale(self.mul({tuple(l): 1}, q), c))
                        break
                else:
                    continue
                break
            else:
                return p


class Z3:
    """linear integer arithmetic over the atoms of an IP; products of unknowns are opaque integers"""

    def __init__(self, ip):
        import z3
        self.z3, self.ip = z3, ip
        self.v, self.mono = {}, {}
        self.done = set()
        self.asm = []

    def atom(self, i):
        z3, ip = self.z3, self.ip
        x = self.v.get(i)
        if x is None:
            key, lo, hi = ip.atoms[i]
            x = self.v[i] = z3.Int("a%d" % i)
            if lo is not None:
                self.asm.append(x >= lo)
            if hi is not None:
                self.asm.append(x <= hi)
            if key[0] == "F":
                p = self.poly(dict(key[1]))
                self.asm += [p >= x * (1 << key[2]), p < (x + 1) * (1 << key[2])]
            elif key[0] == "NEG":
                self.asm.append((x == 1) == (self.poly(dict(key[1])) < 0))
            elif key[0] == "EQ":
                self.asm.append((x == 1) == (self.poly(dict(key[1])) == 0))
            for f in ip.facts.get(i, ()):
                self.asm.append(f(self))
        return x

    def poly(self, p):
        z3, ip = self.z3, self.ip
        r = []
        for m, c in ip.reduce(p).items():
            bs = [i for i in m if ip.isbool(i)]
            us = [i for i in m if not ip.isbool(i)]
            if len(us) <= 1:
                x = self.atom(us[0]) if us else z3.IntVal(1)
            else:
                k = tuple(us)
                x = self.mono.get(k)
                if x is None:
                    x = self.mono[k] = z3.Int("m" + "_".join(map(str, k)))
                    lo, hi = 1, 1
                    for i in us:
                        self.atom(i)
                        a, b = ip.atoms[i][1], ip.atoms[i][2]
                        if a is None or a < 0 or lo is None:
                            lo = None
                        else:
                            lo *= a
                            hi = None if b is None or hi is None else hi * b
                    if lo is not None:
                        self.asm.append(x >= lo)
                        if hi is not None:
                            self.asm.append(x <= hi)
            for b in bs:
                x = z3.If(self.atom(b) == 1, x, z3.IntVal(0))
            r.append(c * x)
        return z3.Sum(r) if r else z3.IntVal(0)

    def term(self, x):
        return self.poly(self.ip.val(x)[0])

    def check(self, pcs, claim, timeout=20):
        """claim: fn(self) -> formula; -> 'unsat' when it follows"""
        z3 = self.z3
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        c = claim(self)
        ps = []
        for p in pcs:
            try:
                ps.append(self.term(p) == 1)
            except NotImplementedError:
                pass
        s.add(ps)
        s.add(z3.Not(c))
        s.add(self.asm)
        return str(s.check())
