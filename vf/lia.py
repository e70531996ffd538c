"""Linear-integer view of bit-vector conditions: w-bit sums become integer sums minus a multiple of 2^w, everything that is
not linear is an opaque integer in range.  The translation only forgets facts, so unsat carries over to the bit-vector query."""
import z3
from . import terms as t_


class Tr:
    def __init__(self):
        self.s = z3.Solver()
        self.ic, self.bc = {}, {}
        self.n = 0
        self.linear = 0
        self.exact = True
        self.vars = []

    def fresh(self, lo, hi):
        v = z3.Int("i%d" % self.n)
        self.n += 1
        self.s.add(v >= lo, v < hi)
        return v

    def i(self, t):
        r = self.ic.get(t)
        if r is not None:
            return r
        o, a, w = t.op, t.a, t.w
        if o == "c":
            r = z3.IntVal(a[0])
        elif o == "add":
            c, prs = a
            M = 1 << w
            tot = z3.IntVal(c)
            lo = hi = c
            if c >> (w - 1):
                tot, lo, hi = z3.IntVal(c - M), c - M, c - M
            for k, x in prs:
                if k >> (w - 1):
                    k -= M
                tot = tot + k * self.i(x)
                b = bound(x)
                lo, hi = (lo, hi + k * b) if k > 0 else (lo + k * b, hi)
            k0, k1 = lo // M, hi // M
            if k0 == k1:
                r = tot - k0 * M
            else:
                kk = self.fresh(k0, k1 + 1)
                r = z3.Int("i%d" % self.n)
                self.n += 1
                self.s.add(r == tot - kk * M, r >= 0, r < M)
            self.linear += 1
        elif o == "cat" and a[0].op == "c" and a[0].a[0] == 0 and len(a) == 2:
            r = self.i(a[1])
        elif o == "cat" and a[-1].op == "c" and len(a) == 2:
            r = self.i(a[0]) * (1 << a[1].w) + a[1].a[0]
        elif o == "cat" and len(a) == 3 and a[0].op == "c" and a[0].a[0] == 0 and a[-1].op == "c":
            r = self.i(a[1]) * (1 << a[2].w) + a[2].a[0]
        elif o == "ite":
            r = z3.If(self.b(a[0]), self.i(a[1]), self.i(a[2]))
        elif o == "v":
            r = self.fresh(0, 1 << w)
            self.vars.append((a[0], r))
        elif o == "ex":
            # x = q * 2^(hi+1) + r * 2^lo + s
            hi, lo = a[1], a[2]
            x = self.i(a[0])
            r = self.fresh(0, 1 << (hi - lo + 1))
            e = r * (1 << lo)
            if hi < a[0].w - 1:
                e = e + self.fresh(0, 1 << (a[0].w - 1 - hi)) * (1 << (hi + 1))
            if lo:
                e = e + self.fresh(0, 1 << lo)
            self.s.add(x == e)
        elif o == "cat":
            r = z3.IntVal(0)
            for x in a:
                r = r * (1 << x.w) + self.i(x)
        elif o == "urem" and a[1].op == "c" and a[1].a[0]:
            x = self.i(a[0])
            m = a[1].a[0]
            q = self.fresh(0, bound(a[0]) // m + 1)
            r = self.fresh(0, m)
            self.s.add(x == q * m + r)
        elif o == "udiv" and a[1].op == "c" and a[1].a[0]:
            x = self.i(a[0])
            m = a[1].a[0]
            r = self.fresh(0, bound(a[0]) // m + 1)
            q = self.fresh(0, m)
            self.s.add(x == r * m + q)
        else:
            r = self.fresh(0, bound(t) + 1)
            self.exact = False
        self.ic[t] = r
        return r

    def b(self, t):
        r = self.bc.get(t)
        if r is not None:
            return r
        o, a = t.op, t.a
        if t is t_.TRUE:
            r = z3.BoolVal(True)
        elif t is t_.FALSE:
            r = z3.BoolVal(False)
        elif o == "eq":
            r = self.b(a[0]) == self.b(a[1]) if a[0].w == 1 else self.i(a[0]) == self.i(a[1])
        elif o == "ult":
            r = self.i(a[0]) < self.i(a[1])
        elif o == "and":
            r = z3.And(*[self.b(x) for x in a])
        elif o == "or":
            r = z3.Or(*[self.b(x) for x in a])
        elif o == "xor":
            r = None
            for x in a:
                y = self.b(x)
                r = y if r is None else z3.Not(r) if x is t_.TRUE else z3.Xor(r, y)
        elif o == "ite":
            r = z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        else:
            r = z3.Bool("b%d" % self.n)
            self.n += 1
            self.exact = False
        self.bc[t] = r
        return r


def bound(t):
    """largest value"""
    if t.op == "c":
        return t.a[0]
    if t.op == "cat" and t.a[0].op == "c" and t.a[0].a[0] == 0:
        return (1 << (t.w - t.a[0].w)) - 1
    if t.op == "urem" and t.a[1].op == "c" and t.a[1].a[0]:
        return t.a[1].a[0] - 1
    return (1 << t.w) - 1


def worth(cs):
    """some comparison over sums of wide values"""
    for c in cs:
        u = c
        st = [u]
        while st:
            u = st.pop()
            if u.w != 1:
                continue
            if u.op in ("ult", "eq") and u.a[0].w >= 16 and (u.a[0].op == "add" or u.a[1].op == "add"):
                return True
            if u.op in ("and", "or", "xor", "eq", "ite"):
                st += [x for x in u.a if x.w == 1]
    return False


def solve(cs, timeout=3.0):
    """'unsat' | ('sat', values of the variables) when the translation was exact | None"""
    tr = Tr()
    tr.s.set("timeout", int(timeout * 1000))
    for c in cs:
        tr.s.add(tr.b(c))
    r = str(tr.s.check())
    if r == "unsat":
        return r
    if r == "sat" and tr.exact:
        m = tr.s.model()
        return ("sat", {n: m.eval(v, model_completion=True).as_long() for n, v in tr.vars})
    return None
