"""GF(2^128): the term of the result is evaluated in the domain of polynomials of degree two over GF(2) (one linear form and one
bilinear form per bit) and compared with SP 800-38D multiplication, coefficient by coefficient."""
from . import terms as t, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported, Failure
from .loops import LoopEngine


class Forms:
    """vars: list of 16-byte lists of byte variables; bit index of byte k bit b (LSB=0) of input v is v*128 + 8k + b; 384 = constant 1"""

    def __init__(self, ins):
        self.bit = {}
        for v, bs in enumerate(ins):
            for k, b in enumerate(bs):
                self.bit[b] = v * 128 + 8 * k
        self.memo = {}

    def mulforms(self, x, y):
        if x[1] or y[1]:
            raise Unsupported("product of degree above two")
        r = 0
        a = x[0]
        while a:
            i = a & -a
            a ^= i
            r ^= y[0] << (385 * (i.bit_length() - 1))
        return r

    def canon(self, q):
        """symmetric: x_i x_j = x_j x_i; x_i x_i = x_i; 1*x = x -> (lin, bil upper)"""
        return q

    def ev(self, roots):
        for x in t.topo(roots):
            if x in self.memo:
                continue
            self.memo[x] = self.one(x)
        return [self.memo[r] for r in roots]

    def one(self, x):
        m = self.memo
        op = x.op
        if op == "c":
            v = cv(x)
            return [((1 << 384), 0) if v >> i & 1 else (0, 0) for i in range(x.w)]
        if op == "v":
            if x not in self.bit:
                raise Unsupported("unexpected variable %s" % x)
            b = self.bit[x]
            return [(1 << (b + i), 0) for i in range(8)]
        if op == "cat":
            out = []
            for p in reversed(x.a):
                out += m[p]
            return out
        if op == "ex":
            return m[x.a[0]][x.a[2]:x.a[1] + 1]
        if op == "xor":
            out = [(0, 0)] * x.w
            for p in x.a:
                out = [(a[0] ^ b[0], a[1] ^ b[1]) for a, b in zip(out, m[p])]
            return out
        if op == "sext":
            v = m[x.a[0]]
            return v + [v[-1]] * (x.w - len(v))
        if op == "zext":
            v = m[x.a[0]]
            return v + [(0, 0)] * (x.w - len(v))
        if op in ("shl", "lshr", "ashr") and isc(x.a[1]):
            v, k = m[x.a[0]], cv(x.a[1])
            if op == "shl":
                return [(0, 0)] * k + v[:x.w - k]
            return v[k:] + [(0, 0) if op == "lshr" else v[-1]] * k
        if op == "or":
            out = [(0, 0)] * x.w
            for p in x.a:
                n = []
                for a, b in zip(out, m[p]):
                    if a != (0, 0) and b != (0, 0):
                        if a == b:
                            n.append(a)
                            continue
                        ab = self.mulforms(a, b)
                    else:
                        ab = 0
                    n.append((a[0] ^ b[0], a[1] ^ b[1] ^ ab))
                out = n
            return out
        if op == "not":
            return [(a[0] ^ (1 << 384), a[1]) for a in m[x.a[0]]]
        if op == "and":
            cs = [p for p in x.a if isc(p)]
            rest = [p for p in x.a if not isc(p)]
            if len(rest) == 1 and cs:
                k = cv(cs[0])
                return [v if k >> i & 1 else (0, 0) for i, v in enumerate(m[rest[0]])]
            if len(rest) == 2 and not cs:
                return [(0, self.mulforms(a, b)) for a, b in zip(m[rest[0]], m[rest[1]])]
        if op == "ite" and isinstance(x.a[0], t.T) and x.a[0].w == 1:
            c = m[x.a[0]][0]
            a, b = m[x.a[1]], m[x.a[2]]
            out = []
            for p, q in zip(a, b):
                d = (p[0] ^ q[0], p[1] ^ q[1])
                if d[0] == 1 << 384 and not d[1]:
                    out.append((q[0] ^ c[0], q[1] ^ c[1]))
                else:
                    out.append((q[0], q[1] ^ self.mulforms(c, d)) if d != (0, 0) else q)
            return out
        if op == "uf" and x.a[0] == "clmul":
            a, b = m[x.a[1]], m[x.a[2]]
            out = [(0, 0)] * x.w
            out = [[0, 0] for _ in range(x.w)]
            for i, p in enumerate(a):
                if p == (0, 0):
                    continue
                for j, q in enumerate(b):
                    if q != (0, 0):
                        out[i + j][1] ^= self.mulforms(p, q)
            return [tuple(o) for o in out]
        raise Unsupported("operation %s outside the GF(2) domain" % op)


def canon(form):
    """(lin, bil) -> canonical (lin, {pairs})"""
    lin, bil = form
    pairs = set()
    i = 0
    while bil:
        row = bil & ((1 << 385) - 1)
        bil >>= 385
        while row:
            j = row & -row
            row ^= j
            jj = j.bit_length() - 1
            if i == 384 or jj == 384:
                lin ^= 1 << (jj if i == 384 else i)
            elif i == jj:
                lin ^= 1 << i
            else:
                pairs ^= {(min(i, jj), max(i, jj))}
        i += 1
    return lin, frozenset(pairs)


def pos(d):
    """bit position (byte-wise, LSB first) of coefficient x^d of a GCM block: the leftmost bit of byte 0 is x^0"""
    return 8 * (d // 8) + 7 - d % 8


# x^k modulo x^128 + x^7 + x^2 + x + 1, as a set of exponents
def red(k):
    s = {k}
    while max(s, default=0) >= 128:
        m = max(s)
        s ^= {m, m - 128, m - 127, m - 126, m - 121}
    return s


RED = [red(k) for k in range(255)]


def product(xs, ys):
    """GCM product of two blocks given per coefficient as sets of variables"""
    out = [set() for _ in range(128)]
    for i in range(128):
        for j in range(128):
            ps = {(min(a, b), max(a, b)) for a in xs[i] for b in ys[j]}
            for d in RED[i + j]:
                out[d] ^= ps
    return out


def run(mod, dem, fn, kind):
    ex = Executor(mod)
    ex.dem = dem
    stdmodel.install(ex)
    ex.loop_hook = LoopEngine([])
    st = State(ex)
    ins, ptrs = [], []
    for v in range(3):
        bs = [t.var("%s%d" % ("abc"[v], k), 8) for k in range(16)]
        o = ex.new_obj(st, 16, "in%d" % v)
        o.w_conc(0, bs)
        ins.append(bs)
        ptrs.append(t.ptr(o.id, const(0, 64)))
    out = ex.new_obj(st, 16, "out")
    V = lambda v: [{128 * v + pos(d)} for d in range(128)]
    if kind == "reflect":
        want = [None] * 128
        for i in range(128):
            want[i] = (1 << (8 * (i // 8) + 7 - i % 8), frozenset())
    else:
        xs = V(0) if kind == "mul" else [a | b for a, b in zip(V(0), V(2))]
        pr = product(xs, V(1))
        want = [None] * 128
        for d in range(128):
            want[pos(d)] = (0, frozenset(pr[d]))
    n = 0
    for oc in ex.start(st, fn, ptrs + [t.ptr(out.id, const(0, 64))]):
        if oc.kind != "ret":
            ex.prove(oc.st, FALSE, "no-throw", fn)
            continue
        n += 1
        F = Forms(ins)
        got = sum(F.ev([oc.st.mem[out.id].rd(oc.st, const(k, 64)) for k in range(16)]), [])
        for i in range(128):
            ex.oblig += 1
            kk = "coefficient" if kind != "reflect" else "bit"
            ex.obkinds[kk] = ex.obkinds.get(kk, 0) + 1
            if canon(got[i]) == want[i]:
                ex.discharged += 1
            else:
                ex.failures.append(Failure(kk, "%s output bit %d" % (fn, i), "differs from the specification", None, oc.st, "refuted"))
    if not n:
        raise Unsupported("no returning path")
    return [ex]
