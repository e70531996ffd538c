"""Loop template for code that walks over `total` bytes: the abstract state is the number k of bytes done."""
from . import terms as t, smt
from .terms import const, isc, cv, TRUE, FALSE
from .loops import Template


class PosLoop(Template):
    """install(ex, st, k): make st an arbitrary state after k bytes; check(ex, st, k, where) -> bool proves that st is one.
    ptrs: pointers p such that p+k may appear in loop variables.  grans: bytes per step to try (k is a multiple of it, except
    that the last step may end at total when `partial`)."""

    def __init__(self, name, total, grans, ptrs, install, check, managed, extra=(), limit=None):
        self.name, self.total, self.grans, self.ptrs = name, total, grans, ptrs
        self._install, self._check, self._managed, self.extra = install, check, managed, list(extra)
        self.limit = limit if limit is not None else total

    def modes(self):
        return list(self.grans)

    def ghost(self, ex, st, g):
        lg = g.bit_length() - 1
        if g == 1:
            k = t.fresh("gk", 64)
        elif g & (g - 1) == 0:
            k = t.concat([t.fresh("gk", 64 - lg), const(0, lg)])
        else:
            q = t.fresh("gk", 58)
            k = t.mul(t.zext(q, 64), const(g, 64))
        return {"k": k}, [t.ule(k, self.limit)]

    def gconds(self, ex, st, gh, g):
        out = [("range", t.ule(gh["k"], self.limit))]
        if g > 1:
            out.append(("aligned", t.eq(t.urem(gh["k"], const(g, 64)), const(0, 64))))
        return out

    def drivers(self, ex, st, v, g):
        out = []
        if v.op == "ptr":
            for i, p in enumerate(self.ptrs):
                if p.op == "ptr" and p.a[0] == v.a[0]:
                    out.append(("ptr%d" % i, lambda x, p=p: {"k": t.sub(x.a[1], p.a[1])} if x.op == "ptr" and x.a[0] == p.a[0] else None))
        elif v.w in (64, 32):
            z = (lambda x: t.zext(x, 64) if x.w < 64 else x)
            out.append(("consumed", lambda x: {"k": z(x)}))
            out.append(("remaining", lambda x: {"k": t.sub(self.total, z(x))}))
            if g > 1:
                out.append(("index", lambda x: {"k": t.mul(z(x), const(g, 64))}))
        return out

    def invert(self, gh, b):
        lab = b["desc"].split("~")[1].split("/")[0]
        k = gh["k"]
        if lab.startswith("ptr"):
            return t.add(self.ptrs[int(lab[3:])], k)
        v = {"consumed": k, "remaining": t.sub(self.total, k), "index": self._div(k, b["mode"])}[lab]
        return v

    def _div(self, k, g):
        if g == 1:
            return k
        if g & (g - 1) == 0:
            return t.lshr(k, const(g.bit_length() - 1, 64))
        return t.udiv(k, const(g, 64))

    def phi_cands(self, ex, st, g):
        out = [("consumed", lambda gh: gh["k"]), ("remaining", lambda gh: t.sub(self.total, gh["k"]))]
        for i, p in enumerate(self.ptrs):
            out.append(("ptr%d" % i, lambda gh, p=p: t.add(p, gh["k"])))
        if g > 1:
            out.append(("index", lambda gh: self._div(gh["k"], g)))
        return out + self.extra

    def apply(self, ex, st, gh, g):
        self._install(ex, st, gh["k"])

    def conds(self, ex, st, gh, g):
        return [("state", lambda s: self._check(ex, s, gh["k"], self.name))]

    def measure(self, gh):
        return gh["k"]

    def managed(self, st):
        return set(self._managed)


def content(ex, st, obj, fn, lo, hi, where, kind="content"):
    """for an arbitrary lo <= j < hi: byte j of obj equals fn(st, j)"""
    j = t.fresh("j", 64)
    s2 = st.fork()
    s2.assume(t.ule(lo, j))
    s2.assume(t.ult(j, hi))
    if not s2.feasible():
        ex.oblig += 1
        ex.discharged += 1
        return True
    got = s2.mem[obj].rd(s2, j)
    return ex.prove(s2, t.eq(got, fn(s2, j)), kind, where)
