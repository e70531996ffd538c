"""Byte-addressed objects with concrete and symbolic write layers."""
from . import terms as t
from .terms import const, isc, cv


class CLayer:  # concrete cells
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class SLayer:  # bytes written at a symbolic offset
    __slots__ = ("off", "bytes")

    def __init__(self, off, by):
        self.off, self.bytes = off, by


class RLayer:  # a range [start, start+len) whose byte i (relative) is fn(st, i)
    __slots__ = ("start", "len", "fn")

    def __init__(self, start, ln, fn):
        self.start, self.len, self.fn = start, ln, fn


class Obj:
    __slots__ = ("id", "size", "base", "layers", "alive", "ro", "name", "kind", "owner", "ver", "meta")

    def __init__(self, id, size, name, kind, base=None):
        self.id, self.size, self.name, self.kind = id, size, name, kind
        self.base = base  # None: undefined bytes; else fn(st, idx)->T8
        self.layers = ()
        self.alive = True
        self.ro = False
        self.owner = None
        self.meta = None

    def clone(self, owner):
        o = Obj(self.id, self.size, self.name, self.kind, self.base)
        o.layers = self.layers
        o.alive, o.ro = self.alive, self.ro
        o.owner = owner
        o.meta = self.meta
        return o

    # -- writes (caller guarantees ownership)
    def w_conc(self, k, by):
        L = self.layers
        if L and isinstance(L[-1], CLayer) and L[-1].d.get("own") is self:
            d = L[-1].d
        else:
            d = dict(L[-1].d) if L and isinstance(L[-1], CLayer) else {}
            d["own"] = self
            if L and isinstance(L[-1], CLayer):
                self.layers = L[:-1] + (CLayer(d),)
            else:
                self.layers = L + (CLayer(d),)
        for i, b in enumerate(by):
            d[k + i] = b

    def w_sym(self, off, by):
        self.layers = self.layers + (SLayer(off, tuple(by)),)

    def w_range(self, start, ln, fn):
        if isc(start) and cv(start) == 0 and ln is self.size:
            self.layers = (RLayer(start, ln, fn),)
        else:
            self.layers = self.layers + (RLayer(start, ln, fn),)

    # -- reads
    def rd(self, st, idx):
        return t.renorm(self.rdr(st, idx))

    def rdr(self, st, idx, n=None):
        """one byte at idx (T64), possibly as a raw slice of the stored word"""
        L = self.layers
        i = (len(L) if n is None else n) - 1
        pend = []  # (cond, value)
        res = None
        while i >= 0:
            l = L[i]
            if isinstance(l, CLayer):
                if isc(idx):
                    v = l.d.get(cv(idx))
                    if v is not None:
                        res = v
                        break
                else:
                    r = self._rd_cells(st, l, idx, i)
                    if r is not None:
                        res = r
                        break
            elif isinstance(l, SLayer):
                rel = t.sub(idx, l.off)
                m = len(l.bytes)
                c = t.ult(rel, const(m, 64))
                d = st.decide(c)
                if d is not False:
                    v = l.bytes[0]
                    if m > 1:
                        if isc(rel):
                            v = l.bytes[cv(rel)]
                        else:
                            v = l.bytes[m - 1]
                            for j in range(m - 2, -1, -1):
                                v = t.ite(t.eq(rel, const(j, 64)), l.bytes[j], v)
                    if d is True:
                        res = v
                        break
                    pend.append((c, v))
            else:
                rel = t.sub(idx, l.start)
                c = t.ult(rel, l.len)
                d = st.decide(c)
                if d is True:
                    res = l.fn(st, rel)
                    break
                if d is None:
                    pend.append((c, l.fn(st, rel)))
            i -= 1
        if res is None:
            res = self._base(st, idx)
        for c, v in reversed(pend):
            res = t.ite(c, t.renorm(v), t.renorm(res))
        return res

    def _base(self, st, idx):
        if self.base is None:
            if isc(idx):
                return t.var("undef_%d_%d" % (self.id, cv(idx)), 8)
            return t.uf("undef_%d" % self.id, [idx], 8)
        return self.base(st, idx)

    def _rd_cells(self, st, l, idx, i):
        """symbolic index over concrete cells of layer l; None when provably no cell is hit"""
        d = l.d
        keys = sorted(k for k in d if k != "own")
        if not keys:
            return None
        lo, hi = keys[0], keys[-1]
        if t.ubound(idx) < lo or t.lbound(idx) > hi:
            return None
        inr = t.band(t.ule(const(lo, 64), idx), t.ule(idx, const(hi, 64)))
        dd = st.decide(inr)
        if dd is False:
            return None
        vals = [d[k] for k in keys]
        dense = hi - lo + 1 == len(keys)
        if dense and dd is True and all(v.op == "c" for v in vals):
            rel = t.sub(idx, const(lo, 64))
            return t.tab(tuple(v.a[0] for v in vals), 8, rel)
        rest = self.rdr(st, idx, i) if not (dense and dd is True) else vals[-1]
        if len(keys) > 600:
            raise MemoryError("symbolic index over %d cells of %s" % (len(keys), self.name))
        for k, v in zip(keys, vals):
            rest = t.ite(t.eq(idx, const(k, 64)), t.renorm(v), t.renorm(rest))
        return rest
