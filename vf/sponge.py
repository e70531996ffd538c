"""Contracts for sponge hashes (25-lane state, byte position)."""
import re
from . import terms as t, smt, sweep, specs, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported, Failure
from .loops import LoopEngine, Template
from .mdhash import M, HashProof

QB = 50  # block counter width: messages up to about 2^56 bytes


class SLayout:
    pass


def find_layout(lay, cls):
    from .layout import fields
    size, fs = fields(lay, cls)
    r = SLayout()
    r.size, r.state, r.len, r.extra = size, None, None, []
    for off, ty, nm, ind in fs:
        if re.search(r"(uint64_t|unsigned long)\s*\[25\]", ty) or re.search(r"array<(uint64_t|unsigned long), 25(UL)?>", ty):
            r.state = off
        elif re.fullmatch(r"(std::)?(size_t|uint64_t|unsigned long)", ty) and r.len is None:
            r.len = off
    if r.state is None or r.len is None:
        raise Unsupported("representation of %s not recognised: %s" % (cls, fs))
    return r


class SRep:
    """R(q, off): the state is G(q) xor the first off bytes of the block starting at byte q (a multiple of the rate)"""

    def __init__(self, rate, lo):
        self.r, self.lo = rate, lo
        self.msg = M

    def G(self, i, q):
        if isc(q) and cv(q) == 0:
            return const(0, 64)
        return t.uf("G%d" % i, [q], 64)

    def pos(self, q, off):
        return t.add(q, off)

    def lanes(self, q, off):
        base = q
        out = []
        for i in range(25):
            bs = []
            for k in range(8 * i, 8 * i + 8):
                if k >= self.r:
                    bs.append(const(0, 8))
                elif isc(off):
                    bs.append(self.msg(t.add(base, const(k, 64))) if k < cv(off) else const(0, 8))
                else:
                    bs.append(t.ite(t.ult(const(k, 64), off), self.msg(t.add(base, const(k, 64))), const(0, 8)))
            out.append(t.bxor(self.G(i, q), t.concat(bs[::-1])))
        return out

    def install(self, ex, st, oid, base, q, off, ln=True):
        o = st.wobj(oid)
        for i, w in enumerate(self.lanes(q, off)):
            o.w_conc(base + self.lo.state + 8 * i, [t.rawex(w, 8 * k + 7, 8 * k) for k in range(8)])
        if ln:
            p = self.pos(q, off)
            o.w_conc(base + self.lo.len, [t.extract(p, 8 * k + 7, 8 * k) for k in range(8)])

    def words(self, ex, st, oid, base):
        return [ex.load(st, t.ptr(oid, const(base + self.lo.state + 8 * i, 64)), 8) for i in range(25)]

    def length(self, ex, st, oid, base):
        return ex.load(st, t.ptr(oid, const(base + self.lo.len, 64)), 8)

    def check(self, ex, st, oid, base, q, off, where, lenval=None, checklen=True):
        ok = True
        if isc(off) and cv(off) == self.r:
            off = const(0, 64)
            q = t.add(q, const(self.r, 64))
        for i, (g, w) in enumerate(zip(self.words(ex, st, oid, base), self.lanes(q, off))):
            ok = ex.prove(st, t.eq(g, w), "sponge-lane", where + " lane %d" % i) and ok
            if not ok:
                break
        if checklen:
            ok &= ex.prove(st, t.eq(self.length(ex, st, oid, base), lenval if lenval is not None else self.pos(q, off)), "byte-count", where)
        return ok


class SpongeLoop(Template):
    name = "sponge-absorb"

    def __init__(self, rep, oid, dptr, n, nq, no, ln, offs=None):
        self.rep, self.oid, self.dptr, self.n, self.nq, self.no, self.ln = rep, oid, dptr, n, nq, no, ln
        self.known = [(n, nq, no)]
        self.offs = offs

    def modes(self):
        return ["byte"]

    def decomp(self, p):
        for p0, q0, o0 in self.known:
            d = t.sub(p, p0)
            if isc(d):
                dv = cv(d) - (1 << 64) if cv(d) >> 63 else cv(d)
                if dv == 0:
                    return {"p": p, "q": q0, "off": o0}
                if isc(o0):
                    v = cv(o0) + dv
                    return {"p": p, "q": t.add(q0, const(v // self.rep.r * self.rep.r, 64)), "off": const(v % self.rep.r, 64)}
        return None

    def ghosts(self, ex, st, mode):
        out = []
        q = t.zext(t.fresh("gb", 57), 64)
        for off in (range(self.rep.r) if self.offs is None else self.offs):
            p = self.rep.pos(q, const(off, 64))
            g = {"p": p, "q": q, "off": const(off, 64)}
            out.append((g, [t.ule(self.n, p), t.ule(p, t.add(self.n, self.ln))]))
        return out

    def enter(self, g):
        self.known = [(g["p"], g["q"], g["off"]), (self.n, self.nq, self.no)]

    def gconds(self, ex, st, g, mode):
        p = g["p"]
        return [("range", t.band(t.ule(self.n, p), t.ule(p, t.add(self.n, self.ln))))]

    def drivers(self, ex, st, v, mode):
        out = []
        n, ln = self.n, self.ln
        if v.op == "ptr":
            if v.a[0] == self.dptr.a[0]:
                out.append(("ptr", lambda x: self.decomp(t.add(n, t.sub(x.a[1], self.dptr.a[1]))) if x.op == "ptr" else None))
        elif v.w == 64:
            out.append(("consumed", lambda x: self.decomp(t.add(n, x))))
            out.append(("remaining", lambda x: self.decomp(t.sub(t.add(n, ln), x))))
        return out

    def invert(self, g, b):
        lab = b["desc"].split("~")[1].split("/")[0]
        p = g["p"]
        if lab == "ptr":
            return t.add(self.dptr, t.sub(p, self.n))
        return t.sub(p, self.n) if lab == "consumed" else t.sub(t.add(self.n, self.ln), p)

    def phi_cands(self, ex, st, mode):
        n, ln, d = self.n, self.ln, self.dptr
        return [("consumed", lambda g: t.sub(g["p"], n)),
                ("remaining", lambda g: t.sub(t.add(n, ln), g["p"])),
                ("ptr", lambda g: t.add(d, t.sub(g["p"], n))),
                ("off", lambda g: g["off"]),
                ("room", lambda g: t.sub(const(self.rep.r, 64), g["off"])),
                ("pos", lambda g: g["p"])]

    def apply(self, ex, st, g, mode):
        lv = self.rep.length(ex, st, self.oid, 0)
        self.len_is_pos = lv is not self.len0
        self.rep.install(ex, st, self.oid, 0, g["q"], g["off"], ln=False)

    def conds(self, ex, st, g, mode):
        def ck(s):
            return self.rep.check(ex, s, self.oid, 0, g["q"], g["off"], "absorb loop", lenval=self.len0)
        self.len0 = getattr(self, "len0", None) or self.rep.length(ex, st, self.oid, 0)
        return [("state", ck)]

    def measure(self, g):
        return g["p"]

    def managed(self, st):
        return {self.oid}


class SpongeProof(HashProof):
    def __init__(self, mod, dem, lay, cls, rate, outlen):
        self.mod, self.dem, self.cls = mod, dem, cls
        self.rate, self.outlen = rate, outlen
        self.lo = find_layout(lay, cls)
        self.rep = SRep(rate, self.lo)
        self.exs, self.notes = [], []

    def prove_chunk(self):
        n = self.chunk_name()
        if n is None:
            raise Unsupported("permutation function not found")
        ex = self.executor()
        st = State(ex)
        lo = self.lo
        o = ex.new_obj(st, lo.size, "this")
        A = [t.var("a%d" % i, 64) for i in range(25)]
        for i in range(25):
            o.w_conc(lo.state + 8 * i, [t.extract(A[i], 8 * k + 7, 8 * k) for k in range(8)])
        ln = t.var("len", 64)
        o.w_conc(lo.len, [t.extract(ln, 8 * k + 7, 8 * k) for k in range(8)])
        outs = ex.start(st, n, [t.ptr(o.id, const(0, 64))])
        spec = specs.keccak_f(A)
        where = self.dem[n]
        for oc in outs:
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", where)
                continue
            ok, s = sweep.equal(self.rep.words(ex, oc.st, o.id, 0), spec, budget=200)
            ex.oblig += 1
            ex.obkinds["permutation"] = ex.obkinds.get("permutation", 0) + 1
            if ok:
                ex.discharged += 1
            else:
                ex.failures.append(Failure("permutation", where, "final lanes differ from Keccak-f[1600]", s.cex, oc.st, "refuted" if s.cex else "unknown"))
            ex.prove(oc.st, t.eq(self.rep.length(ex, oc.st, o.id, 0), ln), "byte-count", where)
        return ex

    def chunk_contract(self, ex, st, name, args, where):
        rep = self.rep
        p = args[0]
        if p.op != "ptr" or not isc(p.a[1]):
            return NotImplemented
        oid, base = p.a[0], cv(p.a[1])
        ws = rep.words(ex, st, oid, base)
        qs = {}
        for w in ws:
            for u in t.topo([w]):
                if u.op == "uf" and re.fullmatch(r"G\d+", u.a[0]):
                    qs[u.a[1]] = 1
        if len(qs) > 1:
            return NotImplemented
        q = next(iter(qs)) if qs else const(0, 64)
        for i, (g, w) in enumerate(zip(ws, rep.lanes(q, const(rep.r, 64)))):
            if not ex.prove(st, t.eq(g, w), "absorbed-block", where + " lane %d" % i):
                break
        o = st.wobj(oid)
        q1 = t.add(q, const(rep.r, 64))
        for i in range(25):
            w = rep.G(i, q1)
            o.w_conc(base + self.lo.state + 8 * i, [t.extract(w, 8 * k + 7, 8 * k) for k in range(8)])
        return [Outcome("ret", st, None)]

    def prove_add(self, fn, offs=None):
        ex = self.executor()
        self.with_chunk_contract(ex)
        st = State(ex)
        rep = self.rep
        nq = t.zext(t.var("nb", 57), 64)
        no = t.zext(t.var("no", 8), 64)
        ln = t.var("dlen", 64)
        st.assume(t.ult(no, const(rep.r, 64)))
        st.assume(t.ule(ln, const(1 << 55, 64)))
        # n = nb + no with nb a multiple of the rate: the code may only learn no through n % rate
        n = t.zext(t.var("n", 56), 64)
        st.assume(t.eq(t.urem(n, const(rep.r, 64)), no))
        st.assume(t.eq(n, t.add(nq, no)))
        o = ex.new_obj(st, self.lo.size, "this")
        rep.install(ex, st, o.id, 0, nq, no, ln=False)
        o.w_conc(self.lo.len, [t.extract(n, 8 * k + 7, 8 * k) for k in range(8)])
        d = ex.new_obj(st, ln, "data", base=lambda s_, i: M(t.add(n, i)))
        dp = t.ptr(d.id, const(0, 64))
        ex.loop_hook = LoopEngine([lambda *a: SpongeLoop(rep, o.id, dp, n, nq, no, ln, offs)])
        self.lastloop = ex.loop_hook
        nret = 0
        for oc in ex.start(st, fn, [t.ptr(o.id, const(0, 64)), dp, ln]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", "add")
                continue
            nret += 1
            # the position reached: (q, off) of the lanes
            self.check_at(ex, oc.st, o.id, n, nq, no, ln)
        if not nret:
            raise Unsupported("no returning path in add")
        return ex

    def check_at(self, ex, st, oid, n, nq, no, ln):
        rep = self.rep
        ws = rep.words(ex, st, oid, 0)
        # recognise (q, off) syntactically from the lanes
        cand = [(nq, no)]
        qs = {}
        for w in ws:
            for u in t.topo([w]):
                if u.op == "uf" and re.fullmatch(r"G\d+", u.a[0]):
                    qs[u.a[1]] = 1
        for q in qs:
            for off in range(rep.r):
                cand.append((q, const(off, 64)))
        for q, off in cand:
            if all(a is b for a, b in zip(ws, rep.lanes(q, off))):
                pos = n if (q, off) == (nq, no) else rep.pos(q, off)
                ex.prove(st, t.eq(pos, t.add(n, ln)), "position", "add")
                rep.check(ex, st, oid, 0, q, off, "add", lenval=t.add(n, ln))
                return
        ex.oblig += 1
        ex.failures.append(Failure("sponge-lane", "add", "state after add is not an absorbed prefix", None, st, "unknown"))

    def digest_cases(self, fn, offs=None):
        ex = self.executor()
        for off in (range(self.rate) if offs is None else offs):
            self._dcase(ex, fn, off)
            if len(ex.failures) > 3:
                break
        return ex

    def _dcase(self, ex, fn, off):
        ex.contracts = []
        ex._ccache = {}
        stdmodel.install(ex)
        self.with_chunk_contract(ex)
        rep, lo = self.rep, self.lo
        st = State(ex)
        q = base = t.mul(t.zext(t.var("nq", QB), 64), const(rep.r, 64))
        n = rep.pos(q, const(off, 64))

        def P(i):
            k = t.sub(i, base)
            if not isc(k) or cv(k) >= rep.r:
                raise Unsupported("padding index")
            k = cv(k)
            if k < off:
                return M(i)
            v = 0x06 if k == off else 0
            if k == rep.r - 1:
                v |= 0x80
            return const(v, 8)
        rep.msg = P
        try:
            o = ex.new_obj(st, lo.size, "this")
            rep.install(ex, st, o.id, 0, q, const(off, 64))
            before = st.mem[o.id]
            out = ex.new_obj(st, self.outlen, "out")
            ex.loop_hook = LoopEngine([])
            st.owner = object()
            want = []
            for i in range((self.outlen + 7) // 8):
                w = t.uf("G%d" % i, [t.add(q, const(rep.r, 64))], 64)
                want += [t.extract(w, 8 * k + 7, 8 * k) for k in range(8)]
            nret = 0
            for oc in ex.start(st, fn, [t.ptr(o.id, const(0, 64)), t.ptr(out.id, const(0, 64))]):
                if oc.kind != "ret":
                    ex.prove(oc.st, FALSE, "no-throw", "digest")
                    continue
                nret += 1
                after = oc.st.mem[o.id]
                same = after.layers == before.layers
                if not same:
                    same = all(before.rd(oc.st, const(k, 64)) is after.rd(oc.st, const(k, 64)) for k in range(lo.size))
                ex.prove(oc.st, TRUE if same else FALSE, "object-unchanged", "digest")
                for k in range(self.outlen):
                    ex.prove(oc.st, t.eq(oc.st.mem[out.id].rd(oc.st, const(k, 64)), want[k]), "digest-byte", "digest byte %d (length mod rate %d)" % (k, off))
            if not nret:
                raise Unsupported("no returning path in digest")
        finally:
            rep.msg = M

    def prove_ctor(self, fn):
        ex = self.executor()
        st = State(ex)
        o = ex.new_obj(st, self.lo.size, "this")
        for oc in ex.start(st, fn, [t.ptr(o.id, const(0, 64))]):
            for i, w in enumerate(self.rep.words(ex, oc.st, o.id, 0)):
                ex.prove(oc.st, t.eq(w, const(0, 64)), "initial-value", "lane %d" % i)
            ex.prove(oc.st, t.eq(self.rep.length(ex, oc.st, o.id, 0), const(0, 64)), "initial-value", "byte count")
        return ex

    # wrappers: record the exact span each add receives
    def prove_wrapper(self, fn, parts, ctor):
        ex = self.executor()
        an = self.add_name()
        if an is None:
            raise Unsupported("add(span) not found as a function")
        st = State(ex)
        o = ex.new_obj(st, self.lo.size, "this")
        if not ctor:
            o.base = lambda s_, i: t.uf("obj", [i], 8)
        args = [t.ptr(o.id, const(0, 64))]
        want = []
        for k in range(parts):
            ln = t.var("dlen%d" % k, 64)
            d = ex.new_obj(st, ln, "data%d" % k, base=(lambda k: lambda s_, i: t.uf("Data%d" % k, [i], 8))(k))
            args += [t.ptr(d.id, const(0, 64)), ln]
            want.append((t.ptr(d.id, const(0, 64)), ln))

        def rec(ex, s, name, a, where):
            k = s.ghost.get("calls", 0)
            s.ghost["calls"] = k + 1
            if k >= len(want):
                ex.prove(s, FALSE, "extra-add-call", where)
            else:
                ex.prove(s, t.band(t.eq(a[0], args[0]), t.eq(a[1], want[k][0]), t.eq(a[2], want[k][1])), "add-arguments", where)
                if k == 0:
                    if ctor:
                        for i, w in enumerate(self.rep.words(ex, s, o.id, 0)):
                            ex.prove(s, t.eq(w, const(0, 64)), "initial-value", where)
                        ex.prove(s, t.eq(self.rep.length(ex, s, o.id, 0), const(0, 64)), "initial-value", where)
                    else:
                        ex.prove(s, TRUE if s.mem[o.id].layers == () else FALSE, "object-unchanged", where)
            so = s.wobj(o.id)
            so.layers = ()
            so.base = (lambda k: lambda s_, i: t.uf("after%d" % k, [i], 8))(k)
            return [Outcome("ret", s, None)]
        ex.contracts.insert(0, (lambda nm, d: nm == an, rec))
        nret = 0
        for oc in ex.start(st, fn, args):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", fn)
                continue
            nret += 1
            ex.prove(oc.st, TRUE if oc.st.ghost.get("calls", 0) == parts else FALSE, "all-parts-added", fn)
            ex.prove(oc.st, TRUE if oc.st.mem[o.id].layers == () else FALSE, "object-unchanged-after-add", fn)
        if not nret:
            raise Unsupported("no returning path in " + fn)
        return ex
