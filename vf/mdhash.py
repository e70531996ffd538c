"""Contracts for Merkle-Damgard style hash classes (chunk buffer, word state, byte count)."""
import re
from . import terms as t, smt, sweep
from .terms import const, isc, cv, T, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported, Failure
from .loops import LoopEngine, Template
from . import stdmodel


class MD:
    """specification of one hash"""

    def __init__(self, name, B, ww, iv, compress, lenbytes, big, outlen):
        self.name, self.B, self.ww, self.iv = name, B, ww, iv
        self.compress, self.lenbytes, self.big, self.outlen = compress, lenbytes, big, outlen
        self.lg = B.bit_length() - 1
        self.nw = len(iv)

    def F(self, i, q):
        return t.uf("F%d" % i, [q], self.ww)

    def words_bytes(self, words):
        out = []
        for w in words:
            n = w.w // 8
            bs = [t.extract(w, 8 * k + 7, 8 * k) for k in range(n)]
            out += bs[::-1] if self.big else bs
        return out


class Layout:
    def __init__(self, size, chunk, state, ln, extra):
        self.size, self.chunk, self.state, self.len, self.extra = size, chunk, state, ln, extra


def find_layout(lay, cls, md):
    from .layout import fields
    size, fs = fields(lay, cls)
    chunk = state = ln = None
    extra = []
    word = {32: r"(uint32_t|unsigned int|u32)", 64: r"(uint64_t|unsigned long|size_t)"}[md.ww]
    for off, ty, nm, ind in fs:
        if re.search(r"(uint8_t|unsigned char|std::byte)\s*\[%d\]" % md.B, ty) or re.search(
                r"array<(uint8_t|unsigned char), %d(UL)?>" % md.B, ty):
            if chunk is None:
                chunk = off
        elif re.search(word + r"\s*\[%d\]" % md.nw, ty) or re.search(r"array<%s, %d(UL)?>" % (word, md.nw), ty):
            if state is None:
                state = off
        elif re.fullmatch(r"(std::)?(size_t|uint64_t|unsigned long|uint32_t|unsigned int|uint8_t|unsigned char|bool|uint16_t|unsigned short|int)", ty):
            w = {"size_t": 8, "uint64_t": 8, "unsigned long": 8, "uint32_t": 4, "unsigned int": 4, "int": 4, "uint8_t": 1,
                 "unsigned char": 1, "bool": 1, "uint16_t": 2, "unsigned short": 2}[ty.replace("std::", "")]
            if ln is None and w == 8:
                ln = off
            else:
                extra.append((off, w))
    if None in (chunk, state, ln):
        raise Unsupported("representation of %s not recognised: %s" % (cls, fs))
    return Layout(size, chunk, state, ln, extra)


M = lambda i: t.uf("M", [i], 8)


class Rep:
    """representation relation R(p): the object has absorbed M[0..p)"""

    def __init__(self, md, lo):
        self.md, self.lo = md, lo
        self.msg = M

    def split(self, p):
        q = t.lshr(p, const(self.md.lg, 64))
        off = t.band(p, const(self.md.B - 1, 64))
        return q, off

    def install(self, ex, st, oid, base, p, lenval=None, setlen=True):
        """write the fields for position p (base: offset of the hash object inside oid)"""
        q, off = self.split(p)
        md, lo = self.md, self.lo
        o = st.wobj(oid)
        junk = "junk%d" % t._cnt[0]
        msg = self.msg
        start = t.sub(p, off)
        if not isc(off):
            st.owner = object()
            o = st.wobj(oid)
            o.w_range(const(base + lo.chunk, 64), const(md.B, 64), lambda s_, i: t.ite(
                t.ult(i, off), msg(t.add(start, i)), t.uf(junk, [i], 8)))
        for j in range(md.B if isc(off) else 0):
            if isc(off):
                v = msg(t.add(start, const(j, 64))) if j < cv(off) else t.uf(junk, [const(j, 64)], 8)
            else:
                v = t.ite(t.ult(const(j, 64), off), msg(t.add(start, const(j, 64))), t.uf(junk, [const(j, 64)], 8))
            o.w_conc(base + lo.chunk + j, [v])
        n = md.ww // 8
        for i in range(md.nw):
            w = md.F(i, q)
            o.w_conc(base + lo.state + n * i, [t.extract(w, 8 * k + 7, 8 * k) for k in range(n)])
        if setlen:
            lv = p if lenval is None else lenval
            o.w_conc(base + lo.len, [t.extract(lv, 8 * k + 7, 8 * k) for k in range(8)])

    def words(self, ex, st, oid, base):
        n = self.md.ww // 8
        return [ex.load(st, t.ptr(oid, const(base + self.lo.state + n * i, 64)), n) for i in range(self.md.nw)]

    def length(self, ex, st, oid, base):
        return ex.load(st, t.ptr(oid, const(base + self.lo.len, 64)), 8)

    def check_words(self, ex, st, ws, q, where):
        """ws == F(q)?  accepts F(x) with x==q, or an unfolded compression of F(x)"""
        md = self.md
        if all(w.op == "uf" and w.a[0] == "F%d" % i for i, w in enumerate(ws)) and len({w.a[1] for w in ws}) == 1:
            return ex.prove(st, t.eq(ws[0].a[1], q), "chaining-value", where)
        if all(isc(w) and cv(w) == md.iv[i] for i, w in enumerate(ws)):
            return ex.prove(st, t.eq(q, const(0, 64)), "chaining-value", where)  # F(0) is the initial value
        # unfold: find base index x
        xs = {}
        for u in t.topo(ws):
            if u.op == "uf" and re.fullmatch(r"F\d+", u.a[0]):
                xs[u.a[1]] = 1
        if not xs:
            ex.prove(st, FALSE, "chaining-value", where)
            return False
        cur = list(ws)
        for depth in range(4):
            r = None
            for x in xs:
                r = self._fold(ex, st, cur, x, where)
                if r is not None:
                    break
            if r is None:
                break
            if r is True:
                pass
            return ex.prove(st, t.eq(r, q), "chaining-value", where)
        ex.oblig += 1
        ex.failures.append(Failure("chaining-value", where, "state is not the compression of the next message block", st=st))
        return False

    def _fold(self, ex, st, ws, x, where):
        md = self.md
        pos = t.mul(x, const(md.B, 64))
        # canonicalise message bytes in ws to M[B*x + j]
        ids = [u for u in t.topo(ws) if u.op == "uf" and u.a[0] == "M"]
        r, m = smt.check(list(st.pc), 10, True, bv=True)
        if r != "sat":
            return None
        mp = {}
        b0 = smt.model_val(m, pos)
        for u in ids:
            v = smt.model_val(m, u.a[1])
            j = (v - b0) & t.mask(64)
            if j >= md.B:
                continue
            tgt = self.msg(t.add(pos, const(j, 64)))
            if tgt is u or st.decide(t.eq(u.a[1], t.add(pos, const(j, 64)))) is True:
                mp[u] = tgt
        # bytes that are still conditional are resolved under pc
        w2 = t.substitute(ws, mp) if mp else ws
        spec = md.compress([md.F(i, x) for i in range(md.nw)], [self.msg(t.add(pos, const(j, 64))) for j in range(md.B)])
        ok, s = sweep.equal(w2, spec, budget=60)
        if ok:
            ex.oblig += 1
            ex.discharged += 1
            ex.obkinds["compression"] = ex.obkinds.get("compression", 0) + 1
            return t.add(x, const(1, 64))
        return None

    def check(self, ex, st, oid, base, p, where, lenval=None, checklen=True):
        q, off = self.split(p)
        ok = self.check_words(ex, st, self.words(ex, st, oid, base), q, where)
        md, lo = self.md, self.lo
        start = t.sub(p, off)
        # buffered bytes: for an arbitrary j < off
        if isc(off):
            for k in range(cv(off)):
                got = st.mem[oid].rd(st, const(base + lo.chunk + k, 64))
                ok &= ex.prove(st, t.eq(got, self.msg(t.add(start, const(k, 64)))), "buffered-bytes", where)
                if not ok:
                    break
            if checklen:
                lv = p if lenval is None else lenval
                ok &= ex.prove(st, t.eq(self.length(ex, st, oid, base), lv), "byte-count", where)
            return ok
        j = t.fresh("j", 64)
        s2 = st.fork()
        s2.assume(t.ult(j, off))
        s2.assume(t.ult(j, const(md.B, 64)))
        if not (isc(off) and cv(off) == 0) and s2.feasible():
            got = st.mem[oid].rd(s2, t.add(j, const(base + lo.chunk, 64)))
            ok &= ex.prove(s2, t.eq(got, self.msg(t.add(start, j))), "buffered-bytes", where)
        if checklen:
            lv = p if lenval is None else lenval
            ok &= ex.prove(st, t.eq(self.length(ex, st, oid, base), lv), "byte-count", where)
        return ok


class AbsorbLoop(Template):
    """loop that moves the hash object from position to position through data[0..len) = M[n..n+len)"""
    name = "absorb"

    def __init__(self, rep, oid, base, dptr, n, ln):
        self.rep, self.oid, self.base, self.dptr, self.n, self.ln = rep, oid, base, dptr, n, ln

    def modes(self):
        return ["block", "byte"]

    def ghost(self, ex, st, mode):
        lg = self.rep.md.lg
        q = t.fresh("gq", 64 - lg)
        off = const(0, lg) if mode == "block" else t.fresh("go", lg)
        p = t.concat([q, off])
        g = {"p": p}
        asm = [t.ule(self.n, p), t.ule(p, t.add(self.n, self.ln))]
        return g, asm

    def gconds(self, ex, st, g, mode):
        p = g["p"]
        out = [("range", t.band(t.ule(self.n, p), t.ule(p, t.add(self.n, self.ln))))]
        if mode == "block":
            out.append(("aligned", t.eq(t.band(p, const(self.rep.md.B - 1, 64)), const(0, 64))))
        return out

    def drivers(self, ex, st, v, mode):
        out = []
        n, ln = self.n, self.ln
        if v.op == "ptr":
            if v.a[0] == self.dptr.a[0]:
                out.append(("ptr", lambda x: {"p": t.add(n, t.sub(x.a[1], self.dptr.a[1]))} if x.op == "ptr" else None))
        elif v.w == 64:
            out.append(("consumed", lambda x: {"p": t.add(n, x)}))
            out.append(("remaining", lambda x: {"p": t.sub(t.add(n, ln), x)}))
            if self.rep.md.B > 1:
                B = const(self.rep.md.B, 64)
                out.append(("blocks", lambda x: {"p": t.add(n, t.mul(x, B))}))
        return out

    def invert(self, g, b):
        lab = b["desc"].split("~")[1].split("/")[0]
        p = g["p"]
        if lab == "ptr":
            return t.add(self.dptr, t.sub(p, self.n))
        if lab == "consumed":
            return t.sub(p, self.n)
        if lab == "remaining":
            return t.sub(t.add(self.n, self.ln), p)
        if lab == "blocks":
            return t.lshr(t.sub(p, self.n), const(self.rep.md.lg, 64))

    def phi_cands(self, ex, st, mode):
        n, ln, B = self.n, self.ln, self.rep.md.B
        d = self.dptr
        lg = self.rep.md.lg
        return [("consumed", lambda g: t.sub(g["p"], n)),
                ("remaining", lambda g: t.sub(t.add(n, ln), g["p"])),
                ("ptr", lambda g: t.add(d, t.sub(g["p"], n))),
                ("off", lambda g: t.band(g["p"], const(B - 1, 64))),
                ("room", lambda g: t.sub(const(B, 64), t.band(g["p"], const(B - 1, 64)))),
                ("pos", lambda g: g["p"])]

    def apply(self, ex, st, g, mode):
        lv = self.rep.length(ex, st, self.oid, self.base)
        self.lenmode = "same"
        self.rep.install(ex, st, self.oid, self.base, g["p"], setlen=False)
        self.len0 = lv

    def conds(self, ex, st, g, mode):
        def ck(s):
            return self.rep.check(ex, s, self.oid, self.base, g["p"], "absorb loop",
                                  checklen=hasattr(self, "len0"), lenval=getattr(self, "len0", None))
        return [("state", ck)]

    def measure(self, g):
        return g["p"]

    def managed(self, st):
        return {self.oid}


class HashProof:
    """all contracts of one class"""

    def __init__(self, mod, dem, lay, cls, md, hooks):
        self.mod, self.dem, self.cls, self.md = mod, dem, cls, md
        self.lo = find_layout(lay, cls, md)
        self.rep = Rep(md, self.lo)
        self.hooks = hooks  # names of the extern "C" entry points
        self.exs = []
        self.notes = []

    def executor(self):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)
        self.exs.append(ex)
        return ex

    # -- contract of processChunk, used at call sites
    def chunk_contract(self, ex, st, name, args, where):
        md, lo, rep = self.md, self.lo, self.rep
        p = args[0]
        if p.op != "ptr" or not isc(p.a[1]):
            return NotImplemented
        oid, base = p.a[0], cv(p.a[1])
        ws = rep.words(ex, st, oid, base)
        if not (all(w.op == "uf" and w.a[0] == "F%d" % i for i, w in enumerate(ws)) and len({w.a[1] for w in ws}) == 1):
            return NotImplemented
        x = ws[0].a[1]
        pos = t.mul(x, const(md.B, 64))
        o = st.mem[oid]
        bad = 0
        for j in range(md.B):
            got = o.rd(st, const(base + lo.chunk + j, 64))
            want = rep.msg(t.add(pos, const(j, 64)))
            if got is not want:
                if not ex.prove(st, t.eq(got, want), "block-content", where + " byte %d" % j):
                    bad += 1
                    if bad > 1:
                        break
            else:
                ex.oblig += 1
                ex.discharged += 1
                smt.STATS.hit("syntactic")
        q1 = t.add(x, const(1, 64))
        o = st.wobj(oid)
        n = md.ww // 8
        for i in range(md.nw):
            w = md.F(i, q1)
            o.w_conc(base + lo.state + n * i, [t.extract(w, 8 * k + 7, 8 * k) for k in range(n)])
        return [Outcome("ret", st, None)]

    def chunk_name(self):
        rx = re.compile(re.escape(self.cls_dem()) + r"::processChunk\(\)$")
        for n, d in self.dem.items():
            if rx.search(d) and n in self.mod.funcs and not self.mod.funcs[n].decl:
                f = self.mod.funcs[n]
                if len(f.params) == 1:
                    return n
        return None

    def cls_dem(self):
        return re.sub(r"<(\d+)>", r"<\1ul>", self.cls)

    # -- 1. compression function
    def prove_chunk(self):
        n = self.chunk_name()
        if n is None:
            self.notes.append("no processChunk(): compression verified inline in add()")
            return None
        ex = self.executor()
        st = State(ex)
        md, lo = self.md, self.lo
        o = ex.new_obj(st, lo.size, "this")
        nb = md.ww // 8
        blk = [t.var("b%d" % j, 8) for j in range(md.B)]
        h = [t.var("h%d" % i, md.ww) for i in range(md.nw)]
        ln = t.var("len", 64)
        o.w_conc(lo.chunk, blk)
        for i in range(md.nw):
            o.w_conc(lo.state + nb * i, [t.extract(h[i], 8 * k + 7, 8 * k) for k in range(nb)])
        o.w_conc(lo.len, [t.extract(ln, 8 * k + 7, 8 * k) for k in range(8)])
        outs = ex.start(st, n, [t.ptr(o.id, const(0, 64))])
        spec = md.compress(h, blk)
        where = self.dem[n]
        if not outs:
            raise Unsupported("no path through " + n)
        for oc in outs:
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", where)
                continue
            ws = self.rep.words(ex, oc.st, o.id, 0)
            ok, s = sweep.equal(ws, spec, budget=200)
            ex.oblig += 1
            ex.obkinds["compression"] = ex.obkinds.get("compression", 0) + 1
            if ok:
                ex.discharged += 1
            else:
                st_ = "refuted" if s.cex else "unknown"
                ex.failures.append(Failure("compression", where, "final state words differ from the standard's "
                                           "compression function", s.cex, oc.st, st_))
            ex.prove(oc.st, t.eq(self.rep.length(ex, oc.st, o.id, 0), ln), "byte-count", where)
        self.contract_ok = not ex.failures
        return ex

    def with_chunk_contract(self, ex):
        n = self.chunk_name()
        if n is not None:
            ex.contracts.insert(0, (lambda nm, d: nm == n, self.chunk_contract))

    # -- 2. add
    def prove_add(self, fn, extra_setup=None):
        ex = self.executor()
        self.with_chunk_contract(ex)
        st = State(ex)
        md, lo, rep = self.md, self.lo, self.rep
        n = t.concat([const(0, 3), t.var("nq", 61 - md.lg), t.var("no", md.lg)])
        ln = t.var("dlen", 64)
        lim = const((1 << 61) - 1, 64)
        st.assume(t.ule(n, lim))
        st.assume(t.ule(ln, lim))
        st.assume(t.ule(t.add(n, ln), lim))
        o = ex.new_obj(st, lo.size, "this")
        rep.install(ex, st, o.id, 0, n)
        d = ex.new_obj(st, ln, "data", base=lambda s_, i: M(t.add(n, i)))
        dp = t.ptr(d.id, const(0, 64))
        ex.loop_hook = LoopEngine([lambda *a: AbsorbLoop(rep, o.id, 0, dp, n, ln)])
        self.lastloop = ex.loop_hook
        outs = ex.start(st, fn, [t.ptr(o.id, const(0, 64)), dp, ln])
        where = "add"
        nret = 0
        for oc in outs:
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", where)
                continue
            nret += 1
            rep.check(ex, oc.st, o.id, 0, t.add(n, ln), where)
        if not nret:
            raise Unsupported("no returning path in add")
        return ex

    # -- wrappers that only call add (string_view overload, variadic constructors)
    def prove_wrapper(self, fn, parts, ctor):
        ex = self.executor()
        md, lo, rep = self.md, self.lo, self.rep
        an = self.add_name()
        if an is None:
            raise Unsupported("add(span) not found as a function")
        ex.contracts.insert(0, (lambda nm, d: nm == an, self.add_contract))
        st = State(ex)
        lim = const((1 << 60) - 1, 64)
        n = const(0, 64) if ctor else t.concat([const(0, 3), t.var("nq", 61 - md.lg), t.var("no", md.lg)])
        o = ex.new_obj(st, lo.size, "this")
        if not ctor:
            rep.install(ex, st, o.id, 0, n)
        args = [t.ptr(o.id, const(0, 64))]
        st.assume(t.ule(n, lim))
        for k in range(parts):
            ln = t.var("dlen%d" % k, 64)
            st.assume(t.ule(ln, const((1 << 59) - 1, 64)))
            d = ex.new_obj(st, ln, "data%d" % k, base=(lambda n: lambda s_, i: M(t.add(n, i)))(n))
            args += [t.ptr(d.id, const(0, 64)), ln]
            n = t.add(n, ln)
        nret = 0
        for oc in ex.start(st, fn, args):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", fn)
                continue
            nret += 1
            rep.check(ex, oc.st, o.id, 0, n, fn)
        if not nret:
            raise Unsupported("no returning path in " + fn)
        return ex

    def array_name(self, cls_dem, outlen):
        rx = re.compile(re.escape(cls_dem) + r"::operator std::array<unsigned char, %dul>\(\) const$" % outlen)
        for n, d in self.dem.items():
            if rx.search(d) and n in self.mod.funcs and not self.mod.funcs[n].decl:
                return n
        return None

    # -- hex string conversion, over the contract of the array conversion
    def prove_string(self, fn, outlen, cls_dem):
        ex = self.executor()
        an = self.array_name(cls_dem, outlen)
        if an is None:
            raise Unsupported("array conversion of %s not found" % cls_dem)
        lo = self.lo
        st = State(ex)
        o = ex.new_obj(st, lo.size, "this")
        D = [t.var("D%d" % k, 8) for k in range(outlen)]

        def arr(ex, s, name, args, where):
            f = self.mod.funcs[name]
            sret = len(f.params) == 2
            this = args[1] if sret else args[0]
            ex.prove(s, t.eq(this, t.ptr(o.id, const(0, 64))) if this.op == "ptr" else FALSE, "receiver", where)
            ex.prove(s, TRUE if s.mem[o.id].layers == () else FALSE, "object-unchanged", where)
            if sret:
                ex.access(s, s.mem[args[0].a[0]], args[0].a[1], outlen, where, True)
                s.wobj(args[0].a[0]).w_conc(cv(args[0].a[1]), D)
                return [Outcome("ret", s, None)]
            parts, i = [], 0
            while i < outlen:
                k = min(8, outlen - i)
                parts.append(t.concat(D[i:i + k][::-1]))
                i += k
            return [Outcome("ret", s, tuple(parts) if len(parts) > 1 else parts[0])]
        ex.contracts.insert(0, (lambda nm, d: nm == an, arr))
        so = ex.new_obj(st, 32, "string")
        ex.loop_hook = LoopEngine([])
        nret = 0
        tabv = tuple(b"0123456789abcdef")
        for oc in ex.start(st, fn, [t.ptr(o.id, const(0, 64)), t.ptr(so.id, const(0, 64))]):
            if oc.kind != "ret":
                ex.prove(oc.st, FALSE, "no-throw", fn)
                continue
            nret += 1
            dp, ln = stdmodel.string_view(ex, oc.st, t.ptr(so.id, const(0, 64)))
            if not ex.prove(oc.st, t.eq(ln, const(2 * outlen, 64)), "string-length", fn):
                continue
            for k in range(outlen):
                for h, nib in ((0, t.extract(D[k], 7, 4)), (1, t.extract(D[k], 3, 0))):
                    got = ex.load(oc.st, t.add(dp, const(2 * k + h, 64)), 1, fn)
                    ex.prove(oc.st, t.eq(got, t.tab(tabv, 8, t.zext(nib, 64))), "hex-digit", "%s char %d" % (fn, 2 * k + h))
        if not nret:
            raise Unsupported("no returning path in " + fn)
        return ex

    # -- contract of add for its callers
    def add_contract(self, ex, st, name, args, where):
        md, lo, rep = self.md, self.lo, self.rep
        p, d, ln = args
        if p.op != "ptr" or not isc(p.a[1]) or d.op != "ptr":
            return NotImplemented
        oid, base = p.a[0], cv(p.a[1])
        cur = rep.length(ex, st, oid, base)
        # precondition: R(cur) and data[i] = msg[cur+i]
        rep.check(ex, st, oid, base, cur, where + " pre", checklen=False)
        if isc(ln) and cv(ln) <= 1024:
            ok = True
            if cv(ln):
                ex.access(st, st.mem[d.a[0]], d.a[1], cv(ln), where)
            for k in range(cv(ln)):
                got = st.mem[d.a[0]].rd(st, t.add(d.a[1], const(k, 64)))
                ok = ok and ex.prove(st, t.eq(got, rep.msg(t.add(cur, const(k, 64)))), "message-bytes", where)
            rep.install(ex, st, oid, base, t.add(cur, ln))
            return [Outcome("ret", st, None)]
        i = t.fresh("i", 64)
        s2 = st.fork()
        s2.assume(t.ult(i, ln))
        if s2.feasible():
            do = s2.mem[d.a[0]]
            ex.access(s2, do, t.add(d.a[1], i), 1, where)
            got = do.rd(s2, t.add(d.a[1], i))
            ex.prove(s2, t.eq(got, rep.msg(t.add(cur, i))), "message-bytes", where)
        rep.install(ex, st, oid, base, t.add(cur, ln))
        return [Outcome("ret", st, None)]

    def add_name(self):
        rx = re.compile(re.escape(self.cls_dem()) + r"::add\(std::span<unsigned char const")
        for n, d in self.dem.items():
            if rx.search(d) and n in self.mod.funcs and not self.mod.funcs[n].decl:
                return n
        return None

    # -- 3. digest
    def prove_digest(self, fn, outlen, offs=None):
        ex = self.executor()
        for off in (range(self.md.B) if offs is None else offs):
            self._digest_case(ex, fn, outlen, off)
            if len(ex.failures) > 3:
                break
        return ex

    def _digest_case(self, ex, fn, outlen, off):
        """the buffered byte count is a concrete residue, the block count is arbitrary"""
        ex.contracts = ex.contracts[:0]
        stdmodel.install(ex)
        self.with_chunk_contract(ex)
        md, lo = self.md, self.lo
        rep = self.rep
        an = self.add_name()
        if an:
            ex.contracts.insert(0, (lambda nm, d: nm == an, self.add_contract))
        st = State(ex)
        n = t.concat([const(0, 3), t.var("nq", 61 - md.lg), const(off, md.lg)])
        st.assume(t.ule(n, const((1 << 61) - 1, 64)))
        # padded message (FIPS 180-4 5.1): M[0..n) 80 00.. len
        lb = md.lenbytes
        q = t.zext(t.extract(n, 63, md.lg), 64)
        blocks = t.add(q, const(1 if off < md.B - lb else 2, 64))
        total = t.mul(blocks, const(md.B, 64))
        bits = t.mul(n, const(8, 64))
        bits = t.zext(bits, 8 * lb)
        lbs = [t.extract(bits, 8 * k + 7, 8 * k) for k in range(lb)]
        if md.big:
            lbs = lbs[::-1]
        lstart = t.sub(total, const(lb, 64))

        def P(i):
            d = t.sub(i, n)
            if isc(d):
                dv = cv(d) - (1 << 64) if cv(d) >> 63 else cv(d)
                if off + dv >= 0 and abs(dv) < 1 << 20:
                    # i = n + dv without wrap-around, since n = B*q + off <= 2^61
                    k = t.sub(i, lstart)
                    if dv < 0:
                        return M(i)
                    if dv == 0:
                        return const(0x80, 8)
                    if isc(k):
                        return lbs[cv(k)] if cv(k) < lb else const(0, 8)
            v = const(0, 8)
            for k in range(lb):
                v = t.ite(t.eq(i, t.add(lstart, const(k, 64))), lbs[k], v)
            v = t.ite(t.eq(i, n), const(0x80, 8), v)
            return t.ite(t.ult(i, n), M(i), v)
        rep.msg = P
        try:
            o = ex.new_obj(st, lo.size, "this")
            rep.install(ex, st, o.id, 0, n)
            before = st.mem[o.id]
            out = ex.new_obj(st, outlen, "out")
            ex.loop_hook = LoopEngine([])
            ex.unroll_forks = 2 * md.B + 20
            st.owner = object()
            outs = ex.start(st, fn, [t.ptr(o.id, const(0, 64)), t.ptr(out.id, const(0, 64))])
            want = md.words_bytes([md.F(i, blocks) for i in range(md.nw)])[:outlen]
            nret = 0
            for oc in outs:
                if oc.kind != "ret":
                    ex.prove(oc.st, FALSE, "no-throw", "digest")
                    continue
                nret += 1
                # non-destructive: the object itself is bit-for-bit unchanged
                after = oc.st.mem[o.id]
                if after.layers != before.layers:
                    j = 0
                    c = TRUE
                    for k in range(lo.size):
                        c = t.band(c, t.eq(before.rd(oc.st, const(k, 64)), after.rd(oc.st, const(k, 64))))
                    ex.prove(oc.st, c, "object-unchanged", "digest")
                else:
                    ex.oblig += 1
                    ex.discharged += 1
                    smt.STATS.hit("syntactic")
                got = [oc.st.mem[out.id].rd(oc.st, const(k, 64)) for k in range(outlen)]
                self.check_digest(ex, oc.st, got, want, blocks)
            if not nret:
                raise Unsupported("no returning path in digest")
        finally:
            rep.msg = M

    def check_digest(self, ex, st, got, want, blocks):
        # group by words to exploit congruence on the block index
        xs = {}
        for g in got:
            for u in t.topo([g]):
                if u.op == "uf" and re.fullmatch(r"F\d+", u.a[0]):
                    xs[u.a[1]] = 1
        mp = {}
        for x in xs:
            if x is blocks:
                continue
            if ex.prove(st, t.eq(x, blocks), "block-count", "digest"):
                for i in range(self.md.nw):
                    mp[self.md.F(i, x)] = self.md.F(i, blocks)
        got = t.substitute(got, mp) if mp else got
        for k, (g, w) in enumerate(zip(got, want)):
            ex.prove(st, t.eq(g, w), "digest-byte", "digest byte %d" % k)

    # -- 4. constructor
    def prove_ctor(self, fn):
        ex = self.executor()
        st = State(ex)
        md, lo = self.md, self.lo
        o = ex.new_obj(st, lo.size, "this")
        outs = ex.start(st, fn, [t.ptr(o.id, const(0, 64))])
        for oc in outs:
            ws = self.rep.words(ex, oc.st, o.id, 0)
            for i, w in enumerate(ws):
                ex.prove(oc.st, t.eq(w, const(md.iv[i], md.ww)), "initial-value", "ctor word %d" % i)
            ex.prove(oc.st, t.eq(self.rep.length(ex, oc.st, o.id, 0), const(0, 64)), "initial-value", "ctor count")
        return ex
