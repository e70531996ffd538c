"""Forward symbolic execution of LLVM IR with function contracts and loop contracts."""
import time
from . import terms as t
from . import ir, smt
from .terms import const, isc, cv, T, TRUE, FALSE
from .memory import Obj


class Unsupported(Exception):
    """the verifier cannot express this code (never a violation)"""


class Budget(Unsupported):
    pass


class Abort(Exception):
    """an obligation without which the rest of the function cannot be reasoned about failed"""

    def __init__(self, ex):
        Exception.__init__(self, "contract not established")
        self.ex = ex


class Failure:
    def __init__(self, kind, where, detail="", model=None, st=None, status="refuted"):
        self.kind, self.where, self.detail, self.model, self.status = kind, where, detail, model, status
        self.st = st

    def __repr__(self):
        return "[%s] %s at %s %s" % (self.status, self.kind, self.where, self.detail)


class State:
    __slots__ = ("mem", "pc", "pcs", "ghost", "ex", "owner", "dc")

    def __init__(self, ex):
        self.ex = ex
        self.mem = {}
        self.pc = ()
        self.pcs = frozenset()
        self.ghost = {}
        self.owner = object()
        self.dc = {}

    def fork(self):
        s = State.__new__(State)
        s.ex, s.mem, s.pc, s.pcs = self.ex, dict(self.mem), self.pc, self.pcs
        s.ghost = dict(self.ghost)
        s.owner = object()
        self.owner = object()
        s.dc = dict(self.dc)
        return s

    def assume(self, c):
        if c is TRUE or c in self.pcs:
            return
        if c.op == "and" and c.w == 1:
            for x in c.a:
                self.assume(x)
            return
        self.pc = self.pc + (c,)
        self.pcs = self.pcs | {c}
        self.dc = {k: v for k, v in self.dc.items() if v is not None}

    def decide(self, c, effort=True):
        """True/False when pc entails c / not c, None otherwise"""
        if c.op == "c":
            return bool(c.a[0])
        if c in self.pcs:
            return True
        nc = t.bnot(c)
        if nc in self.pcs:
            return False
        if c in self.dc:
            return self.dc[c]
        if not effort or self.ex.concrete:
            return None
        r = None
        self.ex.tick()
        to = self.ex.decide_timeout
        rel = self.ex.relevant(self.pc, c)
        if smt.check(rel + [nc], to) == "unsat":
            r = True
        elif smt.check(rel + [c], to) == "unsat":
            r = False
        self.dc[c] = r
        return r

    def feasible(self, c=None):
        cs = self.ex.relevant(self.pc, c) if c is not None else list(self.pc)
        return smt.check(cs + ([c] if c is not None else []), self.ex.decide_timeout, approx=True) != "unsat"

    # memory
    def obj(self, i):
        return self.mem[i]

    def wobj(self, i):
        o = self.mem[i]
        if o.owner is not self.owner:
            o = o.clone(self.owner)
            self.mem[i] = o
        return o


class Outcome:
    __slots__ = ("kind", "st", "val", "env", "prev", "tag")

    def __init__(self, kind, st, val=None, env=None, prev=None, tag=None):
        self.kind, self.st, self.val, self.env, self.prev, self.tag = kind, st, val, env, prev, tag


_oid = [0]


class Executor:
    def __init__(self, mod, concrete=False):
        self.mod = mod
        self.concrete = concrete
        self.contracts = []  # (predicate(name, dem), handler)
        self._ccache = {}
        self.failures = []
        self.oblig = 0
        self.discharged = 0
        self.obkinds = {}
        self.loop_hook = None
        self.decide_timeout = 4.0
        self.prove_timeout = 25.0
        self.max_steps = 3000000
        self.steps = 0
        self.gobj = {}
        self.merge = False
        self.merge_calls = False
        self.depth = 0
        self.unroll_forks = 400
        self.fork_deadline = None
        self.fork_budget = 45.0
        self.funcs_run = {}
        self.dem = {}
        self.check_ub = True
        self.deadline = None
        self.global_init = {}
        self.quiet_safety = False
        self.trusted = set()
        self.sampling = None
        self._prov = {}
        self.probe = ()

    # ------------------------------------------------------------ proving
    def relevant(self, pc, c):
        """cone of influence of c within pc (sound for entailment; for feasibility the rest is
        checked when the branch was taken)"""
        if len(pc) <= 6:
            return list(pc)
        def vs(x):
            r = x.sup if hasattr(x, "sup") else None
            if r is None:
                r = frozenset(y.id for y in t.topo([x]) if y.op in ("v", "uf"))
                x.sup = r
            return r
        cur = set(vs(c))
        left = list(pc)
        out = []
        ch = True
        while ch:
            ch = False
            nl = []
            for p in left:
                v = vs(p)
                if v & cur:
                    cur |= v
                    out.append(p)
                    ch = True
                else:
                    nl.append(p)
            left = nl
        return out

    def tick(self):
        if self.fork_deadline and time.time() > self.fork_deadline:
            raise Unsupported("unrolling budget used up")

    def prove(self, st, c, kind, where="", prover=None, fatal=False, detail=""):
        """an obligation: pc => c"""
        self.oblig += 1
        self.obkinds[kind] = self.obkinds.get(kind, 0) + 1
        if c is TRUE or c in st.pcs:
            smt.STATS.hit("syntactic")
            self.discharged += 1
            return True
        if c is not FALSE:
            if c.op == "and" and all(x in st.pcs for x in c.a):
                smt.STATS.hit("syntactic")
                self.discharged += 1
                return True
            key = (c, st.pcs)
            if self._prov.get(key):
                self.discharged += 1
                smt.STATS.hit("cached")
                return True
            if prover is not None and prover(st, c):
                self.discharged += 1
                self._prov[key] = True
                return True
            if st.dc.get(c) is True:
                self.discharged += 1
                smt.STATS.hit("cached")
                return True
            rel = self.relevant(st.pc, c)
            r, m = smt.check(rel + [t.bnot(c)], self.prove_timeout, True)
            if r == "unsat":
                self.discharged += 1
                self._prov[key] = True
                return True
            if r == "sat" and len(rel) < len(st.pc):
                r, m = smt.check(list(st.pc) + [t.bnot(c)], self.prove_timeout, True)
                if r == "unsat":
                    self.discharged += 1
                    return True
            status = "refuted" if r == "sat" else "unknown"
        else:
            r, m = smt.check(list(st.pc), self.prove_timeout, True)
            if r == "unsat":
                self.discharged += 1
                return True
            status = "refuted" if r == "sat" else "unknown"
        self.failures.append(Failure(kind, where, detail, m, st, status))
        if len(self.failures) > 200:
            if getattr(self, "tentative", 0):
                raise Budget("too many failed obligations")
            raise Abort(self)
        return False

    def safety(self, st, c, kind, where):
        if c is TRUE:
            return True
        if self.concrete:
            if c is not TRUE:
                self.failures.append(Failure(kind, where, "concrete run"))
            return c is TRUE
        ok = self.prove(st, c, kind, where)
        st.assume(c)
        return ok

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, name, kind="heap", base=None):
        _oid[0] += 1
        if isinstance(size, int):
            size = const(size, 64)
        o = Obj(_oid[0], size, name, kind, base)
        o.owner = st.owner
        st.mem[o.id] = o
        return o

    def new_ptr(self, st, size, name, kind="heap", base=None):
        return t.ptr(self.new_obj(st, size, name, kind, base).id, const(0, 64))

    def global_ptr(self, st, name):
        if name in self.mod.aliases:
            return self.constval(st, self.mod.aliases[name], ir.PTR)
        if name in self.gobj:
            i = self.gobj[name]
            if i not in st.mem:
                self._mkglobal(st, name, i)
            return t.ptr(i, const(0, 64))
        _oid[0] += 1
        self.gobj[name] = i = _oid[0]
        self._mkglobal(st, name, i)
        return t.ptr(i, const(0, 64))

    def _mkglobal(self, st, name, i):
        g = self.mod.globals.get(name)
        if g is None:
            f = self.mod.funcs.get(name)
            if f is None:
                raise Unsupported("unknown global " + name)
            o = Obj(i, const(1, 64), "@" + name, "func")
            o.meta = name
            st.mem[i] = o
            return
        if g.init is None:
            sz = 65536
            try:
                sz = self.mod.size(g.ty)
            except Exception:
                pass
            o = Obj(i, const(sz, 64), "@" + name, "global")
            st.mem[i] = o
            return
        o = Obj(i, const(self.mod.size(g.ty), 64), "@" + name, "global")
        o.ro = g.const
        st.mem[i] = o
        o.owner = st.owner
        by = {}
        self._init(st, g.ty, g.init, 0, by)
        n = self.mod.size(g.ty)
        z = const(0, 8)
        o.w_conc(0, [by.get(k, z) for k in range(n)])
        if name in self.global_init:
            o.w_conc(0, self.global_init[name])

    def _init(self, st, ty, v, off, by):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == "zero":
            return
        if k == "undef":
            return
        if k == "str":
            for i, b in enumerate(v[1]):
                by[off + i] = const(b, 8)
            return
        if k == "agg":
            if ty.k == "struct":
                os = self.mod.offsets(ty)
                for (et, ev), o in zip(v[1], os):
                    self._init(st, et, ev, off + o, by)
            else:
                es = self.mod.size(ty.e)
                for i, (et, ev) in enumerate(v[1]):
                    self._init(st, et, ev, off + i * es, by)
            return
        x = self.constval(st, v, ty)
        n = self.mod.size(ty)
        if x.w < n * 8:
            x = t.zext(x, n * 8)
        for i in range(n):
            by[off + i] = t.extract(x, 8 * i + 7, 8 * i)

    def constval(self, st, v, ty):
        k = v[0]
        if k == "const":
            return const(v[1], self.mod.bits(ty))
        if k == "null":
            return t.NULL
        if k == "fp":
            import struct
            w = self.mod.size(ty) * 8
            if v[1].startswith("0x"):
                d = struct.unpack("<d", int(v[1], 16).to_bytes(8, "little"))[0]
            else:
                d = float(v[1])
            if w == 32:
                return const(int.from_bytes(struct.pack("<f", d), "little"), 32)
            if w == 64:
                return const(int.from_bytes(struct.pack("<d", d), "little"), 64)
        if k == "glo":
            return self.global_ptr(st, v[1])
        if k == "zero":
            ty = self.mod.resolve(ty)
            if ty.k in ("struct", "arr"):
                return self.zero_agg(ty)
            if ty.k == "ptr":
                return t.NULL
            return const(0, self.mod.bits(ty))
        if k == "undef":
            ty = self.mod.resolve(ty)
            if ty.k in ("struct", "arr"):
                return self.undef_agg(ty)
            return t.fresh("undef", self.mod.bits(ty))
        if k == "agg":
            ty = self.mod.resolve(ty)
            if ty.k == "vec":
                es = [self.constval(st, x, et) for et, x in v[1]]
                return t.concat(es[::-1])
            return tuple(self.constval(st, x, et) for et, x in v[1])
        if k == "ce":
            if v[1] == "gep":
                return self.gep(st, v[2], [(a, self.constval(st, b, a)) for a, b in v[3]])
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.constval(st, v[3], v[2])
            if v[1] == "trunc":
                return t.extract(self.constval(st, v[3], v[2]), self.mod.bits(v[4]) - 1, 0)
            if v[1] in ("add", "sub", "xor", "mul"):
                a, b = self.constval(st, v[3], v[2]), self.constval(st, v[4], v[2])
                return {"add": t.add, "sub": t.sub, "xor": t.bxor, "mul": t.mul}[v[1]](a, b)
        raise Unsupported("constant %r" % (v,))

    def zero_agg(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            return tuple(self.zero_agg(e) for e in ty.e)
        if ty.k == "arr":
            return tuple(self.zero_agg(ty.e) for _ in range(ty.n))
        if ty.k == "ptr":
            return t.NULL
        return const(0, self.mod.bits(ty))

    def undef_agg(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            return tuple(self.undef_agg(e) for e in ty.e)
        if ty.k == "arr":
            return tuple(self.undef_agg(ty.e) for _ in range(ty.n))
        return t.fresh("undef", self.mod.bits(ty))

    # ------------------------------------------------------------ memory access
    def split(self, st, p, where):
        """pointer term -> list of (cond, objid, off); forks nothing"""
        if p.op == "ptr":
            return [(TRUE, p.a[0], p.a[1])]
        if p.op == "ite":
            out = []
            d = st.decide(p.a[0])
            if d is not False:
                for c, o, f in self.split(st, p.a[1], where):
                    out.append((t.band(p.a[0], c), o, f))
            if d is not True:
                for c, o, f in self.split(st, p.a[2], where):
                    out.append((t.band(t.bnot(p.a[0]), c), o, f))
            return out
        if p.op == "add":
            c0, prs = p.a
            for k, x in prs:
                if k == 1 and x.op == "ite" and (x.a[1].op in ("ptr", "ite") or x.a[2].op in ("ptr", "ite")):
                    rest = t.sub(p, x)
                    return self.split(st, t.ite(x.a[0], t.add(x.a[1], rest), t.add(x.a[2], rest)), where)
        if isc(p):
            return [(TRUE, 0, p)]
        raise Unsupported("unresolved pointer %r at %s" % (p, where))

    def access(self, st, o, off, n, where, write=False, cond=TRUE):
        """bounds/liveness obligation for n bytes at off (n: int or T)"""
        if isinstance(n, int):
            nt = const(n, 64)
        else:
            nt = n
        if isc(off) and isc(nt) and isc(o.size):
            ok = cv(off) + cv(nt) <= cv(o.size)
            c = TRUE if ok else FALSE
        else:
            c = t.band(t.ule(nt, o.size), t.ule(off, t.sub(o.size, nt)))
        if not o.alive:
            c = FALSE
        if write and o.ro:
            c = FALSE
        if cond is not TRUE:
            c = t.implies(cond, c)
        if c is TRUE:
            self.oblig += 1
            self.discharged += 1
            smt.STATS.hit("syntactic")
            k = "memory-safety"
            self.obkinds[k] = self.obkinds.get(k, 0) + 1
            return True
        return self.safety(st, c, "memory-safety", where + " obj=%s" % o.name)

    def load(self, st, p, n, where=""):
        """n bytes -> BV(8n)"""
        sp = self.split(st, p, where)
        res = None
        for c, oi, off in reversed(sp):
            v = self._load1(st, oi, off, n, where, c)
            if v is None:
                continue
            res = v if res is None else t.ite(c, v, res)
        if res is None:
            raise PathEnd()
        return res

    def _load1(self, st, oi, off, n, where, c):
        if oi == 0:
            self.safety(st, t.bnot(c), "null-dereference", where)
            return None
        o = st.mem[oi]
        if o.kind == "func":
            raise Unsupported("load from function %s at %s" % (o.name, where))
        if not self.access(st, o, off, n, where, cond=c) and not o.alive:
            return None
        if isc(off):
            k = cv(off)
            return t.concat([o.rdr(st, const(k + i, 64)) for i in range(n - 1, -1, -1)]) if n > 1 else o.rd(st, off)
        # constant table with aligned stride
        if n > 1:
            r = self._table(st, o, off, n)
            if r is not None:
                return r
        return t.concat([o.rdr(st, t.add(off, const(i, 64))) for i in range(n - 1, -1, -1)]) if n > 1 else o.rd(st, off)

    def _table(self, st, o, off, n):
        if len(o.layers) != 1 or not isc(o.size):
            return None
        l = o.layers[0]
        if not hasattr(l, "d"):
            return None
        sz = cv(o.size)
        c0, prs = t._lin(off)
        if any(k % n for k, _ in prs) or n & (n - 1):
            return None
        ph = c0 % n
        cells = []
        for b in range(ph, sz - n + 1, n):
            v = t.concat([l.d.get(b + i, None) or o.rd(st, const(b + i, 64)) for i in range(n - 1, -1, -1)])
            cells.append(v)
        rel = t.sub(off, const(ph, 64))
        idx = t.lshr(rel, const(n.bit_length() - 1, 64))
        if all(v.op == "c" for v in cells):
            return t.tab(tuple(v.a[0] for v in cells), 8 * n, idx)
        if len(cells) > 300:
            return None
        r = cells[-1]
        for i in range(len(cells) - 2, -1, -1):
            r = t.ite(t.eq(idx, const(i, 64)), cells[i], r)
        return r

    def store(self, st, p, v, n, where=""):
        sp = self.split(st, p, where)
        by = [t.rawex(v, 8 * i + 7, 8 * i) for i in range(n)]
        for c, oi, off in sp:
            if oi == 0:
                self.safety(st, t.bnot(c), "null-dereference", where)
                continue
            o = st.mem[oi]
            if not self.access(st, o, off, n, where, True, cond=c) and not o.alive:
                continue
            b2 = by
            if c is not TRUE:
                old = [o.rd(st, t.add(off, const(i, 64))) for i in range(n)]
                b2 = [t.ite(c, x, y) for x, y in zip(by, old)]
            o = st.wobj(oi)
            if isc(off):
                o.w_conc(cv(off), b2)
            else:
                o.w_sym(off, b2)

    def copy_range(self, st, dst, src, ln, where=""):
        """memcpy/memmove; ln T64"""
        if isc(ln) and cv(ln) == 0:
            return
        if dst.op != "ptr" or src.op != "ptr":
            sd, ss = self.split(st, dst, where), self.split(st, src, where)
            if len(sd) == 1 and len(ss) == 1:
                dst, src = t.ptr(sd[0][1], sd[0][2]), t.ptr(ss[0][1], ss[0][2])
            else:
                raise NeedSplit(sd if len(sd) > 1 else ss)
        d, s = dst.a, src.a
        if not isc(ln):
            z = st.decide(t.eq(ln, const(0, 64)))
            if z is True:
                return
            nz = TRUE if z is False else t.bnot(t.eq(ln, const(0, 64)))
        else:
            nz = TRUE
        for oi in (d[0], s[0]):
            if oi == 0:
                self.safety(st, t.bnot(nz), "null-dereference", where)
                return
        so = st.mem[s[0]]
        do = st.mem[d[0]]
        self.access(st, so, s[1], ln, where, cond=nz)
        self.access(st, do, d[1], ln, where, True, cond=nz)
        if isc(ln) and cv(ln) <= 8192:
            n = cv(ln)
            by = [so.rdr(st, t.add(s[1], const(i, 64))) for i in range(n)]
            o = st.wobj(d[0])
            if isc(d[1]):
                o.w_conc(cv(d[1]), by)
            else:
                o.w_sym(d[1], by)
            return
        st.owner = object()  # freeze snapshot of the source
        snap = so
        soff = s[1]
        o = st.wobj(d[0])
        o.w_range(d[1], ln, lambda s_, i: snap.rd(s_, t.add(soff, i)))

    def set_range(self, st, dst, val, ln, where=""):
        if isc(ln) and cv(ln) == 0:
            return
        sd = self.split(st, dst, where)
        if len(sd) != 1:
            raise NeedSplit(sd)
        _, oi, off = sd[0]
        nz = TRUE if isc(ln) else t.bnot(t.eq(ln, const(0, 64)))
        if oi == 0:
            self.safety(st, t.bnot(nz), "null-dereference", where)
            return
        o = st.mem[oi]
        self.access(st, o, off, ln, where, True, cond=nz)
        o = st.wobj(oi)
        if isc(ln) and cv(ln) <= 8192:
            by = [val] * cv(ln)
            if isc(off):
                o.w_conc(cv(off), by)
            else:
                o.w_sym(off, by)
        else:
            o.w_range(off, ln, lambda s_, i: val)

    # ------------------------------------------------------------ typed load/store
    def loadty(self, st, p, ty, where):
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            os = self.mod.offsets(ty)
            return tuple(self.loadty(st, t.add(p, const(o, 64)), e, where) for e, o in zip(ty.e, os))
        if ty.k == "arr":
            es = self.mod.size(ty.e)
            return tuple(self.loadty(st, t.add(p, const(i * es, 64)), ty.e, where) for i in range(ty.n))
        b = self.mod.bits(ty)
        n = (b + 7) // 8
        v = self.load(st, p, n, where)
        return t.extract(v, b - 1, 0) if b < 8 * n else v

    def storety(self, st, p, v, ty, where):
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            os = self.mod.offsets(ty)
            for e, o, x in zip(ty.e, os, v):
                self.storety(st, t.add(p, const(o, 64)), x, e, where)
            return
        if ty.k == "arr":
            es = self.mod.size(ty.e)
            for i in range(ty.n):
                self.storety(st, t.add(p, const(i * es, 64)), v[i], ty.e, where)
            return
        b = self.mod.bits(ty)
        n = (b + 7) // 8
        if b < 8 * n:
            v = t.zext(v, 8 * n)
        self.store(st, p, v, n, where)

    def gep(self, st, bt, ops):
        p = ops[0][1]
        ty = bt
        off = const(0, 64)
        for k, (oty, ix) in enumerate(ops[1:]):
            if k == 0:
                es = self.mod.size(ty)
            else:
                ty = self.mod.resolve(ty)
                if ty.k == "struct":
                    i = cv(ix)
                    off = t.add(off, const(self.mod.offsets(ty)[i], 64))
                    ty = ty.e[i]
                    continue
                es = self.mod.size(ty.e)
                ty = ty.e
            ix = t.sext(ix, 64) if ix.w < 64 else ix
            off = t.add(off, t.mul(ix, const(es, 64)))
        return self.padd(p, off)

    def padd(self, p, off):
        if isc(off) and cv(off) == 0:
            return p
        if p.op == "ite":
            return t.ite(p.a[0], self.padd(p.a[1], off), self.padd(p.a[2], off))
        return t.add(p, off)

    # ------------------------------------------------------------ running
    def operand(self, st, env, v, ty):
        if v[0] == "loc":
            return env[v[1]]
        return self.constval(st, v, ty)

    def contract_for(self, name):
        if name in self._ccache:
            return self._ccache[name]
        d = self.dem.get(name, name)
        h = None
        for pred, hd in self.contracts:
            if pred(name, d):
                h = hd
                break
        self._ccache[name] = h
        return h

    def call(self, st, name, args, where="", inst=None):
        """-> list of Outcome(kind in ret/throw)"""
        h = self.contract_for(name)
        if h is not None:
            r = h(self, st, name, args, where)
            if r is not NotImplemented:
                return r
        from . import natives
        r = natives.call(self, st, name, args, where, inst)
        if r is not None:
            return r
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            raise Unsupported("external function %s (%s)" % (name, self.dem.get(name, name)))
        return self.run_function(st, f, args)

    def run_function(self, st, f, args):
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("call depth (recursion without contract) in " + f.name)
        self.funcs_run[f.name] = self.funcs_run.get(f.name, 0) + 1
        try:
            env = dict(zip(f.params, args))
            allocas = []
            env["$allocas"] = allocas
            outs = self.run(st, f, env, f.order[0], None, 0, ())
            for o in outs:
                if o.kind == "ret":
                    for a in o.env["$allocas"]:
                        if a in o.st.mem:
                            del o.st.mem[a]
            if self.merge and len(outs) > 1:
                outs = self.merge_outs(outs)
            elif self.merge_calls and 1 < len(outs) <= 8 and all(o.kind == "ret" and o.st.mem.keys() == outs[0].st.mem.keys() for o in outs):
                outs = self.merge_outs(outs)
            return outs
        finally:
            self.depth -= 1

    def start(self, st, name, args):
        f = self.mod.funcs[name]
        return self.run_function(st, f, args)

    def resume(self, oc, f, stops):
        """continue a path that was stopped at a loop exit"""
        outs, work = [], []
        self.goto(oc.st, f, oc.env, oc.prev, oc.val, stops, work, outs, ir.loops(f), {}, False)
        for st, env, blk, prev, idx in work:
            outs += self.run(st, f, env, blk, prev, idx, stops)
        return outs

    def run(self, st, f, env, blk, prev, idx, stops):
        outs = []
        work = [(st, env, blk, prev, idx)]
        lps = ir.loops(f)
        forks = {}
        while work:
            st, env, blk, prev, idx = work.pop()
            b = f.blocks[blk]
            try:
                self._steps(st, f, env, b, prev, idx, stops, work, outs, lps, forks)
            except PathEnd:
                pass
            except NeedSplit as ns:
                # fork the path on the pointer alternatives and re-execute the instruction
                for c, _, _ in ns.alts:
                    s2 = st.fork()
                    s2.assume(c)
                    if s2.feasible():
                        work.append((s2, dict(env), blk, prev, ns.idx))
        return outs

    def _phis(self, st, f, env, frm, to):
        b = f.blocks[to]
        vals = []
        for I in b.insts:
            if I.op != "phi":
                break
            vals.append((I.res, self.operand(st, env, I.a[frm], I.ty)))
        for r, v in vals:
            env[r] = v

    def goto(self, st, f, env, frm, to, stops, work, outs, lps, forks, forked):
        for s in stops:
            if s[0] == "join" and s[1] == to:
                self._phis_join = None
                outs.append(Outcome("stop", st, None, env, frm, s))
                return
            if s[0] == "back" and s[1] == to and frm in s[2]:
                outs.append(Outcome("stop", st, None, env, frm, s))
                return
            if s[0] == "exit" and frm in s[2] and to not in s[2]:
                outs.append(Outcome("stop", st, to, env, frm, s))
                return
        self._phis(st, f, env, frm, to)
        lp = lps.get(to)
        if lp is not None:
            if self.sampling is not None:
                self.sampling(self, st, f, to, env, frm)
            if frm not in lp[1]:
                if self.loop_hook is not None and not self.concrete:
                    r = self.loop_hook(self, st, f, to, lp, env, stops)
                    if r is not None:
                        outs.extend(r)
                        return
            elif forked:
                forks[to] = forks.get(to, 0) + 1
                if self.fork_deadline and time.time() > self.fork_deadline:
                    raise Unsupported("loop at %s in %s: unrolling budget used up" % (to, f.name))
                if forks[to] > self.unroll_forks:
                    raise Unsupported("loop at %s in %s needs a loop contract" % (to, f.name))
        nphi = 0
        for I in f.blocks[to].insts:
            if I.op != "phi":
                break
            nphi += 1
        work.append((st, env, to, frm, nphi))

    def _steps(self, st, f, env, b, prev, idx, stops, work, outs, lps, forks):
        insts = b.insts
        mod = self.mod
        n = len(insts)
        while idx < n:
            I = insts[idx]
            self.steps += 1
            if self.steps & 1023 == 0:
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time budget")
                if self.steps > self.max_steps:
                    raise Budget("step budget")
            op = I.op
            try:
                if op in ir.BIN:
                    env[I.res] = self.binop(st, I, self.operand(st, env, I.a[0], I.ty),
                                            self.operand(st, env, I.a[1], I.ty), f)
                elif op == "load":
                    env[I.res] = self.loadty(st, self.operand(st, env, I.a[0], ir.PTR), I.ty, self.where(f, I))
                elif op == "store":
                    v = self.operand(st, env, I.a[0], I.ty)
                    self.storety(st, self.operand(st, env, I.a[1], ir.PTR), v, I.ty, self.where(f, I))
                elif op == "getelementptr":
                    env[I.res] = self.gep(st, I.ty, [(ty, self.operand(st, env, v, ty)) for ty, v in I.a])
                elif op == "icmp":
                    a = self.operand(st, env, I.a[1], I.ty)
                    c = self.operand(st, env, I.a[2], I.ty)
                    env[I.res] = self.icmp(st, I, I.a[0], a, c)
                elif op == "br":
                    if I.a[0] is None:
                        return self.goto(st, f, env, b.name, I.a[1], stops, work, outs, lps, forks, False)
                    c = self.operand(st, env, I.a[0], ir.IntTy(1))
                    return self.branch(st, f, env, b, [(c, I.a[1]), (t.bnot(c), I.a[2])], stops, work, outs, lps, forks)
                elif op == "switch":
                    v = self.operand(st, env, I.a[0], I.ty)
                    alts, none = [], []
                    for k, lb in I.a[2]:
                        c = t.eq(v, const(k, v.w))
                        alts.append((c, lb))
                        none.append(t.bnot(c))
                    alts.append((t.band(*none) if none else TRUE, I.a[1]))
                    return self.branch(st, f, env, b, alts, stops, work, outs, lps, forks)
                elif op == "ret":
                    v = self.operand(st, env, I.a[0], I.ty) if I.a else None
                    outs.append(Outcome("ret", st, v, env))
                    return
                elif op == "phi":
                    raise Unsupported("phi executed")
                elif op in ("call", "invoke"):
                    rs = self.docall(st, f, env, I)
                    if rs is None:
                        pass
                    else:
                        first = None
                        for o in rs:
                            if o.kind == "throw":
                                outs.append(Outcome("throw", o.st, o.val, env))
                                continue
                            e2 = env if len(rs) == 1 else dict(env)
                            if len(rs) > 1:
                                e2["$allocas"] = list(env["$allocas"])
                            if I.res:
                                e2[I.res] = o.val
                            if op == "invoke":
                                self.goto(o.st, f, e2, b.name, I.a[2], stops, work, outs, lps, forks, False)
                            else:
                                work.append((o.st, e2, b.name, prev, idx + 1))
                        return
                    if op == "invoke":
                        return self.goto(st, f, env, b.name, I.a[2], stops, work, outs, lps, forks, False)
                elif op == "alloca":
                    cnt = self.operand(st, env, I.a[0], ir.IntTy(32))
                    sz = t.mul(t.zext(cnt, 64), const(mod.size(I.ty), 64))
                    p = self.new_ptr(st, sz, I.res + "@" + f.name[:40], "stack")
                    env["$allocas"].append(p.a[0])
                    env[I.res] = p
                elif op == "select":
                    c = self.operand(st, env, I.a[0], I.a[3])
                    a = self.operand(st, env, I.a[1], I.ty)
                    d = self.operand(st, env, I.a[2], I.ty)
                    env[I.res] = self.select(c, a, d, I.ty)
                elif op in ir.CAST:
                    env[I.res] = self.cast(st, I, self.operand(st, env, I.a[1], I.a[0]))
                elif op == "extractvalue":
                    v = self.operand(st, env, I.a[0], I.ty)
                    for k in I.a[1]:
                        v = v[k]
                    env[I.res] = v
                elif op == "insertvalue":
                    v = self.operand(st, env, I.a[0], I.ty)
                    x = self.operand(st, env, I.a[2], I.a[1])
                    env[I.res] = self._insv(v, x, I.a[3])
                elif op == "extractelement":
                    v = self.operand(st, env, I.a[0], I.ty)
                    ix = self.operand(st, env, I.a[1], I.a[2])
                    eb = mod.bits(mod.resolve(I.ty).e)
                    env[I.res] = t.extract(v, cv(ix) * eb + eb - 1, cv(ix) * eb)
                elif op == "insertelement":
                    v = self.operand(st, env, I.a[0], I.ty)
                    x = self.operand(st, env, I.a[2], I.a[1])
                    ix = self.operand(st, env, I.a[3], I.a[4])
                    eb = mod.bits(mod.resolve(I.ty).e)
                    k = cv(ix)
                    ps = []
                    if (k + 1) * eb < v.w:
                        ps.append(t.extract(v, v.w - 1, (k + 1) * eb))
                    ps.append(x)
                    if k:
                        ps.append(t.extract(v, k * eb - 1, 0))
                    env[I.res] = t.concat(ps)
                elif op == "shufflevector":
                    a = self.operand(st, env, I.a[0], I.ty)
                    c = self.operand(st, env, I.a[1], I.ty)
                    eb = mod.bits(mod.resolve(I.ty).e)
                    ne = mod.resolve(I.ty).n
                    m = I.a[3]
                    if m[0] == "zero":
                        mk = [0] * mod.resolve(I.a[2]).n
                    elif m[0] == "undef":
                        mk = [None] * mod.resolve(I.a[2]).n
                    else:
                        mk = [x[1] if x[0] == "const" else (0 if x[0] == "zero" else None) for _, x in m[1]]
                    es = []
                    for k in mk:
                        if k is None:
                            es.append(t.fresh("undef", eb))
                        elif k < ne:
                            es.append(t.extract(a, k * eb + eb - 1, k * eb))
                        else:
                            k -= ne
                            es.append(t.extract(c, k * eb + eb - 1, k * eb))
                    env[I.res] = t.concat(es[::-1])
                elif op == "freeze":
                    env[I.res] = self.operand(st, env, I.a[0], I.ty)
                elif op == "unreachable":
                    if not self.concrete:
                        self.prove(st, FALSE, "unreachable-code-reached", self.where(f, I))
                    return
                elif op == "fence":
                    pass
                else:
                    raise Unsupported("instruction " + I.text)
            except NeedSplit as ns:
                ns.idx = idx
                raise
            idx += 1

    def where(self, f, I):
        return "%s: %s" % (self.dem.get(f.name, f.name)[:120], I.text[:140])

    def _insv(self, v, x, ix):
        v = list(v)
        if len(ix) == 1:
            v[ix[0]] = x
        else:
            v[ix[0]] = self._insv(v[ix[0]], x, ix[1:])
        return tuple(v)

    def select(self, c, a, d, ty):
        if isinstance(a, tuple):
            return tuple(self.select(c, x, y, None) for x, y in zip(a, d))
        if c.w > 1:
            eb = a.w // c.w
            es = [t.ite(t.extract(c, k, k), t.extract(a, k * eb + eb - 1, k * eb), t.extract(d, k * eb + eb - 1, k * eb))
                  for k in range(c.w)]
            return t.concat(es[::-1])
        return t.ite(c, a, d)

    def cast(self, st, I, v):
        op = I.op
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            w = self.mod.bits(I.ty)
            if w != v.w:
                return t.zext(v, w) if w > v.w else t.extract(v, w - 1, 0)
            return v
        ty = self.mod.resolve(I.ty)
        if ty.k == "vec":
            nb = self.mod.bits(ty.e)
            ob = v.w // ty.n
            es = [t.extract(v, k * ob + ob - 1, k * ob) for k in range(ty.n)]
            f = {"zext": lambda x: t.zext(x, nb), "sext": lambda x: t.sext(x, nb),
                 "trunc": lambda x: t.extract(x, nb - 1, 0)}[op]
            return t.concat([f(x) for x in es][::-1])
        w = self.mod.bits(ty)
        if op == "zext":
            return t.zext(v, w)
        if op == "sext":
            return t.sext(v, w)
        return t.extract(v, w - 1, 0)

    def icmp(self, st, I, pred, a, b):
        ty = self.mod.resolve(I.ty)
        if ty.k == "vec":
            eb = a.w // ty.n
            es = [self.icmp1(pred, t.extract(a, k * eb + eb - 1, k * eb), t.extract(b, k * eb + eb - 1, k * eb))
                  for k in range(ty.n)]
            return t.concat(es[::-1])
        if ty.k == "ptr":
            return self.pcmp(st, pred, a, b)
        return self.icmp1(pred, a, b)

    def pcmp(self, st, pred, a, b):
        if a.op == "ite" and a.a[1].w == 64 and (a.a[1].op in ("ptr", "ite") or a.a[2].op in ("ptr", "ite")):
            return t.ite(a.a[0], self.pcmp(st, pred, a.a[1], b), self.pcmp(st, pred, a.a[2], b))
        if b.op == "ite" and (b.a[1].op in ("ptr", "ite") or b.a[2].op in ("ptr", "ite")):
            return t.ite(b.a[0], self.pcmp(st, pred, a, b.a[1]), self.pcmp(st, pred, a, b.a[2]))
        return self.icmp1(pred, a, b)

    def icmp1(self, pred, a, b):
        if pred == "eq":
            return t.eq(a, b)
        if pred == "ne":
            return t.bnot(t.eq(a, b))
        if pred == "ult":
            return t.ult(a, b)
        if pred == "ule":
            return t.ule(a, b)
        if pred == "ugt":
            return t.ult(b, a)
        if pred == "uge":
            return t.ule(b, a)
        if pred == "slt":
            return t.slt(a, b)
        if pred == "sle":
            return t.sle(a, b)
        if pred == "sgt":
            return t.slt(b, a)
        if pred == "sge":
            return t.sle(b, a)
        raise Unsupported("icmp " + pred)

    def binop(self, st, I, a, b, f):
        ty = self.mod.resolve(I.ty)
        if ty.k == "vec":
            if I.op in ("and", "or", "xor"):
                return self.bin1(st, I, a, b, f)
            eb = a.w // ty.n
            es = [self.bin1(st, I, t.extract(a, k * eb + eb - 1, k * eb), t.extract(b, k * eb + eb - 1, k * eb), f)
                  for k in range(ty.n)]
            return t.concat(es[::-1])
        return self.bin1(st, I, a, b, f)

    def bin1(self, st, I, a, b, f):
        op = I.op
        if op == "and":
            return t.band(a, b)
        if op == "or":
            return t.bor(a, b)
        if op == "xor":
            return t.bxor(a, b)
        if op == "add":
            if "nsw" in I.flags and self.check_ub and not (isc(a) and isc(b)):
                self.nsw(st, I, a, b, f)
            return t.add(a, b)
        if op == "sub":
            if "nsw" in I.flags and self.check_ub and not (isc(a) and isc(b)):
                self.nsw(st, I, a, b, f)
            return t.sub(a, b)
        if op == "mul":
            if "nsw" in I.flags and self.check_ub and not (isc(a) and isc(b)):
                self.nsw(st, I, a, b, f)
            return t.mul(a, b)
        if op in ("shl", "lshr", "ashr"):
            if not isc(b):
                if self.check_ub and t.ubound(b) >= b.w:
                    self.safety(st, t.ult(b, const(b.w, b.w)), "shift-amount", self.where(f, I))
            elif cv(b) >= b.w and self.check_ub:
                self.safety(st, FALSE, "shift-amount", self.where(f, I))
            return {"shl": t.shl, "lshr": t.lshr, "ashr": t.ashr}[op](a, b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not (isc(b) and cv(b)):
                self.safety(st, t.bnot(t.eq(b, const(0, b.w))), "division-by-zero", self.where(f, I))
            return {"udiv": t.udiv, "urem": t.urem, "sdiv": t.sdiv, "srem": t.srem}[op](a, b)
        raise Unsupported(op)

    def nsw(self, st, I, a, b, f):
        w = a.w
        ua, ub = t.ubound(a), t.ubound(b)
        h = 1 << (w - 1)
        if I.op == "add" and ua + ub < h:
            return
        if I.op == "mul" and ua * ub < h:
            return
        if I.op == "sub" and ua < h and ub < h:
            return
        if I.op == "mul":
            a2, b2 = t.sext(a, 2 * w), t.sext(b, 2 * w)
            r = t.mul(a2, b2)
            c = t.eq(t.sext(t.extract(r, w - 1, 0), 2 * w), r)
        else:
            a2, b2 = t.sext(a, w + 1), t.sext(b, w + 1)
            r = t.add(a2, b2) if I.op == "add" else t.sub(a2, b2)
            c = t.eq(t.extract(r, w, w), t.extract(r, w - 1, w - 1))
        self.safety(st, c, "signed-overflow", self.where(f, I))

    def branch(self, st, f, env, b, alts, stops, work, outs, lps, forks):
        live = []
        for c, lb in alts:
            if c is FALSE:
                continue
            if c is TRUE or c in st.pcs:
                live = [(TRUE, lb)]
                break
            if t.bnot(c) in st.pcs:
                continue
            live.append((c, lb))
        if len(live) > 1:
            if self.concrete:
                raise Unsupported("symbolic branch in concrete run: %s" % (live[0][0],))
            l2 = []
            for c, lb in live:
                if c in st.dc and st.dc[c] is False:
                    continue
                if st.feasible(c):
                    l2.append((c, lb))
            live = l2
            if not live:
                return
            if len(live) == 1:
                st.assume(live[0][0])
                live = [(TRUE, live[0][1])]
        if len(live) == 1:
            return self.goto(st, f, env, b.name, live[0][1], stops, work, outs, lps, forks, False)
        if self.probe:
            for key, body in reversed(self.probe):
                if key[0] == f.name and b.name in body and any(lb not in body for _, lb in live):
                    from .loops import ProbeSymbolic
                    raise ProbeSymbolic(key)
        if self.merge and len(live) == 2:
            j = self.join_point(f, b.name)
            if j is not None:
                return self.branch_merge(st, f, env, b, live, j, stops, work, outs, lps, forks)
        first = True
        for c, lb in live:
            s2 = st.fork()
            e2 = dict(env)
            e2["$allocas"] = list(env["$allocas"])
            s2.assume(c)
            self.goto(s2, f, e2, b.name, lb, stops, work, outs, lps, forks, True)

    # ------------------------------------------------------------ merging
    def join_point(self, f, bn):
        """immediate postdominator, when the region in between is acyclic"""
        k = (f.name, bn)
        c = getattr(self, "_jp", None)
        if c is None:
            c = self._jp = {}
        if k in c:
            return c[k]
        from .cfg import ipdom_acyclic
        c[k] = ipdom_acyclic(f, bn)
        return c[k]

    def branch_merge(self, st, f, env, b, live, j, stops, work, outs, lps, forks):
        tag = ("join", j)
        arrived = []
        npc = len(st.pc)
        for c, lb in live:
            s2 = st.fork()
            e2 = dict(env)
            e2["$allocas"] = list(env["$allocas"])
            s2.assume(c)
            w2, o2 = [], []
            self.goto(s2, f, e2, b.name, lb, (tag,) + stops, w2, o2, lps, forks, True)
            while w2:
                s_, e_, bl_, pv_, ix_ = w2.pop()
                try:
                    self._steps(s_, f, e_, f.blocks[bl_], pv_, ix_, (tag,) + stops, w2, o2, lps, forks)
                except PathEnd:
                    pass
                except NeedSplit as ns:
                    for c_, _, _ in ns.alts:
                        s3 = s_.fork()
                        s3.assume(c_)
                        if s3.feasible():
                            w2.append((s3, dict(e_), bl_, pv_, ns.idx))
            for o in o2:
                if o.kind in ("stop", "stopphi") and o.tag == tag:
                    arrived.append(o)
                else:
                    outs.append(o)
        # evaluate phis of j for each arrival, then merge
        items = []
        for o in arrived:
            if o.kind == "stop":
                self._phis(o.st, f, o.env, o.prev, j)
            items.append((o.st, o.env, o.prev))
        merged = self._merge_items(items, npc)
        nphi = 0
        for I in f.blocks[j].insts:
            if I.op != "phi":
                break
            nphi += 1
        for s_, e_, p_ in merged:
            # outer joins / loop headers were excluded by join_point (j is not a loop header, not an outer stop)
            hit = None
            for sp in stops:
                if sp[0] == "join" and sp[1] == j:
                    hit = sp
            if hit:
                outs.append(Outcome("stopphi", s_, None, e_, p_, hit))
            else:
                work.append((s_, e_, j, p_, nphi))

    def _merge_items(self, items, npc):
        cur = []
        for it in items:
            done = False
            for k, m in enumerate(cur):
                r = self._merge2(m, it, npc)
                if r is not None:
                    cur[k] = r
                    done = True
                    break
            if not done:
                cur.append(it)
        return cur

    def _merge2(self, A, B, npc):
        (s1, e1, p1), (s2, e2, p2) = A, B
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        c1 = t.band(*s1.pc[n:]) if len(s1.pc) > n else TRUE
        c2 = t.band(*s2.pc[n:]) if len(s2.pc) > n else TRUE
        if c1 is TRUE or c2 is TRUE:
            return None
        if set(s1.ghost) != set(s2.ghost) or any(s1.ghost[k] is not s2.ghost[k] for k in s1.ghost):
            return None
        # pick the simpler discriminating condition
        mem = {}
        sel = s1.pc[n]
        if t.bnot(sel) is not s2.pc[n]:
            sel = c1
        for k in s1.mem:
            o1 = s1.mem[k]
            o2 = s2.mem.get(k)
            if o2 is None:
                continue
            if o1 is o2:
                mem[k] = o1
                continue
            m = self._merge_obj(s1, s2, sel, o1, o2)
            if m is None:
                return None
            mem[k] = m
        env = {}
        for k, v in e1.items():
            if k == "$allocas":
                env[k] = sorted(set(v) | set(e2[k]))
                continue
            if k not in e2:
                continue
            w = e2[k]
            x = self._merge_val(sel, v, w)
            if x is None:
                return None
            env[k] = x
        s = s1.fork()
        s.mem = mem
        s.pc = s1.pc[:n]
        s.pcs = frozenset(s.pc)
        s.dc = {}
        s.assume(t.bor(c1, c2))
        return (s, env, p1)

    def _merge_val(self, c, v, w):
        if v is w:
            return v
        if isinstance(v, tuple):
            if not isinstance(w, tuple):
                return None
            r = [self._merge_val(c, x, y) for x, y in zip(v, w)]
            return None if any(x is None for x in r) else tuple(r)
        if not isinstance(v, T) or not isinstance(w, T) or v.w != w.w:
            return None
        return t.ite(c, v, w)

    def _merge_obj(self, s1, s2, c, o1, o2):
        from .memory import CLayer
        if o1.alive != o2.alive or o1.base is not o2.base:
            return None
        if o1.size is not o2.size:
            return None
        L1, L2 = o1.layers, o2.layers
        k = 0
        while k < len(L1) and k < len(L2) and L1[k] is L2[k]:
            k += 1
        r1, r2 = L1[k:], L2[k:]
        if len(r1) > 1 or len(r2) > 1:
            return None
        d1 = r1[0].d if r1 else {}
        d2 = r2[0].d if r2 else {}
        if (r1 and not isinstance(r1[0], CLayer)) or (r2 and not isinstance(r2[0], CLayer)):
            return None
        o = o1.clone(None)
        o.layers = L1[:k]
        cells = {}
        for key in set(d1) | set(d2):
            if key == "own":
                continue
            a = d1.get(key)
            b = d2.get(key)
            if a is None:
                a = o1.rd(s1, const(key, 64))
            if b is None:
                b = o2.rd(s2, const(key, 64))
            cells[key] = (a, b)
        # merge whole words where the bytes come from one term, to keep terms compact
        d = {}
        for key in sorted(cells):
            a, b = cells[key]
            d[key] = a if a is b else None
        i = 0
        keys = sorted(cells)
        done = set()
        for key in keys:
            if d[key] is not None or key in done:
                continue
            run = [key]
            while run[-1] + 1 in cells and d[run[-1] + 1] is None and len(run) < 8 and (run[-1] + 1) % 8:
                run.append(run[-1] + 1)
            av = t.concat([cells[q][0] for q in reversed(run)])
            bv = t.concat([cells[q][1] for q in reversed(run)])
            m = t.ite(c, av, bv)
            for z, q in enumerate(run):
                d[q] = t.extract(m, 8 * z + 7, 8 * z)
                done.add(q)
        o.layers = L1[:k] + (CLayer(d),)
        return o

    def merge_outs(self, outs):
        rets = [o for o in outs if o.kind == "ret"]
        rest = [o for o in outs if o.kind != "ret"]
        if len(rets) < 2:
            return outs
        items = [(o.st, {"$allocas": [], "r": o.val} if o.val is not None else {"$allocas": []}, None) for o in rets]
        m = self._merge_items(items, 0)
        return rest + [Outcome("ret", s, e.get("r"), {"$allocas": []}) for s, e, _ in m]

    # ------------------------------------------------------------ calls
    def docall(self, st, f, env, I):
        cal, args, _, _ = I.a
        if cal[0] == "glo":
            name = cal[1]
            if name in self.mod.aliases:
                v = self.mod.aliases[name]
                if v[0] == "glo":
                    name = v[1]
        else:
            if cal[0] == "asm":
                raise Unsupported("inline asm")
            p = self.operand(st, env, cal, ir.PTR)
            alts = self.split(st, p, self.where(f, I))
            if len(alts) != 1:
                raise NeedSplit(alts)
            o = st.mem.get(alts[0][1])
            if o is None or o.kind != "func":
                raise Unsupported("indirect call to non-function at " + self.where(f, I))
            name = o.meta
        av = [self.operand(st, env, v, ty) for ty, v in args]
        return self.call(st, name, av, self.where(f, I), I)


class PathEnd(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, alts):
        self.alts = alts
        self.idx = 0
