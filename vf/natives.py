"""Semantics of LLVM intrinsics, the AES-NI / CLMUL instructions and a few C/C++ runtime entry points.
Everything here is part of the trusted base (see DESIGN.md)."""
import re
from . import terms as t
from .terms import const, isc, cv, TRUE, FALSE

# ---------------------------------------------------------------- AES-NI (Intel SDM), S-box computed
def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11b
        b >>= 1
    return r


def _mksbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if _gmul(a, b) == 1:
                inv[a] = b
                break
    out = []
    for a in range(256):
        b = inv[a]
        r = 0
        for i in range(8):
            bit = (b >> i ^ b >> ((i + 4) % 8) ^ b >> ((i + 5) % 8) ^ b >> ((i + 6) % 8) ^ b >> ((i + 7) % 8) ^ 0x63 >> i) & 1
            r |= bit << i
        out.append(r)
    return tuple(out)


SBOX = _mksbox()


def sbox(b):
    if isc(b):
        return const(SBOX[cv(b)], 8)
    return t.tab(SBOX, 8, t.zext(b, 64))


def xtime(b):
    return t.bxor(t.shl(b, const(1, 8)), t.ite(t.extract(b, 7, 7), const(0x1b, 8), const(0, 8)))


def bytes_of(x, n=16):
    return [t.extract(x, 8 * i + 7, 8 * i) for i in range(n)]


def from_bytes(bs):
    return t.concat(list(reversed(bs)))


def _shiftrows(b):
    # byte index = 4*col + row
    return [b[4 * ((c + r) % 4) + r] for c in range(4) for r in range(4)]


def _mixcol(b):
    out = []
    for c in range(4):
        a = b[4 * c:4 * c + 4]
        x = [xtime(v) for v in a]
        for r in range(4):
            out.append(t.bxor(x[r], x[(r + 1) % 4], a[(r + 1) % 4], a[(r + 2) % 4], a[(r + 3) % 4]))
    return out


def aesenc(s, k):
    b = [sbox(v) for v in _shiftrows(bytes_of(s))]
    m = _mixcol(b)
    return from_bytes([t.bxor(x, y) for x, y in zip(m, bytes_of(k))])


def aesenclast(s, k):
    b = [sbox(v) for v in _shiftrows(bytes_of(s))]
    return from_bytes([t.bxor(x, y) for x, y in zip(b, bytes_of(k))])


def keygenassist(s, rc):
    w = [t.extract(s, 32 * i + 31, 32 * i) for i in range(4)]

    def sub(x):
        return from_bytes([sbox(v) for v in bytes_of(x, 4)])

    def rot(x):
        return t.concat([t.extract(x, 7, 0), t.extract(x, 31, 8)])
    rcw = const(rc, 32)
    return t.concat([t.bxor(rot(sub(w[3])), rcw), sub(w[3]), t.bxor(rot(sub(w[1])), rcw), sub(w[1])])


def clmul(a, b):
    if isc(a) and isc(b):
        x, y, r = cv(a), cv(b), 0
        while y:
            if y & 1:
                r ^= x
            x <<= 1
            y >>= 1
        return const(r, 128)
    if (isc(a) and cv(a) == 0) or (isc(b) and cv(b) == 0):
        return const(0, 128)
    if b.id < a.id:
        a, b = b, a
    return t.uf("clmul", [a, b], 128)


NOP = re.compile(r"llvm\.(lifetime|dbg|experimental\.noalias|invariant|donothing|var\.annotation|sideeffect)|llvm\.assume")
THROWS = re.compile(r"^_ZSt\d+__throw_|^__cxa_bad|^__cxa_throw_bad")
EXCEPT = re.compile(r"^_ZNSt\d+(runtime_error|logic_error|invalid_argument|out_of_range|length_error|range_error|domain_error|overflow_error|exception)[CD][012]E")
SINT = re.compile(r"llvm\.(\w+)\.(.*)")


def fixed(st, n):
    """the constant the path condition gives to n, if there is an explicit one"""
    if not isc(n):
        for c in st.pc:
            if c.op == "eq" and len(c.a) == 2:
                if c.a[0] is n and isc(c.a[1]):
                    return c.a[1]
                if c.a[1] is n and isc(c.a[0]):
                    return c.a[0]
    return n


def call(ex, st, name, args, where, inst):
    from .exec import Outcome, Unsupported, PathEnd, NeedSplit
    R = lambda v: [Outcome("ret", st, v)]
    if name.startswith("llvm."):
        if NOP.match(name):
            return R(None)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            ln = args[2]
            ln = t.zext(ln, 64) if ln.w < 64 else ln
            ex.copy_range(st, args[0], args[1], ln, where)
            return R(None)
        if name.startswith("llvm.memset"):
            ex.set_range(st, args[0], args[1], t.zext(args[2], 64), where)
            return R(None)
        if name.startswith("llvm.fshl"):
            a, b, s = args
            if isc(s):
                k = cv(s) % a.w
                return R(a if k == 0 else t.bor(t.shl(a, const(k, a.w)), t.lshr(b, const(a.w - k, a.w))))
            s = t.urem(s, const(a.w, a.w))
            return R(t.ite(t.eq(s, const(0, a.w)), a, t.bor(t.shl(a, s), t.lshr(b, t.sub(const(a.w, a.w), s)))))
        if name.startswith("llvm.fshr"):
            a, b, s = args
            if isc(s):
                k = cv(s) % a.w
                return R(b if k == 0 else t.bor(t.lshr(b, const(k, a.w)), t.shl(a, const(a.w - k, a.w))))
            s = t.urem(s, const(a.w, a.w))
            return R(t.ite(t.eq(s, const(0, a.w)), b, t.bor(t.lshr(b, s), t.shl(a, t.sub(const(a.w, a.w), s)))))
        if name.startswith("llvm.bswap"):
            bs = bytes_of(args[0], args[0].w // 8)
            return R(from_bytes(bs[::-1]))
        if name.startswith("llvm.bitreverse"):
            return R(t.concat([t.extract(args[0], i, i) for i in range(args[0].w)]))
        for k, f in (("umin", t.ult), ("smin", t.slt)):
            if name.startswith("llvm." + k):
                return R(t.ite(f(args[0], args[1]), args[0], args[1]))
        for k, f in (("umax", t.ult), ("smax", t.slt)):
            if name.startswith("llvm." + k):
                return R(t.ite(f(args[0], args[1]), args[1], args[0]))
        if name.startswith("llvm.uadd.with.overflow"):
            w = args[0].w
            s = t.add(args[0], args[1])
            return R((s, t.ult(s, args[0])))
        if name.startswith("llvm.usub.with.overflow"):
            return R((t.sub(args[0], args[1]), t.ult(args[0], args[1])))
        if name.startswith("llvm.umul.with.overflow"):
            w = args[0].w
            r = t.mul(t.zext(args[0], 2 * w), t.zext(args[1], 2 * w))
            return R((t.mul(args[0], args[1]), t.bnot(t.eq(t.extract(r, 2 * w - 1, w), const(0, w)))))
        if name.startswith("llvm.usub.sat"):
            return R(t.ite(t.ult(args[0], args[1]), const(0, args[0].w), t.sub(args[0], args[1])))
        if name.startswith("llvm.expect"):
            return R(args[0])
        if name.startswith("llvm.is.constant"):
            return R(FALSE)
        if name.startswith("llvm.abs"):
            a = args[0]
            return R(t.ite(t.slt(a, const(0, a.w)), t.neg(a), a))
        if name.startswith("llvm.ctpop"):
            a = args[0]
            return R(t.add_n([(1, t.zext(t.extract(a, i, i), a.w)) for i in range(a.w)], 0, a.w))
        if name.startswith("llvm.ctlz"):
            a = args[0]
            r = const(a.w, a.w)
            for i in range(a.w):
                r = t.ite(t.extract(a, i, i), const(a.w - 1 - i, a.w), r)
            return R(r)
        if name.startswith("llvm.cttz"):
            a = args[0]
            r = const(a.w, a.w)
            for i in range(a.w - 1, -1, -1):
                r = t.ite(t.extract(a, i, i), const(i, a.w), r)
            return R(r)
        if name.startswith("llvm.objectsize"):
            return R(const(-1, 64))
        if name == "llvm.x86.aesni.aesenc":
            return R(aesenc(*args))
        if name == "llvm.x86.aesni.aesenclast":
            return R(aesenclast(*args))
        if name == "llvm.x86.aesni.aeskeygenassist":
            return R(keygenassist(args[0], cv(args[1])))
        if name == "llvm.x86.pclmulqdq":
            im = cv(args[2])
            a = t.extract(args[0], 127, 64) if im & 1 else t.extract(args[0], 63, 0)
            b = t.extract(args[1], 127, 64) if im & 16 else t.extract(args[1], 63, 0)
            return R(clmul(a, b))
        m = re.match(r"llvm\.x86\.sse2\.(pslli|psrli)\.(d|q)$", name)
        if m:
            eb = 32 if m.group(2) == "d" else 64
            a, s = args
            s = cv(s)
            es = [t.extract(a, k * eb + eb - 1, k * eb) for k in range(128 // eb)]
            f = t.shl if m.group(1) == "pslli" else t.lshr
            return R(t.concat([f(e, const(s, eb)) for e in es][::-1]))
        if name == "llvm.trap":
            ex.prove(st, FALSE, "trap-reached", where)
            return []
        raise Unsupported("intrinsic " + name)
    if name in ("memcpy", "memmove"):
        ex.copy_range(st, args[0], args[1], args[2], where)
        return R(args[0])
    if name == "memset":
        ex.set_range(st, args[0], t.extract(args[1], 7, 0), args[2], where)
        return R(args[0])
    if name in ("memcmp", "bcmp"):
        n = fixed(st, args[2])
        if not isc(n):
            # the whole of an object of known size?
            for q in args[:2]:
                o = st.mem.get(q.a[0]) if q.op == "ptr" else None
                if o is not None and isc(o.size) and st.decide(t.eq(n, o.size)) is True:
                    n = o.size
                    break
        if isc(n) and cv(n) <= 512:
            r = const(0, 32)
            for i in range(cv(n) - 1, -1, -1):
                a = ex.load(st, t.add(args[0], const(i, 64)), 1, where)
                b = ex.load(st, t.add(args[1], const(i, 64)), 1, where)
                r = t.ite(t.eq(a, b), r, t.ite(t.ult(a, b), const(-1, 32), const(1, 32)))
            return R(r)
        raise Unsupported("memcmp with symbolic length")
    if name == "strlen":
        p = args[0]
        n = 0
        while True:
            b = ex.load(st, t.add(p, const(n, 64)), 1, where)
            if not isc(b):
                raise Unsupported("strlen of symbolic string")
            if cv(b) == 0:
                return R(const(n, 64))
            n += 1
    if name in ("_Znwm", "_Znam", "malloc"):
        p = ex.new_ptr(st, args[0], "heap", "heap")
        return R(p)
    if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free"):
        p = args[0]
        for c, oi, off in ex.split(st, p, where):
            if oi == 0:
                continue
            o = st.wobj(oi)
            if c is TRUE:
                if not o.alive:
                    ex.prove(st, FALSE, "double-free", where)
                o.alive = False
        return R(None)
    if name == "__cxa_allocate_exception":
        return R(ex.new_ptr(st, args[0], "exception", "heap"))
    if name == "__cxa_throw":
        ti = args[1]
        nm = st.mem[ti.a[0]].name if ti.op == "ptr" and ti.a[0] in st.mem else "?"
        return [Outcome("throw", st, nm)]
    if name in ("__cxa_free_exception",):
        return R(None)
    if name in ("_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__clang_call_terminate"):
        ex.prove(st, FALSE, "abort-reached", where)
        return []
    if "__glibcxx_assert_fail" in name:
        ex.prove(st, FALSE, "standard-library-assertion", where)
        return []
    if EXCEPT.match(name):
        ex.trusted.add("exception construction: " + name)
        return R(None)
    if THROWS.match(name):
        return [Outcome("throw", st, name)]
    if name == "__cxa_guard_acquire":
        return R(const(1, 32))
    if name == "__cxa_guard_release":
        b = const(1, 8)
        ex.store(st, args[0], b, 1, where)
        return R(None)
    if name in ("__cxa_atexit",):
        return R(const(0, 32))
    return None
