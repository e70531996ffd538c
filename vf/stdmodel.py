"""Assumed contracts of C++ standard library operations that own memory.

std::string and std::vector keep libstdc++'s real layout (pointer, size / begin, end, end-of-storage); their buffers are heap
objects whose extent is exactly the current size, so every access past the logical end is an out-of-bounds obligation.
Allocation failure is not modelled."""
import re
from . import terms as t
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Outcome, Unsupported

STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"


def string_view(ex, st, p):
    return ex.load(st, p, 8, "std::string"), ex.load(st, t.add(p, const(8, 64)), 8, "std::string")


def _strbuf(ex, st, p, dp, ln, where):
    """make the string own a model buffer; returns object id (offset 0)"""
    if dp.op == "ptr" and dp.a[0] and st.mem[dp.a[0]].meta == "strbuf":
        return dp.a[0]
    o = ex.new_obj(st, t.add(ln, const(1, 64)), "string-buffer", "heap")
    o.meta = "strbuf"
    np = t.ptr(o.id, const(0, 64))
    if not (isc(ln) and cv(ln) == 0):
        ex.copy_range(st, np, dp, ln, where)
    ex.store(st, p, np, 8, where)
    return o.id


def str_push_back(ex, st, name, args, where):
    p, c = args
    dp, ln = string_view(ex, st, p)
    oid = _strbuf(ex, st, p, dp, ln, where)
    o = st.wobj(oid)
    o.size = t.add(ln, const(2, 64))
    c = t.extract(c, 7, 0)
    if isc(ln):
        o.w_conc(cv(ln), [c, const(0, 8)])
    else:
        o.w_sym(ln, [c, const(0, 8)])
    ex.store(st, t.add(p, const(8, 64)), t.add(ln, const(1, 64)), 8, where)
    return [Outcome("ret", st, None)]


def cstr(ex, st, p, where):
    """bytes of a constant C string"""
    ps = ex.split(st, p, where)
    if len(ps) != 1 or not isc(ps[0][2]):
        raise Unsupported("C string")
    out = []
    q = t.ptr(ps[0][1], ps[0][2])
    while len(out) < 4096:
        b = ex.load(st, t.add(q, const(len(out), 64)), 1, where)
        if not isc(b):
            raise Unsupported("C string with unknown contents")
        if cv(b) == 0:
            return out
        out.append(b)
    raise Unsupported("C string")


def str_make(ex, st, p, pieces, where):
    """string object at p := concatenation of pieces (len term, list of bytes | reader fn(st, rel))"""
    n = const(0, 64)
    for ln, _ in pieces:
        n = t.add(n, ln)
    o = ex.new_obj(st, t.add(n, const(1, 64)), "string-buffer", "heap")
    o.meta = "strbuf"
    at = const(0, 64)
    for ln, c in pieces:
        if isinstance(c, list):
            if isc(at):
                o.w_conc(cv(at), c)
            else:
                o.w_sym(at, c)
        elif not (isc(ln) and cv(ln) == 0):
            o.w_range(at, ln, c)
        at = t.add(at, ln)
    if isc(n):
        o.w_conc(cv(n), [const(0, 8)])
    else:
        o.w_sym(n, [const(0, 8)])
    ex.store(st, p, t.ptr(o.id, const(0, 64)), 8, where)
    ex.store(st, t.add(p, const(8, 64)), n, 8, where)
    return o.id


def str_piece(ex, st, p, where):
    dp, n = string_view(ex, st, p)
    if isc(n) and cv(n) == 0:
        return (n, [])
    if dp.op != "ptr" or not dp.a[0]:
        raise Unsupported("string representation")
    st.owner = object()
    snap = st.mem[dp.a[0]]
    off = dp.a[1]
    return (n, lambda s_, i: snap.rd(s_, t.add(off, i)))


def str_from_cstr(ex, st, name, args, where):
    b = cstr(ex, st, args[1], where)
    str_make(ex, st, args[0], [(const(len(b), 64), b)], where)
    return [Outcome("ret", st, None)]


def str_from_str(ex, st, name, args, where):
    str_make(ex, st, args[0], [str_piece(ex, st, args[1], where)], where)
    return [Outcome("ret", st, None)]


def str_plus_cs(ex, st, name, args, where):
    b = cstr(ex, st, args[1], where)
    str_make(ex, st, args[0], [(const(len(b), 64), b), str_piece(ex, st, args[2], where)], where)
    return [Outcome("ret", st, None)]


def str_plus_sc(ex, st, name, args, where):
    b = cstr(ex, st, args[2], where)
    str_make(ex, st, args[0], [str_piece(ex, st, args[1], where), (const(len(b), 64), b)], where)
    return [Outcome("ret", st, None)]


def str_plus_ss(ex, st, name, args, where):
    str_make(ex, st, args[0], [str_piece(ex, st, args[1], where), str_piece(ex, st, args[2], where)], where)
    return [Outcome("ret", st, None)]


def str_append_s(ex, st, name, args, where):
    str_make(ex, st, args[0], [str_piece(ex, st, args[0], where), str_piece(ex, st, args[1], where)], where)
    return [Outcome("ret", st, args[0])]


def str_append_c(ex, st, name, args, where):
    b = cstr(ex, st, args[1], where)
    str_make(ex, st, args[0], [str_piece(ex, st, args[0], where), (const(len(b), 64), b)], where)
    return [Outcome("ret", st, args[0])]


def str_empty(ex, st, name, args, where):
    str_make(ex, st, args[0], [], where)
    return [Outcome("ret", st, None)]


def str_noop(ex, st, name, args, where):
    return [Outcome("ret", st, None)]


def str_append_nc(ex, st, name, args, where):
    if not isc(args[1]) or cv(args[1]) > 256:
        raise Unsupported("append(n, c)")
    for _ in range(cv(args[1])):
        str_push_back(ex, st, name, [args[0], args[2]], where)
    return [Outcome("ret", st, args[0])]


def str_plus_char(ex, st, name, args, where):
    str_push_back(ex, st, name, args[:2], where)
    return [Outcome("ret", st, args[0])]


RS = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"
CONTRACTS = [
    (r"^" + RS + r"::basic_string(<std::allocator<char> ?>)?\(char const\*, std::allocator<char> const&\)$", str_from_cstr),
    (r"^" + RS + r"::basic_string\(" + RS + r"( const&|&&)\)$", str_from_str),
    (r"^" + RS + r"::basic_string\(\)$", str_empty),
    (r"^" + RS + r"::~basic_string\(\)$", str_noop),
    (r"^" + RS + r"::reserve\(", str_noop),
    (r"^" + RS + r"::(append|operator\+=)\(" + RS + r" const&\)$", str_append_s),
    (r"^" + RS + r"::(append|operator\+=)\(char const\*\)$", str_append_c),
    (r"^" + RS + r" std::operator\+<char, .*>\(char const\*, " + RS + r"( const&|&&)\)$", str_plus_cs),
    (r"^" + RS + r" std::operator\+<char, .*>\(" + RS + r"( const&|&&), char const\*\)$", str_plus_sc),
    (r"^" + RS + r" std::operator\+<char, .*>\(" + RS + r"( const&|&&), " + RS + r"( const&|&&)\)$", str_plus_ss),
    (r"^" + STR + r"push_back\(char\)$", str_push_back),
    (r"^" + RS + r"::operator\+=\(char\)$", str_plus_char),
    (r"^" + RS + r"::append\(unsigned long, char\)$", str_append_nc),
]


def install(ex):
    for rx, h in CONTRACTS:
        r = re.compile(rx)

        def handler(ex, st, name, args, where, h=h, rx=rx):
            ex.trusted.add("assumed contract: " + ex.dem.get(name, name)[:140])
            return h(ex, st, name, args, where)
        ex.contracts.append(((lambda r: lambda n, d: bool(r.search(d)))(r), handler))


# ---------------------------------------------------------------- std::vector<unsigned char>
def vec(ex, st, p):
    """(begin, end, cap) pointers"""
    return tuple(ex.load(st, t.add(p, const(8 * k, 64)), 8, "std::vector") for k in range(3))


def vec_parts(ex, st, p):
    """(object id or 0, size) of a vector whose buffer starts at offset 0"""
    b, e, _ = vec(ex, st, p)
    if isc(b) and cv(b) == 0:
        return 0, const(0, 64)
    if b.op == "ptr" and b.a[0] == 0:
        return 0, const(0, 64)
    if b.op != "ptr" or e.op != "ptr" or b.a[0] != e.a[0]:
        raise Unsupported("vector representation")
    if not (isc(b.a[1]) and cv(b.a[1]) == 0):
        raise Unsupported("vector buffer offset")
    return b.a[0], e.a[1]


def vec_set(ex, st, p, oid, n, cap=None):
    bp = t.ptr(oid, const(0, 64))
    for k, v in enumerate((bp, t.add(bp, n), t.add(bp, n if cap is None else cap))):
        ex.store(st, t.add(p, const(8 * k, 64)), v, 8, "std::vector")


def _content(snap, off=None):
    """reader of a frozen object"""
    if off is None:
        return lambda s_, i: snap.rd(s_, i)
    return lambda s_, i: snap.rd(s_, t.add(off, i))


def _snapshot(st, oid):
    st.owner = object()
    return st.mem[oid]


def vec_replace(ex, st, p, n, pieces, where):
    """give vector p a fresh buffer of n bytes; pieces: [(start, len, fn(st, rel))]"""
    oid, _ = vec_parts(ex, st, p)
    if oid:
        st.wobj(oid).alive = False
    o = ex.new_obj(st, n, "vector-buffer", "heap")
    o.meta = "vecbuf"
    for start, ln, fn in pieces:
        if isc(ln) and cv(ln) == 0:
            continue
        if isc(ln) and isc(start) and cv(ln) <= 256:
            o.w_conc(cv(start), [fn(st, const(k, 64)) for k in range(cv(ln))])
        else:
            o.w_range(start, ln, fn)
    vec_set(ex, st, p, o.id, n)
    return o.id


def old_piece(ex, st, p):
    oid, n = vec_parts(ex, st, p)
    if not oid:
        return None, n
    return _snapshot(st, oid), n


def src_range(ex, st, first, last, where, name=""):
    """bytes [first, last): obligation that they are readable; -> (len, reader)"""
    if "reverse_iterator" in name:
        if "reverse_iteratorISt16reverse" in name or "reverse_iterator<std::reverse_iterator" in name:
            raise Unsupported("iterator range")
        hi, lo = (ex.load(st, x, 8, where) for x in (first, last))     # the iterators' bases
        n, fn = src_range(ex, st, lo, hi, where)
        return n, fn and (lambda s_, i: fn(s_, t.sub(t.sub(n, const(1, 64)), i)))
    if first.op != "ptr" or last.op != "ptr":
        if isc(first) and isc(last) and cv(first) == cv(last):
            return const(0, 64), None
        fs, ls = ex.split(st, first, where), ex.split(st, last, where)
        if len(fs) == 1 and len(ls) == 1:
            first, last = t.ptr(fs[0][1], fs[0][2]), t.ptr(ls[0][1], ls[0][2])
        else:
            raise Unsupported("iterator range")
    if first.a[0] != last.a[0]:
        ex.prove(st, FALSE, "iterator-range", where)
        return const(0, 64), None
    n = t.sub(last.a[1], first.a[1])
    if isc(n) and cv(n) == 0 or first.a[0] == 0:
        return const(0, 64), None
    ex.prove(st, t.ule(first.a[1], last.a[1]), "iterator-range", where)
    ex.access(st, st.mem[first.a[0]], first.a[1], n, where, cond=TRUE if isc(n) else t.bnot(t.eq(n, const(0, 64))))
    snap = _snapshot(st, first.a[0])
    return n, _content(snap, first.a[1])


def _ret(st, v=None):
    return [Outcome("ret", st, v)]


def vec_default_append(ex, st, name, args, where):
    p, k = args
    snap, n = old_piece(ex, st, p)
    pieces = [(const(0, 64), n, _content(snap))] if snap is not None else []
    tot = t.add(n, k)
    ex.prove(st, t.ule(k, tot), "length-error", where)
    pieces.append((n, k, lambda s_, i: const(0, 8)))
    vec_replace(ex, st, p, tot, pieces, where)
    return _ret(st)


def vec_range_insert(ex, st, name, args, where):
    p, pos, first, last = args[:4]
    snap, n = old_piece(ex, st, p)
    m, fn = src_range(ex, st, first, last, where, name)
    if fn is None:
        return _ret(st)
    if snap is None:
        vec_replace(ex, st, p, m, [(const(0, 64), m, fn)], where)
        return _ret(st)
    b = vec(ex, st, p)[0]
    at = t.sub(pos.a[1], b.a[1]) if pos.op == "ptr" and pos.a[0] == b.a[0] else None
    if at is None:
        raise Unsupported("insert position")
    ex.prove(st, t.ule(at, n), "insert-position", where)
    tail = t.sub(n, at)
    pieces = [(const(0, 64), at, _content(snap)), (at, m, fn)]
    if not (isc(tail) and cv(tail) == 0):
        pieces.append((t.add(at, m), tail, _content(snap, at)))
    vec_replace(ex, st, p, t.add(n, m), pieces, where)
    return _ret(st)


def vec_realloc_append(ex, st, name, args, where):
    """push_back when size == capacity; last argument points to the element"""
    p, v = args[0], args[-1]
    c = ex.load(st, v, 1, where)
    snap, n = old_piece(ex, st, p)
    if len(args) == 3:
        pos = args[1]
        b = vec(ex, st, p)[0]
        if snap is not None:
            ex.prove(st, t.eq(pos, t.add(b, n)), "insert-position", where)
    pieces = [(const(0, 64), n, _content(snap))] if snap is not None else []
    pieces.append((n, const(1, 64), lambda s_, i: c))
    vec_replace(ex, st, p, t.add(n, const(1, 64)), pieces, where)
    return _ret(st)


def vec_range_init(ex, st, name, args, where):
    p, first, last = args[:3]
    n, fn = src_range(ex, st, first, last, where, name)
    if fn is None:
        for k in range(3):
            ex.store(st, t.add(p, const(8 * k, 64)), const(0, 64), 8, where)
        return _ret(st)
    o = ex.new_obj(st, n, "vector-buffer", "heap")
    o.meta = "vecbuf"
    if isc(n) and cv(n) <= 256:
        o.w_conc(0, [fn(st, const(k, 64)) for k in range(cv(n))])
    else:
        o.w_range(const(0, 64), n, fn)
    vec_set(ex, st, p, o.id, n)
    return _ret(st)


def vec_assign(ex, st, name, args, where):
    p, first, last = args[:3]
    n, fn = src_range(ex, st, first, last, where, name)
    vec_replace(ex, st, p, n, [(const(0, 64), n, fn)] if fn else [], where)
    return _ret(st)


def vec_copy_assign(ex, st, name, args, where):
    p, q = args[:2]
    snap, n = old_piece(ex, st, q)
    if not (p is q):
        vec_replace(ex, st, p, n, [(const(0, 64), n, _content(snap))] if snap is not None else [], where)
    return _ret(st, p)


def vec_fill_init(ex, st, name, args, where):
    p, n = args[:2]
    c = ex.load(st, args[2], 1, where) if len(args) > 2 else const(0, 8)
    b = vec(ex, st, p)[0]
    # storage has been allocated by the base constructor
    if isc(n) and cv(n) == 0:
        return _ret(st)
    if b.op != "ptr" or not b.a[0]:
        raise Unsupported("fill-initialise without storage")
    o = st.wobj(b.a[0])
    if isc(n) and cv(n) <= 4096:
        o.w_conc(0, [c] * cv(n))
    else:
        o.w_range(const(0, 64), n, lambda s_, i: c)
    ex.store(st, t.add(p, const(8, 64)), t.add(b, n), 8, where)
    return _ret(st)


def vec_reserve(ex, st, name, args, where):
    p, k = args
    snap, n = old_piece(ex, st, p)
    big = st.decide(t.ult(n, k))
    if big is False:
        return _ret(st)
    outs = []
    if big is None:
        s0 = st.fork()
        s0.assume(t.ule(k, n))
        st.assume(t.ult(n, k))
        if s0.feasible():
            outs += _ret(s0)
    oid = vec_replace(ex, st, p, k, [(const(0, 64), n, _content(snap))] if snap is not None else [], where)
    vec_set(ex, st, p, oid, n, k)
    return outs + _ret(st)


VEC = r"std::vector<(unsigned )?char, std::allocator<(unsigned )?char> ?>::"
CONTRACTS += [
    (r"(^|[ ])" + VEC + r"_M_default_append\(", vec_default_append),
    (r"(^|[ ])" + VEC + r"_M_range_insert<", vec_range_insert),
    (r"(^|[ ])" + VEC + r"_M_realloc_(insert|append)<", vec_realloc_append),
    (r"(^|[ ])" + VEC + r"_M_range_initialize<", vec_range_init),
    (r"(^|[ ])" + VEC + r"_M_assign_aux<", vec_assign),
    (r"(^|[ ])" + VEC + r"operator=\(std::vector<", vec_copy_assign),
    (r"(^|[ ])" + VEC + r"_M_(fill|default)_initialize\(", vec_fill_init),
    (r"(^|[ ])" + VEC + r"reserve\(", vec_reserve),
]
