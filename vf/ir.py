"""LLVM IR (textual, LLVM 18, opaque pointers) reader.

Reads the output of `clang -emit-llvm` for the real source; nothing here knows
about Caligo.  Unsupported text raises IRError, never silently ignored.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "name")

    def __init__(self, k, n=0, e=None, name=None):
        self.k, self.n, self.e, self.name = k, n, e, name

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k in ("arr", "vec"):
            return "[%d x %r]" % (self.n, self.e)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.e))
        return self.k + (":" + self.name if self.name else "")


VOID, PTR, LABEL, META = Ty("void"), Ty("ptr"), Ty("label"), Ty("metadata")
_int = {}


def IntTy(n):
    if n not in _int:
        _int[n] = Ty("i", n)
    return _int[n]


TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w.$]+)
 | (?P<glo>@"(?:[^"\\]|\\.)*"|@[-\w.$]+)
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?0x[0-9A-Fa-f]+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_$.][-\w$.]*)
 | (?P<p>[()\[\]{}<>,=*:|^])
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in " \t\r\n":
            i += 1
            continue
        if c == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError("bad token at %r" % s[i:i + 40])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


class Global:
    __slots__ = ("name", "ty", "init", "const", "align")


class Inst:
    __slots__ = ("op", "res", "ty", "a", "flags", "text", "fn", "idx")

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ("name", "insts", "idx")


class Func:
    __slots__ = ("name", "ret", "params", "ptys", "blocks", "order", "decl", "text_len",
                 "loops", "attrs", "dem", "sret", "line")


# value operand representations:
#  ("loc", name) ("const", int, ty) ("glo", name) ("null",) ("undef", ty) ("zero", ty)
#  ("agg", [ (ty, val) ], ty) ("str", bytes) ("ce", op, ...)

PARAM_ATTRS = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext",
               "returned", "noalias", "inreg", "nest", "immarg", "nofree", "swiftself", "noreturn",
               "nounwind", "willreturn", "allocptr", "allocalign", "dead_on_unwind", "writable", "nofpclass",
               "unnamed_addr", "local_unnamed_addr", "dso_local", "hidden", "protected", "default", "weak",
               "linkonce_odr", "weak_odr", "internal", "private", "external", "common", "appending",
               "extern_weak", "linkonce", "available_externally", "tail", "musttail", "notail", "fastcc",
               "coldcc", "ccc", "thread_local", "allocsize"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype",
                   "byref", "preallocated", "inalloca", "memory", "captures", "range", "allockind"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def nxt(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, s):
        return self.i < len(self.t) and self.t[self.i][1] == s

    def acc(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise IRError("expected %r at %s" % (s, self.t[self.i:self.i + 8]))

    def done(self):
        return self.i >= len(self.t)

    def skip_paren(self):
        self.exp("(")
        d = 1
        while d:
            x = self.nxt()[1]
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def skip_attrs(self):
        while not self.done():
            k, v = self.peek()
            if v in PARAM_ATTRS or k == "attr":
                self.i += 1
                if v == "thread_local" and self.at("("):
                    self.skip_paren()
            elif v in PARAM_ATTRS_ARG:
                self.i += 1
                if self.at("("):
                    self.skip_paren()
                elif v == "align":
                    self.nxt()
            elif k == "str":
                self.i += 1
                if self.acc("="):
                    self.nxt()
            else:
                break

    def type(self):
        k, v = self.nxt()
        if k == "word":
            if re.fullmatch(r"i\d+", v):
                t = IntTy(int(v[1:]))
            elif v == "ptr":
                t = PTR
                if self.at("addrspace"):
                    self.nxt()
                    self.skip_paren()
            elif v == "void":
                t = VOID
            elif v in ("float", "double", "x86_fp80", "half"):
                t = Ty(v)
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v == "token":
                t = Ty("token")
            else:
                raise IRError("type? %s" % v)
        elif k == "loc":
            t = Ty("named", name=v)
        elif v == "[":
            n = int(self.nxt()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Ty("arr", n, e)
        elif v == "<":
            if self.at("{"):
                self.nxt()
                es = self._list("}")
                self.exp(">")
                t = Ty("struct", 1, es)
            else:
                n = int(self.nxt()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Ty("vec", n, e)
        elif v == "{":
            t = Ty("struct", 0, self._list("}"))
        else:
            raise IRError("type? %s" % v)
        if self.at("("):  # function type
            self.nxt()
            while not self.acc(")"):
                if not self.acc("..."):
                    self.type()
                self.acc(",")
            return Ty("fn", e=t)
        return t

    def _list(self, end):
        es = []
        if self.acc(end):
            return es
        while True:
            es.append(self.type())
            if self.acc(end):
                return es
            self.exp(",")

    def value(self, ty):
        k, v = self.nxt()
        if k == "loc":
            return ("loc", v)
        if k == "glo":
            return ("glo", unq(v))
        if k == "num":
            if ty.k in ("float", "double"):
                return ("fp", v)
            return ("const", int(v, 0), ty)
        if v == "true":
            return ("const", 1, ty)
        if v == "false":
            return ("const", 0, ty)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef", ty)
        if v == "zeroinitializer":
            return ("zero", ty)
        if k == "str":
            return ("str", cstr(v))
        if v in ("[", "{", "<"):
            if v == "<" and self.at("{"):
                self.nxt()
                end = "}"
                packed = True
            else:
                end = {"[": "]", "{": "}", "<": ">"}[v]
                packed = False
            es = []
            if not self.acc(end):
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if self.acc(end):
                        break
                    self.exp(",")
            if packed:
                self.exp(">")
            return ("agg", es, ty)
        if v == "getelementptr":
            while self.peek()[1] in ("inbounds", "nuw", "nusw", "inrange"):
                self.nxt()
                if self.at("("):
                    save = self.i
                    # inrange(a,b)
                    if self.t[self.i - 1][1] == "inrange":
                        self.skip_paren()
                    else:
                        self.i = save
                        break
            self.exp("(")
            bt = self.type()
            self.exp(",")
            ops = []
            while True:
                self.acc("inrange")
                t = self.type()
                ops.append((t, self.value(t)))
                if self.acc(")"):
                    break
                self.exp(",")
            return ("ce", "gep", bt, ops)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext"):
            self.exp("(")
            t = self.type()
            x = self.value(t)
            self.exp("to")
            t2 = self.type()
            self.exp(")")
            return ("ce", v, t, x, t2)
        if v in ("sub", "add", "xor", "mul"):
            while self.peek()[1] in ("nsw", "nuw"):
                self.nxt()
            self.exp("(")
            t = self.type()
            x = self.value(t)
            self.exp(",")
            t2 = self.type()
            y = self.value(t2)
            self.exp(")")
            return ("ce", v, t, x, y)
        raise IRError("value? %s %s" % (k, v))


def unq(v):
    """strip sigil + quotes from a global name"""
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


def cstr(v):
    b = v[2:-1] if v[0] == "c" else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == "\\":
            if b[i + 1] == "\\":
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(b[i]))
            i += 1
    return bytes(out)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fcmp", "fptosi", "fptoui", "sitofp", "uitofp", "fpext",
        "fptrunc"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self._parse(text)

    # ---- layout (x86-64 data layout)
    def resolve(self, t):
        while t.k == "named":
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "i":
            n = (t.n + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return min(p, 16)
        if t.k == "ptr" or t.k == "double":
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "arr":
            return self.align(t.e)
        if t.k == "vec":
            return self.size(t)
        if t.k == "struct":
            if t.n:
                return 1
            return max([self.align(e) for e in t.e] or [1])
        raise IRError("align %r" % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == "i":
            n = (t.n + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if t.k == "ptr" or t.k == "double":
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "arr":
            return t.n * self.size(t.e)
        if t.k == "vec":
            return (t.n * self.bits(t.e) + 7) // 8
        if t.k == "struct":
            o = self.offsets(t)
            return o[-1]
        raise IRError("size %r" % t)

    def bits(self, t):
        t = self.resolve(t)
        if t.k == "i":
            return t.n
        if t.k == "ptr":
            return 64
        if t.k == "vec":
            return t.n * self.bits(t.e)
        if t.k == "float":
            return 32
        if t.k == "double":
            return 64
        raise IRError("bits %r" % t)

    _off = None

    def offsets(self, t):
        t = self.resolve(t)
        if self._off is None:
            self._off = {}
        k = id(t)
        if k in self._off:
            return self._off[k][1]
        o, res, al = 0, [], 1
        for e in t.e:
            a = 1 if t.n else self.align(e)
            al = max(al, a)
            o = (o + a - 1) // a * a
            res.append(o)
            o += self.size(e)
        o = (o + al - 1) // al * al
        res.append(o)
        self._off[k] = (t, res)
        return res

    # ---- parsing
    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                nm, rhs = ln.split(" = type ", 1)
                if rhs.strip() == "opaque":
                    self.types[nm.strip()] = Ty("opaque")
                else:
                    self.types[nm.strip()] = P(tokenize(rhs), self).type()
            elif ln.startswith("@"):
                self._global(ln)
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j
            elif ln.startswith("declare"):
                self._func(ln, None)
            i += 1

    def _global(self, ln):
        toks = tokenize(ln)
        p = P(toks, self)
        name = unq(p.nxt()[1])
        p.exp("=")
        p.skip_attrs()
        if p.at("comdat"):
            p.nxt()
        external = any(t[1] in ("external", "extern_weak") for t in toks[:8])
        g = Global()
        g.name = name
        if p.at("alias"):
            p.nxt()
            t = p.type()
            p.exp(",")
            t = p.type()
            self.aliases[name] = p.value(t)
            return
        while p.peek()[1] in ("unnamed_addr", "local_unnamed_addr", "externally_initialized"):
            p.nxt()
        k = p.nxt()[1]
        if k not in ("global", "constant"):
            raise IRError("global? " + ln[:200])
        g.const = k == "constant"
        g.ty = p.type()
        g.init = None
        if not external:
            g.init = p.value(g.ty)
        g.align = 1
        self.globals[name] = g

    def _func(self, hdr, body):
        toks = tokenize(hdr)
        p = P(toks, self)
        p.nxt()
        p.skip_attrs()
        f = Func()
        f.ret = p.type()
        k, nm = p.nxt()
        if k != "glo":
            raise IRError("func hdr " + hdr[:100])
        f.name = unq(nm)
        f.dem = None
        p.exp("(")
        f.params, f.ptys = [], []
        f.sret = False
        n = 0
        while not p.acc(")"):
            if p.acc("..."):
                continue
            t = p.type()
            s0 = p.i
            p.skip_attrs()
            if any(x[1] == "sret" for x in toks[s0:p.i]) and n == 0:
                f.sret = True
            if p.peek()[0] == "loc":
                f.params.append(p.nxt()[1])
            else:
                f.params.append("%" + str(n))
            f.ptys.append(t)
            n += 1
            p.acc(",")
        f.decl = body is None
        f.blocks, f.order = {}, []
        f.loops = None
        f.line = hdr
        f.attrs = hdr
        if body is not None:
            self._body(f, body, n)
        old = self.funcs.get(f.name)
        if old is None or old.decl:
            self.funcs[f.name] = f

    def _body(self, f, lines, nparams):
        cur = Block()
        cur.name = "%" + str(nparams)
        cur.insts = []
        first = True
        i = 0
        L = []
        # join switch / multi-line constructs
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if s.startswith("switch ") and "]" not in s:
                while "]" not in lines[i]:
                    i += 1
                    ln += " " + lines[i].strip()
            elif s.startswith("%") and ("landingpad" in s) or s.startswith("invoke ") or " = invoke " in s:
                while i + 1 < len(lines) and re.match(r"\s+(cleanup|catch|filter|to label)", lines[i + 1]):
                    i += 1
                    ln += " " + lines[i].strip()
            L.append(ln)
            i += 1
        for ln in L:
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
            if m:
                if not (first and not cur.insts):
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                cur = Block()
                cur.name = "%" + m.group(1)
                cur.insts = []
                first = False
                continue
            ins = self._inst(ln)
            ins.fn = f
            cur.insts.append(ins)
            first = False
        f.blocks[cur.name] = cur
        f.order.append(cur.name)

    def _inst(self, ln):
        toks = tokenize(re.sub(r", ![\w.]+ !?[\w.]+", "", ln) if "!" in ln else ln)
        p = P(toks, self)
        I = Inst()
        I.text = ln.strip()
        I.res = None
        I.flags = ()
        I.ty = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            I.res = p.nxt()[1]
            p.nxt()
        while p.peek()[1] in ("tail", "musttail", "notail"):
            p.nxt()
        op = p.nxt()[1]
        I.op = op
        if op in BIN:
            fl = []
            while p.peek()[1] in ("nsw", "nuw", "exact", "disjoint"):
                fl.append(p.nxt()[1])
            I.flags = tuple(fl)
            I.ty = p.type()
            a = p.value(I.ty)
            p.exp(",")
            b = p.value(I.ty)
            I.a = (a, b)
        elif op == "icmp":
            pred = p.nxt()[1]
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            I.ty = t
            I.a = (pred, a, b)
        elif op in CAST:
            while p.peek()[1] in ("nneg", "nuw", "nsw"):
                p.nxt()
            t = p.type()
            a = p.value(t)
            p.exp("to")
            I.ty = p.type()
            I.a = (t, a)
        elif op == "alloca":
            t = p.type()
            n = ("const", 1, IntTy(32))
            if p.acc(","):
                if not p.at("align"):
                    nt = p.type()
                    n = p.value(nt)
            I.ty = t
            I.a = (n,)
        elif op == "load":
            if p.at("atomic"):
                p.nxt()
            p.acc("volatile")
            I.ty = p.type()
            p.exp(",")
            t = p.type()
            I.a = (p.value(t),)
        elif op == "store":
            if p.at("atomic"):
                p.nxt()
            p.acc("volatile")
            t = p.type()
            v = p.value(t)
            p.exp(",")
            t2 = p.type()
            q = p.value(t2)
            I.ty = t
            I.a = (v, q)
        elif op == "getelementptr":
            while p.peek()[1] in ("inbounds", "nuw", "nusw"):
                p.nxt()
            I.ty = p.type()
            ops = []
            while p.acc(","):
                t = p.type()
                ops.append((t, p.value(t)))
            I.a = ops
        elif op == "select":
            t0 = p.type()
            c = p.value(t0)
            p.exp(",")
            t = p.type()
            a = p.value(t)
            p.exp(",")
            t2 = p.type()
            b = p.value(t2)
            I.ty = t
            I.a = (c, a, b, t0)
        elif op == "phi":
            I.ty = p.type()
            ins = {}
            while True:
                p.exp("[")
                v = p.value(I.ty)
                p.exp(",")
                lb = p.nxt()[1]
                p.exp("]")
                ins[lb] = v
                if not p.acc(","):
                    break
            I.a = ins
        elif op == "br":
            if p.acc("label"):
                I.a = (None, p.nxt()[1])
            else:
                t = p.type()
                c = p.value(t)
                p.exp(",")
                p.exp("label")
                x = p.nxt()[1]
                p.exp(",")
                p.exp("label")
                y = p.nxt()[1]
                I.a = (c, x, y)
        elif op == "switch":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.exp("label")
            d = p.nxt()[1]
            p.exp("[")
            cs = []
            while not p.acc("]"):
                t2 = p.type()
                x = p.value(t2)
                p.exp(",")
                p.exp("label")
                cs.append((x[1], p.nxt()[1]))
            I.ty = t
            I.a = (v, d, cs)
        elif op == "ret":
            I.ty = p.type()
            I.a = () if I.ty.k == "void" else (p.value(I.ty),)
        elif op in ("call", "invoke"):
            while p.peek()[1] in ("fast", "nnan", "ninf", "nsz", "fastcc", "coldcc", "ccc"):
                p.nxt()
            p.skip_attrs()
            t = p.type()
            if t.k == "fn":
                t = t.e
            I.ty = t
            p.skip_attrs()
            k, v = p.peek()
            if v == "asm":
                I.a = (("asm",), [], None, None)
                return I
            if k == "glo":
                p.nxt()
                cal = ("glo", unq(v))
            else:
                cal = p.value(PTR)
            p.exp("(")
            args = []
            while not p.acc(")"):
                at = p.type()
                if at.k == "metadata":
                    d = 0
                    while not (d == 0 and p.peek()[1] in (",", ")")):
                        x = p.nxt()[1]
                        d += x in ("(",)
                        d -= x in (")",)
                    p.acc(",")
                    continue
                p.skip_attrs()
                args.append((at, p.value(at)))
                p.acc(",")
            nd = ud = None
            if op == "invoke":
                while not p.at("to"):
                    p.nxt()
                p.exp("to")
                p.exp("label")
                nd = p.nxt()[1]
                p.exp("unwind")
                p.exp("label")
                ud = p.nxt()[1]
            I.a = (cal, args, nd, ud)
        elif op == "extractvalue":
            t = p.type()
            v = p.value(t)
            ix = []
            while p.acc(","):
                ix.append(int(p.nxt()[1]))
            I.ty = t
            I.a = (v, ix)
        elif op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            t2 = p.type()
            x = p.value(t2)
            ix = []
            while p.acc(","):
                ix.append(int(p.nxt()[1]))
            I.ty = t
            I.a = (v, t2, x, ix)
        elif op == "extractelement":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            t2 = p.type()
            ix = p.value(t2)
            I.ty = t
            I.a = (v, ix, t2)
        elif op == "insertelement":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            t1 = p.type()
            x = p.value(t1)
            p.exp(",")
            t2 = p.type()
            ix = p.value(t2)
            I.ty = t
            I.a = (v, t1, x, ix, t2)
        elif op == "shufflevector":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            t1 = p.type()
            x = p.value(t1)
            p.exp(",")
            t2 = p.type()
            m = p.value(t2)
            I.ty = t
            I.a = (v, x, t2, m)
        elif op == "freeze":
            I.ty = p.type()
            I.a = (p.value(I.ty),)
        elif op in ("unreachable", "landingpad", "resume", "fence", "atomicrmw", "cmpxchg", "va_arg") or op in FBIN:
            I.a = ()
        else:
            raise IRError("inst? " + ln)
        return I


# ---------------------------------------------------------------- CFG
def succs(b):
    t = b.insts[-1]
    if t.op == "br":
        return [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
    if t.op == "switch":
        return [t.a[1]] + [x for _, x in t.a[2]]
    if t.op == "invoke":
        return [t.a[2], t.a[3]]
    return []


def loops(f):
    """natural loops: header -> (set of body blocks, set of latches)"""
    if f.loops is not None:
        return f.loops
    entry = f.order[0]
    # reverse postorder
    seen, order = set(), []
    st = [(entry, iter(succs(f.blocks[entry])))]
    seen.add(entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(f.blocks[s]))))
                break
        else:
            order.append(n)
            st.pop()
    rpo = order[::-1]
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b]):
            preds[s].append(b)
    dom = {b: None for b in rpo}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[q] for q in preds[b] if dom[q] is not None]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    res = {}
    for b in rpo:
        for s in succs(f.blocks[b]):
            if s in dom[b]:
                body, la = res.setdefault(s, (set([s]), set()))
                la.add(b)
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in body:
                        body.add(x)
                        stack.extend(preds[x])
    f.loops = res
    return res
