"""Extraction: compile a harness that includes /repo's current sources to LLVM IR."""
import hashlib
import os
import re
import subprocess
import tempfile
from . import ir

REPO = os.environ.get("CALIGO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "clang++-18"
OPT = "opt-18"
INC = ["cstring", "algorithm", "memory", "variant", "filesystem", "stdexcept", "functional"]


class BuildError(Exception):
    pass


PASSES = "always-inline,sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse<memssa>,simplifycfg,instsimplify"


def cflags(model_stl=False, extra=()):
    fl = ["-std=gnu++20", "-maes", "-mpclmul", "-w"]
    if model_stl:
        fl += ["-isystem", os.path.join(VERIF, "stl")]
    fl += ["-I", REPO + "/include", "-I", os.path.join(VERIF, "harness"), "-DREPO_SRC(x)=<caligo_src/x>"]
    for i in INC:
        fl += ["-include", i]
    fl += list(extra)
    return fl


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p.stdout


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))


# standard library functions that manage memory: kept as calls, their contracts are in stdmodel.py
KEEP = [r"std::vector<(unsigned )?char, std::allocator<(unsigned )?char> ?>::(_M_default_append|_M_range_insert|_M_realloc_insert|_M_realloc_append|"
        r"_M_range_initialize|_M_assign_aux|_M_fill_insert|_M_insert_aux|_M_insert_rval|_M_fill_assign|_M_fill_initialize|_M_default_initialize|reserve|operator=\(std::vector<.*const&\))"]


# std::string operations with contracts in stdmodel.py (kept as calls where a harness asks for it)
KEEPSTR = [r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::(~?basic_string|append|reserve|operator=|operator\+=|push_back|substr|assign)\b",
           r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > std::operator\+<char"]


def extract(src, workdir, model_stl=False, extra=(), inline=None, noinline=(), passes=PASSES):
    """-> (Module, demangled-name map). `inline(dem)`: which functions LLVM merges into their callers
    before verification (standard library glue only by default)."""
    base = os.path.join(workdir, re.sub(r"\W", "_", os.path.basename(src)))
    link = os.path.join(workdir, "inc")
    os.makedirs(link, exist_ok=True)
    if not os.path.islink(link + "/caligo_src"):
        try:
            os.symlink(REPO + "/src", link + "/caligo_src")
        except FileExistsError:
            pass
    ll = base + ".ll"
    run([CXX, "-O1", "-Xclang", "-disable-llvm-passes", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS",
         "-S", "-emit-llvm", "-I", link] + cflags(model_stl, extra) + [src, "-o", ll])
    text = open(ll).read()
    names = re.findall(r'^define [^@]*@("[^"]+"|[-\w.$]+)\(', text, re.M)
    dm = demangle([n.strip('"') for n in names])
    if inline is None:
        inline = lambda d: False
    STD = re.compile(r"^_Z(TK?)?N?K?(R|O)?(St|S[absiod]|9__gnu_cxx)|^_Z(nwmPv|naPv|nwPv|dlPvS_)|^_?_?_mm_")
    out = []
    never = {m.group(1) for m in re.finditer(r"^attributes (#\d+) = \{.*\bnoinline\b", text, re.M)}
    for line in text.split("\n"):
        if line.startswith("define") and not any(a in never for a in re.findall(r"#\d+", line)):
            m = re.search(r'@("[^"]+"|[-\w.$]+)\(', line)
            n = m.group(1).strip('"')
            d = dm.get(n, n)
            if (inline(d) or STD.match(n) or re.match(r'_mm_', d)) and not any(re.search(x, d) for x in list(noinline) + KEEP):
                line = re.sub(r" (#\d+)(?=[^#]*\{$)", r" alwaysinline \1", line, count=1)
        out.append(line)
    ll2 = base + ".inl.ll"
    open(ll2, "w").write("\n".join(out))
    ll3 = base + ".opt.ll"
    run([OPT, "-passes=" + passes, "-S", ll2, "-o", ll3])
    text = open(ll3).read()
    mod = ir.Module(text)
    return mod, demangle_all(mod)


def demangle_all(mod):
    names = list(mod.funcs)
    return demangle(names)


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()
