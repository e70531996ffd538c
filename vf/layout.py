"""Record layouts of the real classes, from clang."""
import re
import subprocess
from . import build


def layouts(src, workdir, extra=()):
    cmd = [build.CXX, "-fsyntax-only", "-Xclang", "-fdump-record-layouts", "-fno-access-control", "-I", workdir + "/inc"] + \
        build.cflags(False, extra) + [src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise build.BuildError(p.stderr[-3000:])
    out = {}
    cur = None
    for ln in p.stdout.split("\n"):
        m = re.match(r"^\s*0 \| (struct|class|union) (.*?)( \(empty\))?$", ln)
        if m and cur is None:
            cur = (m.group(2).strip(), [])
            continue
        if cur is not None:
            m = re.match(r"^\s*(\d+) \|(\s+)(.*)$", ln)
            if m:
                cur[1].append((int(m.group(1)), len(m.group(2)), m.group(3)))
                continue
            m = re.match(r"^\s*\| \[sizeof=(\d+)", ln)
            if m:
                out.setdefault(cur[0], (int(m.group(1)), cur[1]))
                cur = None
    return out


def fields(lay, cls):
    """leaf-ish fields [(offset, type, name)] at any base-class depth"""
    size, rows = lay[cls]
    res = []
    for off, ind, txt in rows:
        if re.search(r"\((base|primary base|empty)\)", txt):
            continue
        m = re.match(r"^(.*?)\s*(\w+)$", txt.strip())
        if m:
            res.append((off, m.group(1).strip(), m.group(2), ind))
    return size, res
