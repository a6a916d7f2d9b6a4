#!/usr/bin/env python3
"""cshim.py SRC OUT: fallback for headers that only compile as C.
OUT/inc/m4rie/*.h are SRC's headers with the bodies of static inline functions replaced by declarations (asm labels
pbt_shim_<name>), OUT/shim.c defines these on top of the real headers and is compiled as C."""
import sys, os, re, glob, shutil

def blank(s):
    """s with comments, strings and character constants blanked out (same length)"""
    def f(m): return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'", f, s, flags=re.S)

def match(b, i, o, c):
    d = 0
    while i < len(b):
        if b[i] == o: d += 1
        elif b[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    return -1

def split(a):
    out = []; d = 0; cur = ""
    for ch in a:
        if ch in "([": d += 1
        if ch in ")]": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    out.append(cur); return [x.strip() for x in out]

def argname(a):
    a = a.strip()
    m = re.search(r"\(\s*\*\s*(?:const\s+|restrict\s+)*(\w+)", a)
    if m: return m.group(1)
    a = re.sub(r"\[[^\]]*\]", "", a); m = re.search(r"(\w+)\s*$", a)
    return m.group(1) if m else None

def convert(s, shims):
    b = blank(s); out = ""; pos = 0
    for m in re.finditer(r"^(?:static\s+inline|inline\s+static|static\s+__inline__|static\s+__inline)\s+((?:const\s+)?(?:struct\s+|unsigned\s+)?\w+(?:\s+const)?[\s\*]+(?:const\s+)?)(\w+)\s*\(", b, re.M):
        if m.start() < pos: continue
        close = match(b, m.end() - 1, "(", ")")
        if close < 0: continue
        j = close + 1; attr = re.match(r"(?:\s|__attribute__\s*\(\([^;{]*?\)\))*", b[j:]).end(); k = j + attr
        args = re.sub(r"\s+", " ", b[m.end():close]).strip(); ret = re.sub(r"\s+", " ", m.group(1)).strip(); name = m.group(2)
        if "..." in args or k >= len(b) or b[k] not in ";{": continue
        cargs = re.sub(r"\bstatic\b(?=[^,]*\])", "", args)
        names = [] if args in ("", "void") else [argname(x) for x in split(args)]
        if b[k] == "{":
            end = match(b, k, "{", "}")
            if end < 0 or None in names: continue
            shims[name] = (ret, args, names)
        else: end = k
        body = s[m.start():end + 1]
        out += s[pos:m.start()] + "extern %s %s(%s) __asm__(\"pbt_shim_%s\");" % (ret, name, cargs, name) + "\n" * body.count("\n"); pos = end + 1
    return out + s[pos:]

def generate(src, out):
    inc = os.path.join(out, "inc", "m4rie"); shutil.rmtree(out, ignore_errors=True); os.makedirs(inc); shims = {}; files = []
    for h in sorted(glob.glob(src + "/**", recursive=True)):
        if not os.path.isfile(h): continue
        t = os.path.join(inc, os.path.relpath(h, src)); os.makedirs(os.path.dirname(t), exist_ok=True)
        if h.endswith(".h"): open(t, "w").write(convert(open(h).read(), shims)); files.append(os.path.relpath(h, src))
    with open(os.path.join(out, "shim.c"), "w") as f:
        f.write("#include <m4ri/m4ri.h>\n#include <m4rie/m4rie.h>\n" + "".join('#include <m4rie/%s>\n' % h for h in files if os.path.basename(h) in ("m4ri_functions.h", "gf2x.h", "mzd_ptr.h", "blm.h", "mzd_poly.h")))
        for n, (r, a, names) in sorted(shims.items()):
            f.write("%s pbt_shim_%s(%s) { %s%s(%s); }\n" % (r, n, a or "void", "" if r == "void" else "return ", n, ", ".join(names)))
    return len(shims)

if __name__ == "__main__": print(generate(sys.argv[1], sys.argv[2]), "functions")
