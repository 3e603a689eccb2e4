"""Facts about the C sources: build units, macros, record layouts, prototypes, bitcode.

Everything is taken from /repo's current tree with clang-18; the list of
translation units is read from the CMake file the real build uses.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = os.path.join(REPO, "src", "cxx")
LLVM = "/usr/lib/llvm-18/bin/"
CLANG = LLVM + "clang"
FLAGS = ["-I" + CXX, "-DNDEBUG", "-w"]


class CError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise CError("%s failed: %s" % (" ".join(cmd[:3]), p.stderr[-2000:]))
    return p.stdout


def units():
    t = open(os.path.join(CXX, "CMakeLists.txt")).read()
    t = re.sub(r"#[^\n]*", "", t)
    out = []
    for m in re.finditer(r"(?:list\s*\(\s*APPEND|set\s*\()\s*sccd_sources\s+([^)]*)\)", t):
        out += re.findall(r'"?([\w./-]+\.c)"?', m.group(1))
    if not out:
        raise CError("no sccd_sources in CMakeLists.txt")
    return [os.path.join(CXX, u) for u in dict.fromkeys(out)]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vpyc.")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def macros(headers):
    """{name: numeric value} as the preprocessor leaves them after including headers"""
    with Scratch() as d:
        p = os.path.join(d, "m.c")
        open(p, "w").write("".join('#include "%s"\n' % h for h in headers))
        txt = run([CLANG] + FLAGS + ["-E", "-dM", p])
    raw = {}
    for l in txt.splitlines():
        m = re.match(r"#define (\w+) (.+)$", l)
        if m:
            raw[m.group(1)] = m.group(2)
    return raw


def macro_value(raw, name, seen=()):
    if name not in raw or name in seen:
        return None
    e = raw[name]
    e = re.sub(r"\b[A-Za-z_]\w*\b(?!\s*\()", lambda m: repr(macro_value(raw, m.group(0), seen + (name,))) if m.group(0) in raw else m.group(0), e)
    e = re.sub(r"(\d)[uUlLfF]+\b", r"\1", e)
    try:
        return eval(e, {"__builtins__": {}}, {})
    except Exception:
        return None


def record_layouts(header, names):
    """{struct: (size, align, [(field, ctype, dims, offset)])}"""
    with Scratch() as d:
        p = os.path.join(d, "l.c")
        src = '#include "%s"\n' % header
        for n in names:
            src += "struct VP_%s { %s m; }; struct VP_%s vp_%s;\n" % (n, n, n, n)
        open(p, "w").write(src)
        txt = run([CLANG] + FLAGS + ["-fsyntax-only", "-Xclang", "-fdump-record-layouts-complete", p])
    out = {}
    for blk in txt.split("*** Dumping AST Record Layout"):
        m = re.search(r"\|\s*struct VP_(\w+)\s*$", blk, re.M)
        if not m:
            continue
        name = m.group(1)
        sz = re.search(r"\[sizeof=(\d+), align=(\d+)\]", blk)
        fl = []
        for l in blk.splitlines():
            fm = re.match(r"\s*([\d:-]+) \|     (.+) (\w+)$", l)
            if fm:
                ty = fm.group(2)
                dims = [int(x) for x in re.findall(r"\[(\d+)\]", ty)]
                fl.append((fm.group(3), ty.split("[")[0].strip(), dims, int(fm.group(1).split(":")[0])))
        out[name] = (int(sz.group(1)), int(sz.group(2)), fl)
    return out


def prototypes(header, names):
    """{fn: [(ctype, argname)]} as declared in the header"""
    out = {}
    with Scratch() as d:
        p = os.path.join(d, "p.c")
        open(p, "w").write('#include "%s"\n' % header)
        for n in names:
            txt = run([CLANG] + FLAGS + ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + n, p])
            dec = json.JSONDecoder()
            i = 0
            while True:
                j = txt.find("{", i)
                if j < 0:
                    break
                obj, k = dec.raw_decode(txt[j:])
                i = j + k
                if obj.get("kind") == "FunctionDecl" and obj.get("name") == n:
                    out[n] = [(a["type"]["qualType"], a.get("name", "")) for a in obj.get("inner", []) if a["kind"] == "ParmVarDecl"]
    return out


def bitcode(outdir, passes=None, opt="-O0"):
    """compile every unit to bitcode and link; returns path"""
    from concurrent.futures import ThreadPoolExecutor
    us = units()

    def one(u):
        o = os.path.join(outdir, os.path.basename(u) + ".bc")
        run([CLANG, "-c", "-emit-llvm", opt, "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
             "-fno-builtin-printf"] + FLAGS + [u, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, us))
    allbc = os.path.join(outdir, "all.bc")
    run([LLVM + "llvm-link"] + bcs + ["-o", allbc])
    if passes:
        o = os.path.join(outdir, "opt.bc")
        run([LLVM + "opt", "-passes=" + passes, allbc, "-o", o])
        return o
    return allbc


def param_effects(fns):
    """{fn: [set(attributes)]} of pointer parameters after interprocedural attribute inference"""
    with Scratch() as d:
        o = bitcode(d)
        txt = run([LLVM + "opt", "-passes=function(sroa,early-cse),cgscc(function-attrs)", "-S", o])
    out = {}
    for m in re.finditer(r"^define [^@\n]*@([\w.]+)\((.*)\)[^\n()]*\{$", txt, re.M):
        if m.group(1) in fns:
            out[m.group(1)] = [set(a.split()) for a in m.group(2).split(", ")] if m.group(2) else []
    return out
