"""LLVM IR of the native detectors as Python objects (through the LLVM-18 C API).

Module(keep=...) compiles every unit of the real build, links them, runs a fixed
canonicalising pass list (SROA, constant simplification, forced inlining of the
project's own non-recursive helpers on request) and exposes functions, blocks and
instructions.  Nothing is executed.
"""
import ctypes as C
import os
import re
import cfacts

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
_P = C.c_void_p
_S = C.c_char_p
_U = C.c_uint


def _f(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


_ctx = _f("LLVMContextCreate", _P)()
_membuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, _S, C.POINTER(_P), C.POINTER(_S))
_parse = _f("LLVMParseBitcodeInContext2", C.c_int, _P, _P, C.POINTER(_P))
_first_fn = _f("LLVMGetFirstFunction", _P, _P)
_next_fn = _f("LLVMGetNextFunction", _P, _P)
_isdecl = _f("LLVMIsDeclaration", C.c_int, _P)
_name2 = _f("LLVMGetValueName2", _P, _P, C.POINTER(C.c_size_t))
_nparams = _f("LLVMCountParams", _U, _P)
_param = _f("LLVMGetParam", _P, _P, _U)
_first_bb = _f("LLVMGetFirstBasicBlock", _P, _P)
_next_bb = _f("LLVMGetNextBasicBlock", _P, _P)
_bb_val = _f("LLVMBasicBlockAsValue", _P, _P)
_val_bb = _f("LLVMValueAsBasicBlock", _P, _P)
_first_i = _f("LLVMGetFirstInstruction", _P, _P)
_next_i = _f("LLVMGetNextInstruction", _P, _P)
_opc = _f("LLVMGetInstructionOpcode", C.c_int, _P)
_nops = _f("LLVMGetNumOperands", C.c_int, _P)
_op = _f("LLVMGetOperand", _P, _P, _U)
_typeof = _f("LLVMTypeOf", _P, _P)
_icmp = _f("LLVMGetICmpPredicate", C.c_int, _P)
_fcmp = _f("LLVMGetFCmpPredicate", C.c_int, _P)
_vkind = _f("LLVMGetValueKind", C.c_int, _P)
_zext = _f("LLVMConstIntGetSExtValue", C.c_longlong, _P)
_dbl = _f("LLVMConstRealGetDouble", C.c_double, _P, C.POINTER(C.c_int))
_nin = _f("LLVMCountIncoming", _U, _P)
_inv = _f("LLVMGetIncomingValue", _P, _P, _U)
_inb = _f("LLVMGetIncomingBlock", _P, _P, _U)
_callee = _f("LLVMGetCalledValue", _P, _P)
_gepty = _f("LLVMGetGEPSourceElementType", _P, _P)
_allocty = _f("LLVMGetAllocatedType", _P, _P)
_tkind = _f("LLVMGetTypeKind", C.c_int, _P)
_width = _f("LLVMGetIntTypeWidth", _U, _P)
_prtype = _f("LLVMPrintTypeToString", _P, _P)
_dispose = _f("LLVMDisposeMessage", None, _P)
_abisize = _f("LLVMABISizeOfType", C.c_ulonglong, _P, _P)
_offs = _f("LLVMOffsetOfElement", C.c_ulonglong, _P, _P, _U)
_dl = _f("LLVMGetModuleDataLayout", _P, _P)
_elt = _f("LLVMGetElementType", _P, _P)
_structelt = _f("LLVMStructGetTypeAtIndex", _P, _P, _U)
_dbgline = _f("LLVMGetDebugLocLine", _U, _P)
_dbgfile = _f("LLVMGetDebugLocFilename", _P, _P, C.POINTER(_U))
_first_g = _f("LLVMGetFirstGlobal", _P, _P)
_next_g = _f("LLVMGetNextGlobal", _P, _P)
_isconst = _f("LLVMIsGlobalConstant", C.c_int, _P)
_ginit = _f("LLVMGetInitializer", _P, _P)
_cexop = _f("LLVMGetConstOpcode", C.c_int, _P)
_aggel = _f("LLVMGetAggregateElement", _P, _P, _U)
_gvt = _f("LLVMGlobalGetValueType", _P, _P)
_arrlen = _f("LLVMGetArrayLength2", C.c_ulonglong, _P)

_isstr = _f("LLVMIsConstantString", C.c_int, _P)
_asstr = _f("LLVMGetAsString", _P, _P, C.POINTER(C.c_size_t))

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg",
       57: "atomicrmw", 60: "addrspacecast", 66: "fneg", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
NEG = {"eq": "ne", "ne": "eq", "sgt": "sle", "sle": "sgt", "slt": "sge", "sge": "slt", "ugt": "ule", "ule": "ugt", "ult": "uge", "uge": "ult"}
SWAP = {"eq": "eq", "ne": "ne", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge"}


class V:
    """a value: constant, argument, global, function or instruction"""
    __slots__ = ("k", "ty", "v", "name", "fn", "_id")

    def __init__(self, k, ty, v=None, name="", fn=None):
        self.k, self.ty, self.v, self.name, self.fn = k, ty, v, name, fn

    def __repr__(self):
        return "%s:%s" % (self.k, self.name or self.v)


class Ins(V):
    __slots__ = ("op", "ops", "bb", "line", "file", "pred", "sty", "callee", "blocks", "idx", "users")

    def where(self):
        return "%s:%d" % (self.file, self.line)

    def __repr__(self):
        return "%%%s=%s@%d" % (self.name, self.op, self.line)


class BB:
    __slots__ = ("name", "ins", "succs", "preds", "fn", "no")

    def __repr__(self):
        return "bb:" + self.name

    @property
    def term(self):
        return self.ins[-1]


class Fn:
    def __init__(self, name):
        self.name = name
        self.args = []
        self.bbs = []
        self.decl = False

    def instrs(self):
        for b in self.bbs:
            yield from b.ins

    def __repr__(self):
        return "fn:" + self.name


def _str(p):
    if not p:
        return ""
    s = C.string_at(p).decode()
    return s


class Module:
    INLINE_SKIP = ()

    def __init__(self, roots=None, inline=False, keep=(), passes=None, opt="-O0", flags=(), files=None, mark=False, noalias=False):
        """mark: turn unassigned values into results of opaque calls (see marked()); roots: functions to keep as entry points; inline: force-inline own non-recursive functions not in keep"""
        with cfacts.Scratch() as d:
            p = self._build(d, roots, inline, keep, passes, opt, flags, files, mark, noalias)
            self._load(p)

    def _build(self, d, roots, inline, keep, passes, opt, flags, files, mark, noalias):
        allbc = cfacts.bitcode(d, opt=opt)
        LL = os.path.join(d, "all.ll")
        if inline:
            cfacts.run([cfacts.LLVM + "opt", "-S", "-passes=function(sroa)", allbc, "-o", LL])
            txt = open(LL).read()
            defs = re.findall(r"^define [^@\n]*@([\w.]+)\(", txt, re.M)
            calls = {}
            for m in re.finditer(r"^define [^@\n]*@([\w.]+)\(.*?^\}", txt, re.M | re.S):
                calls[m.group(1)] = set(re.findall(r"call [^@\n]*@([\w.]+)\(", m.group(0)))
            rec = {f for f in defs if self._reach(calls, f)}
            sub = dict(re.findall(r"^(![0-9]+) = distinct !DISubprogram\(.*?file: (![0-9]+)", txt, re.M))
            fil = dict(re.findall(r'^(![0-9]+) = !DIFile\(filename: "([^"]*)"', txt, re.M))
            origin = {f: os.path.basename(fil.get(sub.get(s, ""), "")) for f, s in re.findall(r"^define [^@\n]*@([\w.]+)\([^\n]* !dbg (![0-9]+)", txt, re.M)}
            out = []
            for l in txt.splitlines():
                m = re.match(r"define [^@\n]*@([\w.]+)\(", l)
                if m and m.group(1) not in rec and m.group(1) not in keep and m.group(1) not in (roots or ()) and (files is None or origin.get(m.group(1)) in files):
                    l = re.sub(r"(\) (?:local_unnamed_addr )?)(#\d+|\!dbg)", r"\1alwaysinline \2", l, count=1)
                out.append(l)
            txt = "\n".join(out)
            txt = re.sub(r"^(attributes #\d+ = \{.*?)\bnoinline\b", r"\1", txt, flags=re.M)
            if mark:                # inlining folds what it knows to be unassigned
                txt = self.marked(txt)
            open(LL, "w").write(txt)
            allbc = LL
        ps = passes or "function(sroa)"
        if mark:
            LL = os.path.join(d, "marked.ll")
            pre = "always-inline,function(sroa)" if inline else "function(sroa)"
            cmd = [cfacts.LLVM + "opt", "-S", "-passes=" + ("internalize,globaldce," + pre + ",globaldce" if roots else pre), allbc, "-o", LL]
            if roots:
                cmd.append("-internalize-public-api-list=" + ",".join(roots))
            cfacts.run(cmd)
            txt = self.marked(open(LL).read(), "vp.w")
            if noalias:             # the wrappers hand every entry point distinct buffers
                def na(mm):
                    return mm.group(1) + re.sub(r"\bptr (?!noalias)", "ptr noalias ", mm.group(2))
                txt = re.sub(r"^(define [^@\n]*@(?:%s)\()([^\n]*?\))(?=[^)\n]*\{$)" % "|".join(roots), na, txt, flags=re.M)
            open(LL, "w").write(txt)
            allbc = LL
        if inline and not mark:
            ps = "always-inline," + ps
        if roots:
            ps = "internalize,globaldce," + ps + ",globaldce"
        o = os.path.join(d, "o.bc")
        cmd = [cfacts.LLVM + "opt", "-passes=" + ps, allbc, "-o", o]
        cmd += list(flags)
        if roots:
            cmd.append("-internalize-public-api-list=" + ",".join(roots))
        cfacts.run(cmd)
        return o

    @staticmethod
    def marked(txt, pre="vp.u"):
        """unassigned locals (undef operands) become calls of @vp.unset.<type>, so later passes keep them"""
        tys, out, need = set(), [], None
        names = {"ptr": "ptr", "i1": "i1", "i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "float": "float", "double": "double"}

        for l in txt.splitlines():
            if l.startswith("define "):
                need = (len(out), {})
                out.append(l)
                continue
            if need is not None and l == "}":
                k, use = need
                if use:
                    # the calls go to the top of the entry block
                    j = k + 1
                    while re.match(r"^[\w.$-]+:", out[j]) or not out[j].strip():
                        j += 1
                    out.insert(j, "\n".join("  %%%s.%s = call %s @vp.unset.%s()" % (pre, t, t, t) for t in sorted(use)))
                need = None
                out.append(l)
                continue
            if need is not None and "undef" in l and "@llvm.dbg" not in l and "insertvalue" not in l:
                m = re.match(r"(\s+(?:%[\w.$-]+ = )?phi (\w+) )(.*)", l)
                if m and m.group(2) in names:
                    n = re.sub(r"\[ undef,", "[ %%%s.%s," % (pre, m.group(2)), m.group(3))
                    if n != m.group(3):
                        need[1][m.group(2)] = 1
                        tys.add(m.group(2))
                    l = m.group(1) + n
                else:
                    def rep(mm):
                        need[1][mm.group(1)] = 1
                        tys.add(mm.group(1))
                        return "%s %%%s.%s" % (mm.group(1), pre, mm.group(1))
                    l = re.sub(r"\b(ptr|i1|i8|i16|i32|i64|float|double) undef\b", rep, l)
                    m = re.match(r"(.* (ptr|i1|i8|i16|i32|i64|float|double) [^, ]+, )undef\b(.*)", l)
                    if m:
                        need[1][m.group(2)] = 1
                        tys.add(m.group(2))
                        l = "%s%%%s.%s%s" % (m.group(1), pre, m.group(2), m.group(3))
            out.append(l)
        return "\n".join(out + ["declare %s @vp.unset.%s()" % (t, t) for t in sorted(tys) if "declare %s @vp.unset.%s()" % (t, t) not in txt]) + "\n"

    @staticmethod
    def _reach(calls, f):
        seen, st = set(), list(calls.get(f, ()))
        while st:
            g = st.pop()
            if g == f:
                return True
            if g not in seen:
                seen.add(g)
                st += list(calls.get(g, ()))
        return False

    # ------------------------------------------------------------- loading
    def _load(self, path):
        mb = _P()
        msg = _S()
        if _membuf(path.encode(), C.byref(mb), C.byref(msg)):
            raise cfacts.CError("cannot read bitcode")
        m = _P()
        if _parse(_ctx, mb, C.byref(m)):
            raise cfacts.CError("cannot parse bitcode")
        self.m = m
        self.dl = _dl(m)
        self.vals = {}
        self.tnames = {}
        self.fns = {}
        self.globals = {}
        g = _first_g(m)
        while g:
            v = V("global", "ptr", None, self._nm(g))
            v.v = {"const": bool(_isconst(g)), "ptr": g, "ty": _gvt(g)}
            self.vals[g] = v
            self.globals[v.name] = v
            g = _next_g(g)
        f = _first_fn(m)
        raw = []
        while f:
            fn = Fn(self._nm(f))
            fn.decl = bool(_isdecl(f))
            fv = V("fn", "ptr", fn, fn.name)
            self.vals[f] = fv
            self.fns[fn.name] = fn
            for i in range(_nparams(f)):
                p = _param(f, i)
                a = V("arg", self.ty(_typeof(p)), i, self._nm(p), fn)
                self.vals[p] = a
                fn.args.append(a)
            raw.append((f, fn))
            f = _next_fn(f)
        for f, fn in raw:
            if not fn.decl:
                self._body(f, fn)

    def _nm(self, p):
        n = C.c_size_t()
        r = _name2(p, C.byref(n))
        return C.string_at(r, n.value).decode() if r and n.value else ""

    def ty(self, t):
        if t not in self.tnames:
            p = _prtype(t)
            self.tnames[t] = C.string_at(p).decode()
            _dispose(p)
        return self.tnames[t]

    def _body(self, f, fn):
        bbmap = {}
        b = _first_bb(f)
        seq = []
        while b:
            bb = BB()
            bb.name = self._nm(_bb_val(b))
            bb.ins, bb.succs, bb.preds, bb.fn = [], [], [], fn
            bb.no = len(fn.bbs)
            bbmap[b] = bb
            fn.bbs.append(bb)
            seq.append((b, bb))
            b = _next_bb(b)
        irs = []
        for b, bb in seq:
            i = _first_i(b)
            while i:
                x = Ins("ins", self.ty(_typeof(i)), None, self._nm(i), fn)
                x.op = OPC.get(_opc(i), "op%d" % _opc(i))
                x.bb = bb
                n = _U()
                x.line = _dbgline(i)
                fp = _dbgfile(i, C.byref(n))
                x.file = os.path.relpath(C.string_at(fp, n.value).decode(), cfacts.REPO) if fp and n.value else ""
                x.idx = len(bb.ins)
                x.users = []
                x.pred = x.sty = x.callee = x.blocks = None
                self.vals[i] = x
                bb.ins.append(x)
                irs.append((i, x))
                i = _next_i(i)
        line = 0
        for i, x in irs:
            if x.op == "phi":
                n = _nin(i)
                x.ops = [self._val(_inv(i, k)) for k in range(n)]
                x.blocks = [bbmap[_inb(i, k)] for k in range(n)]
            elif x.op == "br":
                n = _nops(i)
                if n == 1:
                    x.ops = []
                    x.blocks = [bbmap[_val_bb(_op(i, 0))]]
                else:                                       # operands are (cond, false, true)
                    x.ops = [self._val(_op(i, 0))]
                    x.blocks = [bbmap[_val_bb(_op(i, 2))], bbmap[_val_bb(_op(i, 1))]]
                x.bb.succs = list(x.blocks)
            elif x.op == "switch":
                n = _nops(i)
                x.ops = [self._val(_op(i, 0))] + [self._val(_op(i, k)) for k in range(2, n, 2)]
                x.blocks = [bbmap[_val_bb(_op(i, 1))]] + [bbmap[_val_bb(_op(i, k))] for k in range(3, n, 2)]
                x.bb.succs = list(dict.fromkeys(x.blocks))
            elif x.op == "call":
                x.ops = [self._val(_op(i, k)) for k in range(_nops(i) - 1)]
                cv = self._val(_callee(i))
                x.callee = cv
            else:
                x.ops = [self._val(_op(i, k)) for k in range(_nops(i))]
                if x.op == "icmp":
                    x.pred = ICMP[_icmp(i)]
                elif x.op == "fcmp":
                    x.pred = FCMP[_fcmp(i)]
                elif x.op == "gep":
                    x.sty = _gepty(i)
                elif x.op == "alloca":
                    x.sty = _allocty(i)
        for bb in fn.bbs:
            for s in bb.succs:
                s.preds.append(bb)
            for x in bb.ins:
                for o in x.ops:
                    if isinstance(o, Ins):
                        o.users.append(x)

    def _val(self, p):
        if p in self.vals:
            return self.vals[p]
        k = _vkind(p)
        ty = self.ty(_typeof(p))
        if k == 18:
            v = V("int", ty, _zext(p) if int(ty[1:]) <= 64 else 0)
            if ty == "i1":
                v.v &= 1
        elif k == 19:
            los = C.c_int()
            v = V("fp", ty, _dbl(p, C.byref(los)))
        elif k in (14, 25):
            v = V("undef", ty)
        elif k == 20:
            v = V("null", ty, 0)
        elif k == 10:
            v = V("cexpr", ty, (OPC.get(_cexop(p), "?"), [self._val(_op(p, i)) for i in range(_nops(p))]))
            if v.v[0] == "gep":
                v.name = str(_gepty(p))
        else:
            v = V("other%d" % k, ty, p)
        self.vals[p] = v
        return v

    # ------------------------------------------------------------- types
    def size(self, t):
        return _abisize(self.dl, t)

    def gep_offset(self, ins):
        """constant byte offset and [(scale, value)] of a getelementptr"""
        t = ins.sty
        const, var = 0, []
        for n, ix in enumerate(ins.ops[1:]):
            if n == 0:
                sz = _abisize(self.dl, t)
            elif _tkind(t) == 10:
                const += _offs(self.dl, t, ix.v)
                t = _structelt(t, ix.v)
                continue
            else:
                t = _elt(t)
                sz = _abisize(self.dl, t)
            if ix.k == "int":
                const += sz * ix.v
            else:
                var.append((sz, ix))
        return const, var

    def gep_bounds(self, ins):
        """[(index value, array length or None)] of a getelementptr"""
        t = ins.sty
        out = []
        for n, ix in enumerate(ins.ops[1:]):
            if n == 0:
                out.append((ix, None))
            elif _tkind(t) == 10:
                t = _structelt(t, ix.v)
            else:
                out.append((ix, _arrlen(t) if _tkind(t) == 11 else None))
                t = _elt(t)
        return out

    def string(self, v):
        """the text of a constant string argument"""
        while v is not None and v.k == "cexpr" and v.v[1]:
            v = v.v[1][0]
        if v is None or v.k != "global":
            return None
        init = _ginit(v.v["ptr"])
        if not init or not _isstr(init):
            return None
        n = C.c_size_t()
        p = _asstr(init, C.byref(n))
        return C.string_at(p, n.value).rstrip(b"\0").decode(errors="replace")

    def callees(self, fn):
        return {i.callee.name for i in fn.instrs() if i.op == "call" and i.callee.k == "fn"}


# ----------------------------------------------------------------- graph helpers
def rpo(fn):
    seen, out = set(), []
    st = [(fn.bbs[0], iter(fn.bbs[0].succs))]
    seen.add(fn.bbs[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succs)))
                break
        else:
            out.append(b)
            st.pop()
    return out[::-1]


def dominators(fn, succs=lambda b: b.succs, preds=lambda b: b.preds, order=None):
    """immediate dominators"""
    order = order or rpo(fn)
    num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            n = None
            for p in preds(b):
                if p in idom:
                    if n is None:
                        n = p
                    else:
                        a, c = p, n
                        while a is not c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        n = a
            if n is not None and idom.get(b) is not n:
                idom[b] = n
                ch = True
    return idom


def dominates(idom, a, b):
    while True:
        if a is b:
            return True
        n = idom.get(b)
        if n is None or n is b:
            return False
        b = n


def loops(fn):
    """natural loops: {header: set of blocks}"""
    idom = dominators(fn)
    out = {}
    for b in idom:
        for s in b.succs:
            if dominates(idom, s, b):
                body = out.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += x.preds
    return out
