"""Parser for the subset of textual LLVM IR (opaque pointers, LLVM 18) that clang/opt emit for our harnesses.
Only syntax here; the semantics live in execu.py."""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "fields", "packed", "name")
    def __init__(self, k, n=0, e=None, fields=None, packed=False, name=None):
        self.k, self.n, self.e, self.fields, self.packed, self.name = k, n, e, fields, packed, name
    def __repr__(self):
        return {"int": f"i{self.n}"}.get(self.k, self.k) if self.k not in ("array", "vec", "struct", "named") else \
            (f"[{self.n} x {self.e}]" if self.k == "array" else f"<{self.n} x {self.e}>" if self.k == "vec"
             else f"%{self.name}" if self.k == "named" else "{" + ",".join(map(str, self.fields)) + "}")

VOID, PTR, DOUBLE, FLOAT, LABEL, META = Ty("void"), Ty("ptr"), Ty("double"), Ty("float"), Ty("label"), Ty("metadata")
def INT(n): return Ty("int", n)

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"])*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[+-]?\d+)?)?))
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: " + s[i:i+60])
        if m.end() == i:
            break
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
        while i < n and s[i] in " \t":
            i += 1
        if i < n and s[i] == ";":
            break
    return out

def unq(x):
    """strip sigil and quotes"""
    x = x[1:]
    return x[1:-1] if x.startswith('"') else x

PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "readnone", "writeonly", "noalias",
               "inreg", "returned", "immarg", "nest", "swiftself", "writable", "dead_on_unwind", "allocptr", "nofree"}
PARAM_ATTRS_P = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "memory",
                 "allocsize", "captures", "initializes", "range", "byref", "inalloca", "preallocated"}
CALL_WORDS = {"tail", "musttail", "notail", "fastcc", "coldcc", "ccc"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}
LINK = {"private", "internal", "linkonce_odr", "linkonce", "weak", "weak_odr", "external", "common", "available_externally",
        "dso_local", "local_unnamed_addr", "unnamed_addr", "hidden", "protected", "default", "thread_local", "appending",
        "extern_weak", "dso_preemptable"}

class Parser:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0):
        return self.t[self.i+k][1] if self.i+k < len(self.t) else None
    def kind(self, k=0):
        return self.t[self.i+k][0] if self.i+k < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, w):
        if self.peek() == w:
            self.i += 1; return True
        return False
    def expect(self, w):
        if not self.accept(w):
            raise IRError(f"expected {w} got {self.peek()} in {' '.join(x[1] for x in self.t)[:200]}")
    def more(self):
        return self.i < len(self.t)

    def ty(self):
        w = self.next()
        if w == "void": t = VOID
        elif w == "ptr": t = PTR
        elif w == "double": t = DOUBLE
        elif w == "float": t = FLOAT
        elif w == "label": t = LABEL
        elif w == "metadata": t = META
        elif w in ("x86_fp80", "half", "fp128", "token", "opaque"): t = Ty(w)
        elif re.fullmatch(r"i\d+", w): t = INT(int(w[1:]))
        elif w == "[":
            n = int(self.next()); self.expect("x"); e = self.ty(); self.expect("]"); t = Ty("array", n, e)
        elif w == "<":
            if self.peek() == "{":
                self.next(); fs = self.fields("}"); self.expect(">"); t = Ty("struct", fields=fs, packed=True)
            else:
                n = int(self.next()); self.expect("x"); e = self.ty(); self.expect(">"); t = Ty("vec", n, e)
        elif w == "{":
            t = Ty("struct", fields=self.fields("}"))
        elif w.startswith("%"):
            t = Ty("named", name=unq(w))
        else:
            raise IRError("type? " + w)
        while self.peek() == "(" and t.k in ("void", "ptr", "int", "double") and self._is_fnty():
            # function type  e.g.  i32 (ptr, ...)
            self.next()
            depth = 1
            while depth:
                x = self.next()
                depth += x == "("; depth -= x == ")"
        return t
    def _is_fnty(self):
        # only used in "call RET (ARGTYS) @f(...)"
        j, depth = self.i, 0
        while j < len(self.t):
            x = self.t[j][1]
            if x == "(": depth += 1
            if x == ")":
                depth -= 1
                if depth == 0:
                    return j+1 < len(self.t) and self.t[j+1][0] in ("glob", "loc")
            j += 1
        return False
    def fields(self, close):
        fs = []
        if self.accept(close): return fs
        while True:
            fs.append(self.ty())
            if self.accept(close): return fs
            self.expect(",")

    def skip_attrs(self):
        while self.more():
            w = self.peek()
            if w in PARAM_ATTRS:
                self.next()
            elif w in PARAM_ATTRS_P:
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
                elif self.kind() == "num":
                    self.next()
            elif self.kind() == "str":
                self.next()
                if self.accept("="): self.next()
            else:
                break
    def skip_paren(self):
        self.expect("("); d = 1
        while d:
            x = self.next(); d += x == "("; d -= x == ")"

    # value given a type
    def val(self, ty):
        k, w = self.t[self.i]
        if k == "loc": self.i += 1; return ("loc", unq(w))
        if k == "glob": self.i += 1; return ("glob", unq(w))
        if k == "num":
            self.i += 1
            if ty.k in ("double", "float"):
                if w.startswith("0x"):
                    import struct
                    from fractions import Fraction
                    h = int(w, 16)
                    d = struct.unpack("<d", struct.pack("<Q", h))[0]
                    return ("fp", d)
                return ("fp", float(w))
            return ("int", int(w, 0))
        if w in ("true", "false"): self.i += 1; return ("int", 1 if w == "true" else 0)
        if w == "null": self.i += 1; return ("null",)
        if w in ("undef", "poison"): self.i += 1; return ("undef",)
        if w in ("none",): self.i += 1; return ("undef",)
        if w == "zeroinitializer": self.i += 1; return ("zero",)
        if w in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "sub", "add", "trunc", "icmp", "select"):
            self.i += 1
            return self.constexpr(w)
        if k == "str": self.i += 1; return ("cstr", w)
        if w in ("[", "{", "<"):
            self.i += 1
            closer = {"[": "]", "{": "}", "<": ">"}[w]
            if w == "<" and self.peek() == "{":
                self.next(); closer = "}"; two = True
            else: two = False
            vs = []
            if not self.accept(closer):
                while True:
                    t = self.ty(); vs.append((t, self.val(t)))
                    if self.accept(closer): break
                    self.expect(",")
            if two: self.expect(">")
            return ("agg", vs)
        if w == "dso_local_equivalent" or w == "no_cfi":
            self.i += 1; return self.val(ty)
        raise IRError("value? " + w)
    def tyval(self):
        t = self.ty(); self.skip_attrs(); return t, self.val(t)
    def constexpr(self, op):
        if op == "getelementptr":
            while self.peek() in ("inbounds", "inrange", "nuw", "nusw"): self.next()
            self.expect("(")
            bt = self.ty(); self.expect(",")
            ops = []
            while True:
                while self.peek() == "inrange":
                    self.next()
                    if self.peek() == "(": self.skip_paren()
                ops.append(self.tyval())
                if self.accept(")"): break
                self.expect(",")
            return ("cgep", bt, ops)
        if op in ("bitcast", "inttoptr", "ptrtoint", "trunc"):
            self.expect("("); t, v = self.tyval(); self.expect("to"); t2 = self.ty(); self.expect(")")
            return ("ccast", op, t, v, t2)
        d = 0
        self.expect("("); d = 1
        while d:
            x = self.next(); d += x == "("; d -= x == ")"
        return ("unsup", op)

class Inst:
    __slots__ = ("op", "res", "ty", "a", "flags", "text")
    def __init__(self, op, res, ty, a, flags, text):
        self.op, self.res, self.ty, self.a, self.flags, self.text = op, res, ty, a, flags, text

class Block:
    def __init__(self, name):
        self.name, self.insts, self.preds = name, [], []
    def succs(self):
        t = self.insts[-1]
        if t.op == "br": return list(t.a[1:]) if t.a[0] is not None else [t.a[1]]
        if t.op == "switch": return [t.a[2]] + [b for _, b in t.a[3]]
        if t.op == "invoke": return [t.a["normal"], t.a["unwind"]]
        return []

class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks, self.order = {}, []

class Module:
    def __init__(self):
        self.types, self.funcs, self.globals, self.decls = {}, {}, {}, {}
    # layout
    def resolve(self, t):
        while t.k == "named":
            if t.name not in self.types: raise IRError("opaque type " + t.name)
            t = self.types[t.name]
        return t
    def align(self, t):
        t = self.resolve(t)
        if t.k == "int": return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n, 8)
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k == "array": return self.align(t.e)
        if t.k == "vec": return self.size(t)
        if t.k == "struct":
            return 1 if t.packed or not t.fields else max(self.align(f) for f in t.fields)
        raise IRError("align " + str(t))
    def size(self, t):
        t = self.resolve(t)
        if t.k == "int": return max(1, (t.n + 7) // 8) if t.n <= 64 else 16
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k in ("array", "vec"): return t.n * self.size(t.e)
        if t.k == "struct":
            o = 0
            for f in t.fields:
                if not t.packed:
                    a = self.align(f); o = (o + a - 1) // a * a
                o += self.size(f)
            if not t.packed and t.fields:
                a = self.align(t); o = (o + a - 1) // a * a
            return o
        raise IRError("size " + str(t))
    def field_off(self, t, i):
        t = self.resolve(t); o = 0
        for j, f in enumerate(t.fields):
            if not t.packed:
                a = self.align(f); o = (o + a - 1) // a * a
            if j == i: return o, f
            o += self.size(f)
        raise IRError("field")

BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast"}

def strip_tail(toks):
    """drop trailing ', !md !N' and '#N' """
    out, i = [], 0
    while i < len(toks):
        k, v = toks[i]
        if v == "," and i+1 < len(toks) and toks[i+1][0] == "meta":
            break
        if k == "attr":
            i += 1; continue
        out.append(toks[i]); i += 1
    return out

def parse_inst(line, mod):
    toks = strip_tail(tokenize(line))
    p = Parser(toks, mod)
    res = None
    if p.kind() == "loc" and p.peek(1) == "=":
        res = unq(p.next()); p.next()
    op = p.next()
    flags = set()
    while op in CALL_WORDS:
        op = p.next()
    if op in BIN:
        while p.peek() in ({"nuw", "nsw", "exact", "disjoint"} | FMF): flags.add(p.next())
        t = p.ty(); a = p.val(t); p.expect(","); b = p.val(t)
        return Inst(op, res, t, (a, b), flags, line)
    if op == "fneg":
        while p.peek() in FMF: p.next()
        t, a = p.tyval(); return Inst(op, res, t, (a,), flags, line)
    if op == "freeze":
        t, a = p.tyval(); return Inst(op, res, t, (a,), flags, line)
    if op in ("icmp", "fcmp"):
        while p.peek() in FMF: p.next()
        pred = p.next(); t = p.ty(); a = p.val(t); p.expect(","); b = p.val(t)
        return Inst(op, res, t, (pred, a, b), flags, line)
    if op in CAST:
        while p.peek() in ("nneg", "nuw", "nsw"): flags.add(p.next())
        t, a = p.tyval(); p.expect("to"); t2 = p.ty()
        return Inst(op, res, t2, (t, a), flags, line)
    if op == "select":
        while p.peek() in FMF: p.next()
        ct, c = p.tyval(); p.expect(","); t, a = p.tyval(); p.expect(","); t2, b = p.tyval()
        return Inst(op, res, t, (c, a, b, ct), flags, line)
    if op == "phi":
        while p.peek() in FMF: p.next()
        t = p.ty(); inc = []
        while True:
            p.expect("["); v = p.val(t); p.expect(","); b = unq(p.next()); p.expect("]")
            inc.append((v, b))
            if not p.accept(","): break
        return Inst(op, res, t, inc, flags, line)
    if op == "load":
        while p.peek() in ("volatile", "atomic"): flags.add(p.next())
        t = p.ty(); p.expect(","); pt, a = p.tyval()
        return Inst(op, res, t, (a,), flags, line)
    if op == "store":
        while p.peek() in ("volatile", "atomic"): flags.add(p.next())
        t, v = p.tyval(); p.expect(","); pt, a = p.tyval()
        return Inst(op, None, t, (v, a), flags, line)
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): flags.add(p.next())
        bt = p.ty(); p.expect(","); ops = []
        while True:
            ops.append(p.tyval())
            if not p.accept(","): break
        return Inst(op, res, PTR, (bt, ops), flags, line)
    if op == "alloca":
        t = p.ty(); n = ("int", 1); nt = INT(32)
        while p.accept(","):
            if p.peek() == "align": p.next(); p.next()
            else: nt, n = p.tyval()
        return Inst(op, res, PTR, (t, n), flags, line)
    if op == "br":
        if p.peek() == "label":
            p.next(); return Inst(op, None, VOID, (None, unq(p.next())), flags, line)
        t, c = p.tyval(); p.expect(","); p.expect("label"); a = unq(p.next()); p.expect(","); p.expect("label"); b = unq(p.next())
        return Inst(op, None, VOID, (c, a, b), flags, line)
    if op == "switch":
        t, v = p.tyval(); p.expect(","); p.expect("label"); d = unq(p.next()); p.expect("[")
        cs = []
        while not p.accept("]"):
            ct, cv = p.tyval(); p.expect(","); p.expect("label"); cs.append((cv[1], unq(p.next())))
        return Inst(op, None, VOID, (t, v, d, cs), flags, line)
    if op == "ret":
        t = p.ty()
        return Inst(op, None, t, (None,) if t.k == "void" else (p.val(t),), flags, line)
    if op in ("unreachable",):
        return Inst(op, None, VOID, (), flags, line)
    if op == "resume":
        return Inst(op, None, VOID, (), flags, line)
    if op == "landingpad":
        return Inst(op, res, VOID, (), flags, line)
    if op in ("call", "invoke"):
        while p.peek() in FMF or p.peek() in CALL_WORDS: p.next()
        p.skip_attrs()
        t = p.ty()
        k, w = p.t[p.i]
        if k == "glob": callee = ("glob", unq(p.next()))
        elif k == "loc": callee = ("loc", unq(p.next()))
        else:
            callee = ("asm", w)
            return Inst(op, res, t, {"callee": ("asm", line), "args": []}, flags, line)
        p.expect("("); args = []
        if not p.accept(")"):
            while True:
                if p.peek() == "metadata":
                    p.next(); d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        x = p.next(); d += x in "({["; d -= x in ")}]"
                    args.append((META, ("undef",)))
                else:
                    args.append(p.tyval())
                if p.accept(")"): break
                p.expect(",")
        a = {"callee": callee, "args": args}
        if op == "invoke":
            while p.peek() != "to": p.next()
            p.next(); p.expect("label"); a["normal"] = unq(p.next())
            p.expect("unwind"); p.expect("label"); a["unwind"] = unq(p.next())
        return Inst(op, res, t, a, flags, line)
    if op == "extractvalue":
        t, v = p.tyval(); idx = []
        while p.accept(","): idx.append(int(p.next()))
        return Inst(op, res, t, (v, idx), flags, line)
    if op == "insertvalue":
        t, v = p.tyval(); p.expect(","); et, ev = p.tyval(); idx = []
        while p.accept(","): idx.append(int(p.next()))
        return Inst(op, res, t, (v, et, ev, idx), flags, line)
    if op == "extractelement":
        t, v = p.tyval(); p.expect(","); it, iv = p.tyval()
        return Inst(op, res, t, (v, iv), flags, line)
    if op == "insertelement":
        t, v = p.tyval(); p.expect(","); et, ev = p.tyval(); p.expect(","); it, iv = p.tyval()
        return Inst(op, res, t, (v, ev, iv), flags, line)
    if op == "shufflevector":
        t, v = p.tyval(); p.expect(","); t2, v2 = p.tyval(); p.expect(","); mt, mv = p.tyval()
        return Inst(op, res, t, (v, v2, mt, mv), flags, line)
    return Inst("unsup:" + op, res, VOID, (), flags, line)

DEF = re.compile(r'^define\b')

def parse(text, want=None):
    """parse module; only bodies of functions in `want` (predicate) are parsed."""
    mod = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        L = lines[i]
        if L.startswith("%") and " = type " in L:
            nm, rest = L.split(" = type ", 1)
            p = Parser(tokenize(rest), mod)
            if p.peek() != "opaque":
                mod.types[unq(nm)] = p.ty()
        elif L.startswith("@"):
            m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', L)
            nm = m.group(1).strip('"')
            mod.globals[nm] = m.group(2)
        elif L.startswith("define"):
            hdr = L
            p = Parser(tokenize(hdr[6:].split("{")[0] if False else hdr[6:]), mod)
            while p.peek() in LINK or p.peek() in ("noundef", "comdat"): p.next()
            p.skip_attrs()
            while p.peek() in LINK or p.peek() in CALL_WORDS: p.next()
            p.skip_attrs()
            rt = p.ty()
            fname = unq(p.next())
            params = []
            p.expect("(")
            if not p.accept(")"):
                while True:
                    if p.accept("..."):
                        p.expect(")"); break
                    t = p.ty(); p.skip_attrs()
                    params.append((t, unq(p.next()) if p.kind() == "loc" else None))
                    if p.accept(")"): break
                    p.expect(",")
            f = Func(fname, rt, params)
            # unnamed params are %0..%n-1 implicitly
            cnt = 0
            ps = []
            for t, nm in params:
                if nm is None: nm = str(cnt)
                if nm.isdigit(): cnt = int(nm) + 1
                ps.append((t, nm))
            f.params = ps
            body = []
            i += 1
            while lines[i] != "}":
                body.append(lines[i]); i += 1
            f.body = (body, cnt)
            mod.funcs[fname] = f
        elif L.startswith("declare"):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
            if m: mod.decls[m.group(1).strip('"')] = L
        i += 1
    return mod

def parse_body(f, mod):
    if f.blocks: return f
    body, cnt = f.body
    cur = Block(str(cnt)); f.order.append(cur.name); f.blocks[cur.name] = cur
    j = 0
    first = True
    while j < len(body):
        L = body[j]
        s = L.strip()
        if not s or s.startswith(";"):
            j += 1; continue
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', L)
        if m:
            nm = m.group(1).strip('"')
            if first:
                del f.blocks[cur.name]; f.order.pop(); 
            cur = Block(nm); f.order.append(nm); f.blocks[nm] = cur
            first = False
            j += 1; continue
        first = False
        # multi-line switch / landingpad / invoke
        if re.match(r'^\s*switch ', L) and "]" not in L.split("[", 1)[1]:
            while "]" not in body[j+1]:
                j += 1; s += " " + body[j].strip()
            j += 1; s += " " + body[j].strip()
        elif (" invoke " in L or s.startswith("invoke ")) and " unwind label" not in L:
            j += 1; s += " " + body[j].strip()
        if re.match(r'^(%\S+ = )?landingpad', s):
            while j+1 < len(body) and re.match(r'^\s+(catch|cleanup|filter)', body[j+1]): j += 1
        cur.insts.append(parse_inst(s, mod))
        j += 1
    for b in f.blocks.values():
        for s in b.succs():
            f.blocks[s].preds.append(b.name)
    return f

# ---------------------------------------------------------------- loops
def loops(f):
    """returns: rpo list, header -> set(block) natural loops"""
    entry = f.order[0]
    seen, post = set(), []
    stack = [(entry, iter(f.blocks[entry].succs()))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(f.blocks[s].succs()))); adv = True; break
        if not adv:
            post.append(b); stack.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in f.blocks[b].preds if p in idom]
            if not ps: continue
            d = ps[0]
            for p in ps[1:]:
                a, c = p, d
                while a != c:
                    while idx[a] > idx[c]: a = idom[a]
                    while idx[c] > idx[a]: c = idom[c]
                d = a
            if idom.get(b) != d: idom[b] = d; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    L = {}
    for b in rpo:
        for s in f.blocks[b].succs():
            if dom(s, b):
                body = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st.extend(p for p in f.blocks[x].preds if p in idx)
            elif idx[s] <= idx[b]:
                raise IRError("irreducible control flow")
    return rpo, L

_PC = {}
def parse_cached(path):
    if path not in _PC:
        with open(path) as f: _PC[path] = parse(f.read())
    return _PC[path]
