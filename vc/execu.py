"""Symbolic executor / verification-condition generator over the parsed LLVM IR of the real code.

Two modes, same semantics:
  unroll : loops with concretely decidable conditions are followed to the end (complete: if a loop condition is
           symbolic, or the unwinding limit is hit, the function is reported unsupported, never silently cut off)
  cut    : every loop header is a cut point: candidate invariants are assumed after havocking what the loop
           modifies, and checked on entry and on every back edge (Houdini removes candidates that are not inductive)

Integers are mathematical integers in the signed range (overflow obligations are emitted for every wrapping
operation), doubles are exact reals.  Memory is a set of disjoint objects."""
import struct, itertools
from fractions import Fraction
import z3
import irparse
from irparse import IRError

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ pointers
class Lin:
    """const + sum coef*expr, byte offsets"""
    __slots__ = ("c", "t")
    def __init__(self, c=0, t=None):
        self.c, self.t = c, t or {}
    def add(self, coef, x):
        if isinstance(x, int):
            return Lin(self.c + coef * x, self.t)
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return Lin(self.c + coef * x.as_long(), self.t)
        t = dict(self.t)
        k = x.get_id()
        if k in t:
            c2 = t[k][0] + coef
            if c2 == 0: del t[k]
            else: t[k] = (c2, x)
        else:
            t[k] = (coef, x)
        return Lin(self.c, t)
    def plus(self, o):
        r = Lin(self.c + o.c, self.t)
        for c, x in o.t.values(): r = r.add(c, x)
        return r
    def neg(self):
        return Lin(-self.c, {k: (-c, x) for k, (c, x) in self.t.items()})
    def const(self):
        return self.c if not self.t else None
    def div(self, s):
        """exact division by s -> int expr; None if not syntactically exact"""
        if self.c % s: return None
        r = self.c // s
        for c, x in self.t.values():
            if c % s: return None
            r = iadd(r, imul(c // s, x))
        return r
    def split(self, s):
        """(index expr, remainder byte offset) for stride s"""
        for c, _ in self.t.values():
            if c % s: return None
        rem = self.c % s
        return Lin(self.c - rem, self.t).div(s), rem
    def expr(self):
        return self.div(1)

class Ptr:
    __slots__ = ("o", "off")
    def __init__(self, o, off=None):
        self.o, self.off = o, off or Lin()
    def __repr__(self):
        return f"Ptr({self.o.name if self.o else 'null'}+{self.off.expr()})"

class FnPtr:
    def __init__(self, name): self.name = name

class PDiff:
    """difference / integer value of pointers: (obj plus-count dict, Lin)"""
    def __init__(self, objs, off): self.objs, self.off = objs, off

NULL = Ptr(None)

class Obj:
    """kind cells: dict off->(size,val); kind arr: stride + {field off: (ty, z3array)}"""
    _n = itertools.count()
    def __init__(self, name, kind, stride=0, fields=None, length=None, ghost=False):
        self.name, self.kind, self.stride, self.fields, self.length = name, kind, stride, fields or {}, length
        self.key = name
        self.zero = False      # cells: uninitialised reads give 0
        self.sym = None        # cells: function off,ty -> initial symbolic value
        self.readonly = False
        self.lencell = None    # (object, offset): the cell that holds the current length
        self.bytes = None
    def __repr__(self): return f"<{self.name}>"

# ------------------------------------------------------------------ ints
def is_sym(x): return isinstance(x, z3.ExprRef)
def iadd(a, b):
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return a + b
def isub(a, b):
    if isinstance(b, int) and b == 0: return a
    return a - b
def imul(a, b):
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0: return 0
    return a * b
def norm(x):
    if is_sym(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x
def simp(x):
    return norm(z3.simplify(x)) if is_sym(x) else x
def wrap_c(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v
def b_and(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return z3.And(a, b)
def b_not(a):
    if isinstance(a, bool): return not a
    if hasattr(a, "negate"): return a.negate()
    return z3.Not(a)
def zb(a): return z3.BoolVal(a) if isinstance(a, bool) else a
def zi(a): return z3.IntVal(a) if isinstance(a, int) else a

# ------------------------------------------------------------------ obligations, events
class Obl:
    def __init__(self, kind, name, path, goal, st=None):
        self.kind, self.name, self.path, self.goal, self.st = kind, name, path, goal, st

class InvMark:
    """path element: the surviving candidates of this havoc instance hold"""
    def __init__(self, inst): self.inst = inst

class HavocInst:
    def __init__(self, header, n): self.header, self.n, self.cands, self.ctx = header, n, {}, None

class State:
    __slots__ = ("env", "mem", "path", "active", "cnt", "ghost", "notes")
    def fork(self):
        s = State()
        s.env, s.mem, s.path = dict(self.env), dict(self.mem), list(self.path)
        s.active, s.cnt, s.ghost = list(self.active), dict(self.cnt), dict(self.ghost)
        s.notes = self.notes
        return s

class RealZ3:
    """reals as z3 terms"""
    @staticmethod
    def const(d):
        if d != d or d in (float("inf"), float("-inf")): return z3.FreshReal("nonfinite")
        fr = Fraction(d); return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    @staticmethod
    def fresh(n): return z3.FreshReal(n)
    @staticmethod
    def toreal(x): return z3.RealVal(x) if isinstance(x, int) else z3.ToReal(x)
    @staticmethod
    def sqrt(ex, st, x):
        r = z3.FreshReal("sqrt"); st.path.append(z3.And(r >= 0, z3.Implies(x >= 0, r * r == x))); return r
    @staticmethod
    def abs(x): return z3.If(x >= 0, x, -x)
    @staticmethod
    def cmp(pred, a, b):
        p = pred[1:] if pred[0] in "ou" and len(pred) == 3 else pred
        if pred == "ord": return True
        if pred == "uno": return False
        if pred == "true": return True
        if pred == "false": return False
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
    @staticmethod
    def ite(c, a, b): return z3.If(c, a, b)

class LoopCtx:
    """what an invariant template sees at a loop header"""
    def __init__(self): self.ints, self.reals, self.bools, self.mem, self.entry_ints, self.entry_mem, self.bounds = {}, {}, {}, {}, {}, {}, {}

class Exec:
    def __init__(self, mod, fname, real=RealZ3, mode="cut", models=None, max_steps=200000, max_paths=4000,
                 invariants=None, bounds_check=True, ovf=True, mayalias=None, unroll_limit=100000):
        self.mod, self.f, self.real, self.mode = mod, irparse.parse_body(mod.funcs[fname], mod), real, mode
        self.rpo, self.loops = irparse.loops(self.f)
        self.models = models or []
        self.max_steps, self.max_paths = max_steps, max_paths
        self.obls, self.rets, self.throws, self.entries, self.backs = [], [], [], [], []
        self.instances = []
        self.rawtype = {}      # element types of allocated blocks, found on an earlier pass
        self.modset = {h: set() for h in self.loops}
        self.modset_grew = False
        self.invariants = invariants   # callable(exec, header, inst, st, arrival st) -> dict key -> fn(ctx)->Bool
        self.bounds_check, self.ovf = bounds_check, ovf
        self.externals = set()
        self.globobj = {}
        self.base_facts = []
        self.trusted_calls = set()
        self.exact = False
        self.pure_real_ops = 0

    # ---------- values
    def fresh_val(self, ty, name):
        ty = self.mod.resolve(ty)
        if ty.k == "int":
            return z3.FreshBool(name) if ty.n == 1 else z3.FreshInt(name)
        if ty.k in ("double", "float"): return self.real.fresh(name)
        if ty.k == "ptr": return Ptr(Obj("unk_" + name + str(next(Obj._n)), "unknown"))
        if ty.k == "vec" or ty.k == "array": return tuple(self.fresh_val(ty.e, name) for _ in range(ty.n))
        if ty.k == "struct": return tuple(self.fresh_val(f, name) for f in ty.fields)
        raise Unsupported("fresh " + str(ty))

    def zero_val(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "int": return False if ty.n == 1 else 0
        if ty.k in ("double", "float"): return self.real.const(0.0)
        if ty.k == "ptr": return NULL
        if ty.k in ("vec", "array"): return tuple(self.zero_val(ty.e) for _ in range(ty.n))
        if ty.k == "struct": return tuple(self.zero_val(f) for f in ty.fields)
        raise Unsupported("zero " + str(ty))

    def value(self, st, ty, v):
        k = v[0]
        if k == "loc":
            return st.env[v[1]]
        ty = self.mod.resolve(ty)
        if k == "int":
            if ty.k == "int" and ty.n == 1: return bool(v[1] & 1)
            if ty.k == "int": return wrap_c(v[1], ty.n)
            if ty.k in ("double", "float"): return self.real.const(float(v[1]))
            return v[1]
        if k == "fp": return self.real.const(v[1])
        if k == "null": return NULL
        if k == "undef": return self.fresh_val(ty, "undef")
        if k == "zero": return self.zero_val(ty)
        if k == "agg":
            return tuple(self.value(st, t, x) for t, x in v[1])
        if k == "glob":
            if v[1] in self.mod.funcs or v[1] in self.mod.decls: return FnPtr(v[1])
            return Ptr(self.global_obj(st, v[1]))
        if k == "cgep":
            base = self.value(st, irparse.PTR, v[2][0][1])
            return self.gep(st, v[1], base, [(t, self.value(st, t, x)) for t, x in v[2][1:]])
        if k == "ccast":
            x = self.value(st, v[2], v[3])
            if v[1] == "ptrtoint": return PDiff({x.o.key if x.o else None: 1}, x.off) if isinstance(x, Ptr) else x
            return x
        if k == "cstr":
            return tuple()
        raise Unsupported("const " + str(v))

    def global_obj(self, st, name):
        if name not in self.globobj:
            init = self.mod.globals.get(name, "external")
            o = Obj("@" + name, "cells")
            self.globobj[name] = (o, init)
        o, init = self.globobj[name]
        if o.key not in st.mem:
            st.mem[o.key] = {}
            m = [w for w in init.split() if w in ("constant", "global")]
            if m and m[0] == "constant" and "external" not in init.split("constant")[0]:
                rest = init.split("constant", 1)[1]
                try:
                    p = irparse.Parser(irparse.tokenize(rest.split(", align")[0].split(", comdat")[0]), self.mod)
                    t = p.ty(); v = p.val(t)
                    if v[0] != "cstr":
                        self.store_raw(st, o, 0, t, self.value(st, t, v))
                except (IRError, Unsupported, KeyError):
                    pass
                o.readonly = True
        return o

    # ---------- memory
    def note_write(self, st, o, off=None):
        for h in st.active:
            k = (o.key, off)
            if k not in self.modset[h] and (o.key, None) not in self.modset[h]:
                # objects allocated inside the loop iteration need no havoc
                self.modset[h].add(k); self.modset_grew = True

    def oblige(self, st, kind, name, goal):
        goal = simp(goal) if is_sym(goal) else goal
        if goal is True: return
        self.obls.append(Obl(kind, name, list(st.path), zb(goal), None))

    def length_of(self, st, o):
        if o.lencell is not None:
            ob, off = o.lencell
            def ptr(m, k): return isinstance(m, dict) and k in m and isinstance(m[k][1], Ptr) and m[k][1].o is o
            if not ptr(st.mem[ob.key], off - 8):      # storage moved to another Array: its allocated size is next to the data pointer
                for kk, m in st.mem.items():
                    for x in (m if isinstance(m, dict) else ()):
                        if isinstance(x, int) and isinstance(m[x], tuple) and ptr(m, x) and ptr(m, x + 16): ob, off = None, x + 8; break
                    if ob is None: v = m[off][1]; return 0 if isinstance(v, ZERO) else v
            v = st.mem[ob.key][off][1]
            return 0 if isinstance(v, ZERO) else v
        return o.length

    def typed(self, st, o, ty):
        """a dynamically sized block gets its element type from its first access"""
        if o.kind == "raw":
            ty = self.mod.resolve(ty)
            if ty.k not in ("int", "double", "ptr") or (ty.k == "int" and ty.n not in (8, 32, 64)): raise Unsupported(f"first access to allocated block with type {ty}")
            S = self.mod.size(ty)
            if o.key not in self.rawtype: self.rawtype[o.key] = ty; self.modset_grew = True
            o.kind, o.stride, o.fields = "arr", S, {0: ty}
            n = o.bytes
            if isinstance(n, PDiff): n = n.off.expr()
            o.length = self.div_exact(st, n, S)
        if o.kind == "arr" and not st.mem.get(o.key):
            st.mem[o.key] = {f: z3.Const(f"{o.key}.{f}", z3.ArraySort(z3.IntSort(), self.sort(t))) for f, t in o.fields.items()}

    def retype(self, st, o, ty):
        """a still untouched block of constant size becomes an array"""
        if o.kind == "cells" and getattr(o, "bytes", None) is not None and not st.mem.get(o.key):
            st.mem.pop(o.key, None); o.kind = "raw"; self.typed(st, o, ty); return True
        return False
    def arr_access(self, st, p, ty, what):
        o = p.o
        sp = p.off.split(o.stride)
        if sp is None:
            # non-constant coefficient not a multiple of the stride
            raise Unsupported(f"unaligned access to {o.name} off {p.off.expr()} stride {o.stride}")
        idx, rem = sp
        if rem not in o.fields:
            raise Unsupported(f"access to {o.name} at field offset {rem}")
        fty = o.fields[rem]
        if self.mod.size(fty) != self.mod.size(ty):
            raise Unsupported(f"access of size {self.mod.size(ty)} to {o.name}")
        ln = self.length_of(st, o)
        if self.bounds_check and ln is not None:
            self.oblige(st, "bounds", f"{what} {o.name}", z3.And(zi(idx) >= 0, zi(idx) < zi(ln)))
        return idx, rem, fty

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ("vec", "array"):
            s = self.mod.size(ty.e)
            return tuple(self.load(st, Ptr(p.o, p.off.add(1, s * i)), ty.e) for i in range(ty.n))
        if ty.k == "struct":
            return tuple(self.load(st, Ptr(p.o, p.off.add(1, self.mod.field_off(ty, i)[0])), f) for i, f in enumerate(ty.fields))
        if not isinstance(p, Ptr): raise Unsupported("load through non-pointer")
        if p.o is None:
            self.oblige(st, "null", "load from null", False); return self.fresh_val(ty, "nullload")
        o = p.o
        if o.name.startswith("@_ZGV"): return 1      # function-local statics (timers) count as initialised
        if o.kind in ("raw", "arr"): self.typed(st, o, ty)
        if o.kind == "arr":
            idx, rem, fty = self.arr_access(st, p, ty, "load")
            v = z3.Select(st.mem[o.key][rem], zi(idx))
            if ty.k == "int" and ty.n == 1: raise Unsupported("i1 array load")
            return v
        if o.kind == "unknown":
            raise Unsupported("load from unknown object " + o.name)
        off = p.off.const()
        if off is None:
            if self.retype(st, o, ty): return self.load(st, p, ty)
            raise Unsupported(f"symbolic offset into {o.name}")
        cells = st.mem[o.key]
        sz = self.mod.size(ty)
        if off in cells and cells[off][0] == sz:
            v = cells[off][1]
            return self.coerce(v, ty)
        # i64 (or larger) load composed of smaller cells / moves of pairs: only support raw copies
        parts = self.gather(cells, off, sz)
        if parts is not None:
            return ("raw", sz, parts)
        if any(k < off + sz and k + s[0] > off for k, s in cells.items()):
            # partially overlapping: maybe inside a raw cell
            for k, (s, v) in cells.items():
                if k <= off and off + sz <= k + s and isinstance(v, tuple) and len(v) == 3 and v[0] == "raw":
                    for po, ps, pv in v[2]:
                        if k + po == off and ps == sz: return self.coerce(pv, ty)
            raise Unsupported(f"overlapping load {o.name}+{off} size {sz}")
        if o.zero: v = self.zero_val(ty)
        elif o.sym is not None: v = o.sym(off, ty)
        else: v = self.fresh_val(ty, f"uninit_{o.name}_{off}_")
        c = dict(cells); c[off] = (sz, v); st.mem[o.key] = c
        return v

    def coerce(self, v, ty):
        if ty.k == "int" and ty.n == 1:
            if isinstance(v, int) and not isinstance(v, bool): return bool(v & 1)
        if ty.k == "int" and ty.n > 1:
            if isinstance(v, bool): return int(v)
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def gather(self, cells, off, sz):
        parts = []; o = off
        while o < off + sz:
            if o not in cells: return None
            s, v = cells[o]
            if o + s > off + sz: return None
            parts.append((o - off, s, v)); o += s
        return tuple(parts)

    def store_raw(self, st, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if ty.k in ("vec", "array") and isinstance(v, tuple) and not (len(v) == 3 and v[0] == "raw"):
            s = self.mod.size(ty.e)
            for i in range(ty.n): self.store_raw(st, o, off + s * i, ty.e, v[i])
            return
        if ty.k == "struct" and isinstance(v, tuple) and not (len(v) == 3 and v[0] == "raw"):
            for i, f in enumerate(ty.fields):
                self.store_raw(st, o, off + self.mod.field_off(ty, i)[0], f, v[i])
            return
        sz = self.mod.size(ty)
        cells = dict(st.mem.get(o.key, {}))
        for k in list(cells):
            s = cells[k][0]
            if k < off + sz and k + s > off:
                if k == off and s == sz: continue
                if k >= off and k + s <= off + sz: del cells[k]
                elif isinstance(cells[k][1], tuple) and cells[k][1] and cells[k][1][0] == "raw":
                    _, _, parts = cells[k][1]; del cells[k]
                    for po, ps, pv in parts:
                        if not (k + po < off + sz and k + po + ps > off): cells[k + po] = (ps, pv)
                else:
                    raise Unsupported(f"overlapping store {o.name}+{off}")
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "raw":
            cells.pop(off, None)
            for po, ps, pv in v[2]: cells[off + po] = (ps, pv)
        else:
            cells[off] = (sz, v)
        st.mem[o.key] = cells

    def store(self, st, p, ty, v):
        ty = self.mod.resolve(ty)
        if not isinstance(p, Ptr): raise Unsupported("store through non-pointer")
        if ty.k in ("vec", "array") and not (p.o is not None and p.o.kind == "cells" and p.off.const() is not None):
            s = self.mod.size(ty.e)
            for i in range(ty.n): self.store(st, Ptr(p.o, p.off.add(1, s * i)), ty.e, v[i])
            return
        if p.o is None:
            self.oblige(st, "null", "store to null", False); return
        o = p.o
        if o.readonly: self.oblige(st, "frame", "store to read-only " + o.name, False)
        if o.kind in ("raw", "arr"): self.typed(st, o, ty)
        if o.kind == "arr":
            if isinstance(v, tuple) and len(v) == 3 and v[0] == "raw":
                for po, ps, pv in v[2]:
                    t = irparse.INT(ps * 8) if not (is_sym(pv) and pv.sort() == z3.RealSort()) else irparse.DOUBLE
                    self.store(st, Ptr(o, p.off.add(1, po)), t, pv)
                return
            idx, rem, fty = self.arr_access(st, p, ty, "store")
            d = dict(st.mem[o.key])
            if isinstance(v, bool): v = int(v)
            if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, Ptr): raise Unsupported("pointer stored in array " + o.name)
            if isinstance(v, PDiff): v = v.off.expr()
            d[rem] = z3.Store(d[rem], zi(idx), zi(v) if isinstance(v, int) else v)
            st.mem[o.key] = d
            self.note_write(st, o)
            return
        if o.kind == "unknown": raise Unsupported("store to unknown object " + o.name)
        off = p.off.const()
        if off is None:
            if self.retype(st, o, ty): return self.store(st, p, ty, v)
            raise Unsupported(f"symbolic offset store into {o.name}")
        self.store_raw(st, o, off, ty, v)
        # cells written inside loops
        if ty.k in ("vec", "array", "struct"):
            def rec(t, b):
                t = self.mod.resolve(t)
                if t.k in ("vec", "array"):
                    for i in range(t.n): rec(t.e, b + i * self.mod.size(t.e))
                elif t.k == "struct":
                    for i, f in enumerate(t.fields): rec(f, b + self.mod.field_off(t, i)[0])
                else: self.note_write(st, o, b)
            rec(ty, off)
        else:
            self.note_write(st, o, off)

    def gep(self, st, bt, base, idx):
        if isinstance(base, tuple): raise Unsupported("vector gep")
        if not isinstance(base, Ptr): raise Unsupported("gep on " + str(base))
        off = base.off
        t = bt
        first = True
        for it, iv in idx:
            if isinstance(iv, tuple): raise Unsupported("vector gep")
            if isinstance(iv, PDiff):
                off2 = iv.off
                s = self.mod.size(t) if first else None
                e = off2.expr()
                off = off.add(self.mod.size(t) if first else self.mod.size(self.mod.resolve(t).e), e)
                if not first: t = self.mod.resolve(t).e
                first = False
                continue
            if first:
                off = off.add(self.mod.size(t), iv); first = False
                continue
            t = self.mod.resolve(t)
            if t.k in ("array", "vec"):
                t = t.e
                off = off.add(self.mod.size(t), iv)
            elif t.k == "struct":
                o, t = self.mod.field_off(t, iv)
                off = off.add(1, o)
            else: raise Unsupported("gep into " + str(t))
        return Ptr(base.o, off)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        if d.o is None or s.o is None:
            if is_sym(n):
                self.oblige(st, "null", "copy to or from null", zi(n) == 0); return
            raise Unsupported("memcpy null")
        for x, y in ((d.o, s.o), (s.o, d.o)):
            if x.kind == "raw" and y.kind == "arr" and set(y.fields) == {0}: self.typed(st, x, y.fields[0])
            elif x.kind == "arr": self.typed(st, x, None)
        if isinstance(n, int) and d.o.kind == "cells" and s.o.kind == "cells":
            so, do = s.off.const(), d.off.const()
            if so is None or do is None: raise Unsupported("memcpy symbolic offset")
            cells = st.mem[s.o.key]
            items = [(k, v) for k, v in cells.items() if so <= k and k + v[0] <= so + n]
            cov = sum(v[0] for _, v in items)
            if s.o.sym is not None or s.o.zero:
                # materialise symbolic inputs (8 byte elements)
                k = so
                have = {kk for kk, _ in items}
                while k < so + n:
                    if k in cells: k += cells[k][0]; continue
                    self.load(st, Ptr(s.o, Lin(k)), s.o.symty(k) if hasattr(s.o, "symty") and s.o.symty else irparse.DOUBLE); cells = st.mem[s.o.key]; k += cells[k][0]
                items = [(k, v) for k, v in cells.items() if so <= k and k + v[0] <= so + n]
            dst = dict(st.mem[d.o.key])
            for k in list(dst):
                if k < do + n and k + dst[k][0] > do:
                    if k < do or k + dst[k][0] > do + n: raise Unsupported("memcpy overlap")
                    del dst[k]
            for k, v in items:
                dst[do + k - so] = v
                self.note_write(st, d.o, do + k - so)
            st.mem[d.o.key] = dst
            return
        if isinstance(n, int) and n <= 4096 and "arr" in (d.o.kind, s.o.kind):
            # element-wise
            a = s.o if s.o.kind == "arr" else d.o
            offs = []
            k = 0
            sp = (s.off if a is s.o else d.off).split(a.stride)
            if sp is None: raise Unsupported("memcpy unaligned")
            while k < n:
                rem = (sp[1] + k) % a.stride
                if rem not in a.fields: 
                    # padding or missing field
                    k += 1; continue
                offs.append((k, a.fields[rem])); k += self.mod.size(a.fields[rem])
            vals = [(k, t, self.load(st, Ptr(s.o, s.off.add(1, k)), t)) for k, t in offs]
            for k, t, v in vals: self.store(st, Ptr(d.o, d.off.add(1, k)), t, v)
            return
        if d.o.kind == "arr" and s.o.kind == "arr" and d.o.stride == s.o.stride and set(d.o.fields) == set(s.o.fields):
            S = d.o.stride
            ds, ss = d.off.split(S), s.off.split(S)
            if ds is None or ss is None or ds[1] or ss[1]: raise Unsupported("memcpy arr")
            if isinstance(n, PDiff): cnt = n.off.div(S)
            elif isinstance(n, int): cnt = n // S
            else: cnt = Lin().add(1, n).div(S) if False else self.div_exact(st, n, S)
            if cnt is None: raise Unsupported("memcpy count")
            if self.bounds_check:
                for q, sp in ((d.o, ds), (s.o, ss)):
                    ln = self.length_of(st, q)
                    if ln is not None:
                        self.oblige(st, "bounds", f"memcpy {q.name}", z3.Or(zi(cnt) <= 0, z3.And(zi(sp[0]) >= 0, zi(sp[0]) + zi(cnt) <= zi(ln))))
            nd = dict(st.mem[d.o.key])
            for f in d.o.fields:
                srcA, dstA = st.mem[s.o.key][f], st.mem[d.o.key][f]
                new = z3.FreshConst(dstA.sort(), "cpy")
                k = z3.FreshInt("k")
                inr = z3.And(zi(ds[0]) <= k, k < zi(ds[0]) + zi(cnt))
                st.path.append(z3.ForAll([k], z3.Select(new, k) == z3.If(inr, z3.Select(srcA, k - zi(ds[0]) + zi(ss[0])), z3.Select(dstA, k)), patterns=[z3.Select(new, k)]))
                # let the copied region also be found from the source side
                k2 = z3.FreshInt("k")
                st.path.append(z3.ForAll([k2], z3.Implies(z3.And(zi(ss[0]) <= k2, k2 < zi(ss[0]) + zi(cnt)),
                               z3.Select(new, k2 - zi(ss[0]) + zi(ds[0])) == z3.Select(srcA, k2)), patterns=[z3.Select(srcA, k2)]))
                nd[f] = new
            st.mem[d.o.key] = nd
            self.note_write(st, d.o)
            return
        raise Unsupported(f"memcpy {d.o.name}<-{s.o.name} n={n}")

    def div_exact(self, st, n, S):
        if isinstance(n, int): return n // S if n % S == 0 else None
        n = z3.simplify(n)
        # coef*expr syntactically
        def lin(e):
            if z3.is_int_value(e): return Lin(e.as_long())
            if z3.is_add(e):
                r = Lin()
                for c in e.children():
                    r = r.plus(lin(c))
                return r
            if z3.is_mul(e) and len(e.children()) == 2 and z3.is_int_value(e.children()[0]):
                return Lin().add(e.children()[0].as_long(), e.children()[1])
            return Lin().add(1, e)
        r = lin(n).div(S)
        if r is None:
            q = z3.FreshInt("q"); st.path.append(n == q * S); self.oblige(st, "align", "exact division", n % S == 0); return q
        return r

    def memset(self, st, d, c, n):
        if not isinstance(c, int): raise Unsupported("memset value")
        if d.o.kind == "cells":
            if not isinstance(n, int): raise Unsupported("memset size")
            do = d.off.const()
            if do is None: raise Unsupported("memset offset")
            dst = dict(st.mem[d.o.key])
            for k in list(dst):
                if k < do + n and k + dst[k][0] > do:
                    if k < do or k + dst[k][0] > do + n: raise Unsupported("memset overlap")
                    del dst[k]
            st.mem[d.o.key] = dst
            if c != 0: raise Unsupported("memset nonzero cells")
            # record as zero range
            dst = dict(dst)
            k = do
            while k < do + n:
                s = 8 if k + 8 <= do + n and k % 8 == 0 else (4 if k + 4 <= do + n and k % 4 == 0 else 1)
                dst[k] = (s, ZERO(s)); self.note_write(st, d.o, k); k += s
            st.mem[d.o.key] = dst
            return
        if d.o.kind == "arr":
            S = d.o.stride
            ds = d.off.split(S)
            if ds is None or ds[1]: raise Unsupported("memset arr")
            cnt = n.off.div(S) if isinstance(n, PDiff) else self.div_exact(st, n, S)
            if cnt is None: raise Unsupported("memset count")
            ln = self.length_of(st, d.o)
            if self.bounds_check and ln is not None:
                self.oblige(st, "bounds", f"memset {d.o.name}", z3.Or(zi(cnt) <= 0, z3.And(zi(ds[0]) >= 0, zi(ds[0]) + zi(cnt) <= zi(ln))))
            nd = dict(st.mem[d.o.key])
            for f, t in d.o.fields.items():
                dstA = nd[f]
                if dstA.sort().range() == z3.RealSort():
                    if c: raise Unsupported("memset real")
                    val = z3.RealVal(0)
                else:
                    sz = self.mod.size(t)
                    val = z3.IntVal(wrap_c(int.from_bytes(bytes([c & 255]) * sz, "little"), 8 * sz))
                new = z3.FreshConst(dstA.sort(), "set"); k = z3.FreshInt("k")
                st.path.append(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(zi(ds[0]) <= k, k < zi(ds[0]) + zi(cnt)), val, z3.Select(dstA, k)), patterns=[z3.Select(new, k)]))
                nd[f] = new
            st.mem[d.o.key] = nd
            self.note_write(st, d.o)
            return
        raise Unsupported("memset " + d.o.kind)

    # ---------- integer helpers
    def rng(self, st, x, n, what):
        """x must fit into signed n bits"""
        if isinstance(x, int): return x
        if self.ovf:
            self.oblige(st, "overflow", what, z3.And(x >= -(1 << (n-1)), x < (1 << (n-1))))
        return x

    def binop(self, st, I, ty, a, b):
        op = I.op
        if ty.k == "vec":
            return tuple(self.binop(st, I, ty.e, x, y) for x, y in zip(a, b))
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            if isinstance(a, ZERO): a = self.real.const(0.0)
            if isinstance(b, ZERO): b = self.real.const(0.0)
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            if is_sym(b): self.oblige(st, "div0", "division by zero", b != 0) if self.divcheck else None
            return a / b
        if op == "frem": raise Unsupported("frem")
        n = ty.n
        if isinstance(a, ZERO): a = 0
        if isinstance(b, ZERO): b = 0
        if n == 1:
            if op == "and": return b_and(a, b)
            if op == "or": return b_not(b_and(b_not(a), b_not(b)))
            if op == "xor":
                if isinstance(b, bool): return b_not(a) if b else a
                if isinstance(a, bool): return b_not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            return self.pdiff_op(st, op, a, b, I)
        if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported("raw int arithmetic")
        a, b = self.coerce(a, ty), self.coerce(b, ty)
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = a & ((1 << n) - 1), b & ((1 << n) - 1)
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                 "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: ua >> b, "ashr": lambda: a >> b,
                 "sdiv": lambda: int(Fraction(a, b)) , "udiv": lambda: ua // ub, "srem": lambda: a - b * int(Fraction(a, b)), "urem": lambda: ua % ub}[op]()
            return wrap_c(r, n)
        if op == "add": return self.rng(st, iadd(a, b), n, "add")
        if op == "sub": return self.rng(st, isub(a, b), n, "sub")
        if op == "mul": return self.rng(st, imul(a, b), n, "mul")
        if op == "shl" and isinstance(b, int): return self.rng(st, imul(1 << b, a), n, "shl")
        if op in ("ashr", "lshr") and isinstance(b, int):
            if op == "lshr": self.oblige(st, "overflow", "lshr of negative", a >= 0) if self.ovf else None
            return a / z3.IntVal(1 << b)      # z3 int div: floor for positive divisor
        if op == "and" and isinstance(b, int):
            if b >= 0 and (b & (b+1)) == 0: return a % z3.IntVal(b + 1) if b else 0
            if b < 0 and ((-b) & (-b-1)) == 0: return a - a % z3.IntVal(-b)
        if op == "or" and "disjoint" in I.flags: return self.rng(st, a + b, n, "or")
        if op == "xor" and isinstance(b, int) and b == -1: return -1 - a
        if op in ("sdiv", "udiv") and isinstance(b, int) and b > 0:
            if op == "udiv":
                self.oblige(st, "overflow", "udiv of negative", a >= 0) if self.ovf else None
                return a / z3.IntVal(b)
            return z3.If(a >= 0, a / z3.IntVal(b), -((-a) / z3.IntVal(b)))
        if op in ("srem", "urem") and isinstance(b, int) and b > 0:
            if op == "urem":
                self.oblige(st, "overflow", "urem of negative", a >= 0) if self.ovf else None
                return a % z3.IntVal(b)
            return z3.If(a >= 0, a % z3.IntVal(b), -((-a) % z3.IntVal(b)))
        if op in ("sdiv", "udiv", "srem", "urem"):
            A, B = zi(a), zi(b)
            self.oblige(st, "div0", "integer division", B != 0)
            if op[0] == "u" and self.ovf: self.oblige(st, "overflow", op, z3.And(A >= 0, B > 0))
            q = z3.If(A >= 0, A / B, -((-A) / B))
            return q if op.endswith("div") else A - B * q
        if op in ("and", "or", "xor") and ty.n <= 8:
            # bool-valued bytes
            self.oblige(st, "bits", op + " on bool bytes", z3.And(zi(a) >= 0, zi(a) <= 1, zi(b) >= 0, zi(b) <= 1))
            A, B = zi(a) != 0, zi(b) != 0
            c = {"and": z3.And(A, B), "or": z3.Or(A, B), "xor": z3.Xor(A, B)}[op]
            return z3.If(c, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f"{op} {a} {b}")

    def pdiff_op(self, st, op, a, b, I):
        def obs(x): return x.objs if isinstance(x, PDiff) else {}
        def offs(x):
            return x.off if isinstance(x, PDiff) else Lin().add(1, x)
        if op in ("add", "sub"):
            s = 1 if op == "add" else -1
            objs = dict(obs(a))
            for k, v in obs(b).items():
                objs[k] = objs.get(k, 0) + s * v
                if objs[k] == 0: del objs[k]
            o = offs(a).plus(offs(b) if s == 1 else offs(b).neg())
            if not objs:
                c = o.const()
                return c if c is not None else PDiff({}, o)
            return PDiff(objs, o)
        if isinstance(a, PDiff) and not a.objs:
            if op in ("ashr", "lshr") and isinstance(b, int):
                r = a.off.div(1 << b)
                if r is not None: return r
            if op in ("sdiv", "udiv") and isinstance(b, int):
                r = a.off.div(b)
                if r is not None: return r
        if isinstance(b, int) and isinstance(a, PDiff) and not a.objs:
            return self.binop(st, I, irparse.INT(64), a.off.expr(), b)
        raise Unsupported("pointer arithmetic " + op)

    def icmp(self, st, ty, pred, a, b):
        if ty.k == "vec": return tuple(self.icmp(st, ty.e, pred, x, y) for x, y in zip(a, b))
        if isinstance(a, ZERO): a = 0 if ty.k == "int" else NULL
        if isinstance(b, ZERO): b = 0 if ty.k == "int" else NULL
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr): raise Unsupported("fnptr cmp")
            ka, kb = a.o.key if a.o else None, b.o.key if b.o else None
            if ka == kb:
                x, y = a.off.plus(b.off.neg()).expr(), 0
                if ka is None and not is_sym(x): pass
                return self.icmp(st, irparse.INT(64), {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred), x, y)
            if (a.o and a.o.kind == "unknown") or (b.o and b.o.kind == "unknown"):
                return z3.FreshBool("ptrcmp")
            # FlatArray of length 0 may hold a null data pointer: only decide eq/ne
            if pred == "eq": return False
            if pred == "ne": return True
            raise Unsupported("ptr order of different objects")
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            ao = a.objs if isinstance(a, PDiff) else {}
            bo = b.objs if isinstance(b, PDiff) else {}
            if ao == bo:
                fa = a.off if isinstance(a, PDiff) else Lin().add(1, a)
                fb = b.off if isinstance(b, PDiff) else Lin().add(1, b)
                pr = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred) if ao else pred
                if pred in ("eq", "ne") or ao:
                    return self.icmp(st, irparse.INT(64), pr, fa.plus(fb.neg()).expr(), 0)
                return self.icmp(st, irparse.INT(64), pr, fa.expr(), fb.expr())
            raise Unsupported("pdiff cmp")
        if ty.n == 1:
            if pred == "eq": return self.i1eq(a, b)
            if pred == "ne": return b_not(self.i1eq(a, b))
            A, B = self.coerce(a, irparse.INT(8)), self.coerce(b, irparse.INT(8))
            return self.icmp(st, irparse.INT(8), pred, A, B)
        if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported("raw cmp")
        a, b = self.coerce(a, ty), self.coerce(b, ty)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "u" :
                m = (1 << ty.n) - 1; a &= m; b &= m
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[1:] if pred[0] in "su" and len(pred) == 3 else pred]
        A, B = zi(a), zi(b)
        if pred == "eq": return simp(A == B)
        if pred == "ne": return simp(A != B)
        if pred[0] == "s":
            return simp({"slt": A < B, "sle": A <= B, "sgt": A > B, "sge": A >= B}[pred])
        if pred in ("ugt", "uge"):
            return self.icmp(st, ty, {"ugt": "ult", "uge": "ule"}[pred], b, a)
        lt = (A < B) if pred == "ult" else (A <= B)
        # unsigned: non-negatives are below negatives
        if isinstance(b, int) and b >= 0: return simp(z3.And(A >= 0, lt))
        if isinstance(a, int) and a >= 0: return simp(z3.Or(B < 0, lt))
        return simp(z3.If(z3.And(A >= 0, B >= 0), lt, z3.Or(B < 0 if True else False, z3.BoolVal(False)) if False else z3.If(A >= 0, z3.BoolVal(True), z3.If(B >= 0, z3.BoolVal(False), lt))))

    def i1eq(self, a, b):
        if isinstance(a, int) and not isinstance(a, bool): a = bool(a)
        if isinstance(b, int) and not isinstance(b, bool): b = bool(b)
        if isinstance(b, bool): return a if b else b_not(a)
        if isinstance(a, bool): return b if a else b_not(b)
        return a == b

    def cast(self, st, op, fl, sty, dty, v):
        if sty.k == "vec": return tuple(self.cast(st, op, fl, sty.e, self.mod.resolve(dty).e, x) for x in v)
        if isinstance(v, ZERO): v = 0 if sty.k == "int" else (NULL if sty.k == "ptr" else self.real.const(0.0))
        if op == "zext":
            if sty.n == 1:
                if isinstance(v, bool): return int(v)
                if isinstance(v, int): return v & 1
                return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, z3.BoolRef) else v
            if isinstance(v, int): return v & ((1 << sty.n) - 1)
            if isinstance(v, PDiff): return v
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if "nneg" in fl or sty.n == 8: return v
            return z3.If(v >= 0, v, v + (1 << sty.n))
        if op == "sext":
            if sty.n == 1:
                if isinstance(v, bool): return -1 if v else 0
                return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == "trunc":
            if dty.n == 1:
                if isinstance(v, bool): return v
                if isinstance(v, int): return bool(v & 1)
                if isinstance(v, z3.BoolRef): return v
                if isinstance(v, tuple): raise Unsupported("trunc raw")
                return simp(v % 2 != 0)
            if isinstance(v, int): return wrap_c(v, dty.n)
            if isinstance(v, PDiff):
                if v.objs: raise Unsupported("trunc ptr")
                v = v.off.expr()
            if isinstance(v, tuple):
                for po, ps, pv in v[2]:
                    if po == 0 and ps * 8 == dty.n: return pv
                raise Unsupported("trunc raw")
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.rng(st, v, dty.n, "trunc")
        if op in ("sitofp", "uitofp"):
            if sty.n == 1 and not isinstance(v, (int, bool)): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, PDiff): v = v.off.expr()
            return self.real.const(float(int(v))) if isinstance(v, (int, bool)) else self.real.toreal(v)
        if op in ("fptosi", "fptoui"):
            # truncation toward zero
            if is_sym(v) :
                c = z3.simplify(v)
                if z3.is_to_real(c): return c.children()[0]
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return self.real.toint(v)
        if op in ("fpext", "fptrunc"): return v
        if op == "ptrtoint":
            if isinstance(v, Ptr):
                if v.o is None: return 0 if v.off.const() == 0 else PDiff({}, v.off)
                return PDiff({v.o.key: 1}, v.off)
            raise Unsupported("ptrtoint")
        if op == "bitcast":
            if sty.k == dty.k: return v
        raise Unsupported(f"{op} {sty}->{dty}")

    divcheck = False
    # ---------- calls
    def call(self, st, I):
        a = I.a
        c = a["callee"]
        if c[0] == "asm":
            if 'asm sideeffect ""' in c[1] or 'asm ""' in c[1]: return None
            raise Unsupported("inline asm")
        if c[0] == "loc":
            fv = st.env[c[1]]
            if isinstance(fv, FnPtr): name = fv.name
            else:
                name = "<indirect>"
                args = [self.value(st, t, v) for t, v in a["args"]]
                for m in self.models:
                    r = m(self, st, name, args, I)
                    if r is not NotImplemented: return r
                raise Unsupported("indirect call")
        else: name = c[1]
        if name.startswith("llvm."):
            return self.intrinsic(st, name, a["args"], I)
        args = [self.value(st, t, v) for t, v in a["args"]]
        for m in self.models:
            r = m(self, st, name, args, I)
            if r is not NotImplemented:
                self.trusted_calls.add(name)
                return r
        return self.builtin(st, name, args, I)

    NOOP = ("_ZN6ngcore10RegionTimer", "_ZN6ngcore9NgProfiler", "_ZN6ngcore11RegionTimer", "_ZNSo", "_ZStls", "_ZdlPv", "_ZdaPv", "_ZNSolsE", "_ZSt4endl", "_ZStlsISt",
            "_ZSt16__ostream_insert", "_ZN6ngcore5Timer", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "_ZNSt8ios_base4InitC1Ev",
            "_ZN6ngcore13PajeTrace", "_ZN6ngcorelsE", "_ZN6ngcore11PajeTrace", "_ZN3amg4prowI", "_ZNSo3putEc", "_ZNSo5flushEv", "_ZNSo9_M_insert")
    def builtin(self, st, name, args, I):
        if name in ("_Znwm", "_Znam", "malloc", "_ZnamSt11align_val_t", "_ZnwmSt11align_val_t", "_ZnamRKSt9nothrow_t"):
            n = args[0]
            if is_sym(n) and z3.is_app_of(n, z3.Z3_OP_ITE):      # new T[n]: a negative or overflowing count throws
                c, x, y = n.children()
                for bad, good, cond in ((x, y, z3.Not(c)), (y, x, c)):
                    if z3.is_int_value(bad) and bad.as_long() in (-1, 2**64 - 1): st.path.append(cond); n = good; break
            k = ("new", I.res); st.cnt[k] = st.cnt.get(k, 0) + 1
            o = Obj(f"new{I.res}#{st.cnt[k]}", "raw"); o.bytes = n
            if o.key in self.rawtype: self.typed(st, o, self.rawtype[o.key])   # element type known from the previous pass
            elif isinstance(n, int): o.kind = "cells"; st.mem[o.key] = {}
            return Ptr(o)
        if name.startswith("__cxa_guard_acquire"):
            return 0
        if name in ("sqrt", "sqrtf"): return self.real.sqrt(self, st, args[0])
        if name in ("fabs", "fabsf"): return self.real.abs(args[0])
        if name in ("abs",):
            x = args[0]
            return abs(x) if isinstance(x, int) else z3.If(x >= 0, x, -x)
        if name in ("__cxa_allocate_exception",):
            o = Obj("exc", "cells"); st.mem[o.key] = {}; return Ptr(o)
        if name in ("__cxa_throw", "_ZSt20__throw_length_errorPKc", "__cxa_rethrow", "abort", "_ZSt17__throw_bad_allocv", "__cxa_throw_bad_array_new_length", "_ZSt28__throw_bad_array_new_lengthv", "__clang_call_terminate", "_ZSt9terminatev"):
            return "THROW"
        if name.startswith(self.NOOP):
            self.externals.add(name)
            return args[0] if I.ty.k == "ptr" and args else (None if I.ty.k == "void" else self.fresh_val(I.ty, "ext"))
        f = self.mod.funcs.get(name)
        if f is not None: irparse.parse_body(f, self.mod)
        if f is not None and len(f.blocks) == 1 and len(f.params) == len(args):   # straight-line callee (late-resolved virtual call)
            env = st.env; st.env = {n: v for (_, n), v in zip(f.params, args)}
            for J in f.blocks[f.order[0]].insts:
                if J.op == "ret":
                    r = None if J.a[0] is None else self.value(st, J.ty, J.a[0]); st.env = env; return r
                if J.op in ("call", "invoke"):
                    r = self.call(st, J)
                    if isinstance(r, (str, list)): raise Unsupported("call inside " + name)
                    if J.res is not None: st.env[J.res] = r
                elif J.op in ("select", "br", "switch", "unreachable"): raise Unsupported(J.op + " inside " + name)
                else: self.step(st, J)
        raise Unsupported("call " + name)

    def new_array(self, st, name, ety, length, content=None):
        o = Obj(name, "arr", stride=self.mod.size(ety), fields={0: ety}, length=length)
        st.mem[o.key] = {0: content if content is not None else z3.FreshConst(z3.ArraySort(z3.IntSort(), self.sort(ety)), name)}
        return o
    def sort(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "int": return z3.IntSort()
        if ty.k in ("double", "float"): return z3.RealSort()
        raise Unsupported("array of " + str(ty))

    def intrinsic(self, st, name, targs, I):
        b = name.split(".")[1]
        if b in ("lifetime", "dbg", "assume", "experimental", "donothing", "invariant", "prefetch", "stackrestore"): return None
        if b == "stacksave": return NULL
        args = [self.value(st, t, v) for t, v in targs]
        def lanes(f, *xs):
            if isinstance(xs[0], tuple): return tuple(f(*q) for q in zip(*xs))
            return f(*xs)
        if b in ("fmuladd", "fma"): return lanes(lambda x, y, z: x * y + z, *args)
        if b == "fabs": return lanes(self.real.abs, args[0])
        if b == "sqrt": return lanes(lambda x: self.real.sqrt(self, st, x), args[0])
        if b in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2]); return None
        if b == "memset":
            self.memset(st, args[0], args[1], args[2]); return None
        if b in ("smax", "smin", "umax", "umin"):
            def mm(x, y):
                if isinstance(x, int) and isinstance(y, int): return max(x, y) if b.endswith("max") else min(x, y)
                if isinstance(x, PDiff): x = x.off.expr()
                if isinstance(y, PDiff): y = y.off.expr()
                if isinstance(x, int) and isinstance(y, int): return max(x, y) if b.endswith("max") else min(x, y)
                if b[0] == "u" and self.ovf: self.oblige(st, "overflow", b, z3.And(zi(x) >= 0, zi(y) >= 0))
                c = zi(x) >= zi(y) if b.endswith("max") else zi(x) <= zi(y)
                return z3.If(c, zi(x), zi(y))
            return lanes(mm, args[0], args[1])
        if b == "abs":
            return lanes(lambda x: abs(x) if isinstance(x, int) else z3.If(x >= 0, x, -x), args[0])
        if b in ("maxnum", "minnum", "maximum", "minimum"):
            return lanes(lambda x, y: self.real.ite(self.real.cmp("oge" if b.startswith("max") else "ole", x, y), x, y), args[0], args[1])
        if b == "vector" and name.startswith("llvm.vector.reduce.fadd"):
            r = args[0]
            for x in args[1]: r = r + x
            return r
        if b == "umul" or b == "uadd" or b == "smul" or b == "sadd":   # with.overflow
            x, y = args
            r = imul(x, y) if b[1:] == "mul" else iadd(x, y)
            if is_sym(r): self.rng(st, r, 64, "with.overflow")
            return (r, False)
        if b == "trap" or b == "ubsantrap": return "THROW"
        if b == "is": return False
        if b == "objectsize": return -1
        if b == "expect": return args[0]
        raise Unsupported("intrinsic " + name)

    # ---------- main loop
    def run(self, args, st0, max_restart=12):
        for r in range(max_restart):
            self.obls, self.rets, self.throws, self.entries, self.backs, self.instances = [], [], [], [], [], []
            self.modset_grew = False
            self.paths = 0
            st = st0.fork()
            for (t, n), v in zip(self.f.params, args): st.env[n] = v
            self.dfs(st)
            if not self.modset_grew: return
        raise Unsupported("modified-set fixpoint did not converge")

    def feasible(self, st, c):
        if self.real is not RealZ3: return True
        s = z3.Solver(); s.set("timeout", 300)
        for p in self.base_facts + st.path:
            if isinstance(p, InvMark): continue
            if z3.is_quantifier(p): continue
            s.add(p)
        s.add(zb(c))
        return s.check() != z3.unsat

    def branch(self, st, c, a, b):
        """list of (state, target)"""
        if isinstance(c, ZERO): c = False
        c = simp(c) if is_sym(c) else c
        if isinstance(c, bool): return [(st, a if c else b)]
        if isinstance(c, tuple): raise Unsupported("vector branch")
        if not is_sym(c):   # real-domain condition object
            out = []
            for val, tgt in ((True, a), (False, b)):
                s2 = st.fork()
                if c.assume(self, s2, val): out.append((s2, tgt))
            return out
        out = []
        if self.feasible(st, c):
            s2 = st.fork(); s2.path.append(c); out.append((s2, a))
        nc = z3.Not(c)
        if self.feasible(st, nc):
            st.path.append(nc); out.append((st, b))
        return out

    def dfs(self, st):
        work = [(st, self.f.order[0], None)]
        steps = 0
        while work:
            st, b, prev = work.pop()
            while True:
                steps += 1
                if steps > self.max_steps: raise Unsupported("step limit")
                if self.paths + len(work) > self.max_paths: raise Unsupported("path limit")
                # leaving loops
                st.active = [h for h in st.active if b in self.loops[h]]
                if b in self.loops and self.mode == "cut":
                    if b in st.active:     # back edge
                        self.arrive_back(st, b, prev); self.paths += 1
                        break
                    st = self.arrive_entry(st, b, prev)
                    st.active.append(b)
                    insts = [i for i in self.f.blocks[b].insts if i.op != "phi"]
                else:
                    if b in self.loops:
                        k = ("unroll", b); st.cnt[k] = st.cnt.get(k, 0) + 1
                        if st.cnt[k] > 100000: raise Unsupported("unroll limit")
                    self.do_phis(st, b, prev)
                    insts = [i for i in self.f.blocks[b].insts if i.op != "phi"]
                nxt = self.exec_block(st, b, insts, work)
                if nxt is None:
                    self.paths += 1
                    break
                st, nb = nxt
                prev, b = b, nb

    def do_phis(self, st, b, prev):
        vals = []
        for I in self.f.blocks[b].insts:
            if I.op != "phi": break
            for v, pb in I.a:
                if pb == prev:
                    vals.append((I.res, self.value(st, I.ty, v))); break
            else: raise Unsupported("phi pred")
        for r, v in vals: st.env[r] = v

    def exec_block(self, st, b, insts, work, start=0):
        for ii, I in enumerate(insts[start:], start):
            op = I.op
            if op == "br":
                if I.a[0] is None: return st, I.a[1]
                outs = self.branch(st, self.value(st, irparse.INT(1), I.a[0]), I.a[1], I.a[2])
                if not outs: return None
                for s2, t in outs[1:]:
                    work.append((s2, t, b))
                return outs[0]
            if op == "switch":
                t, v, d, cs = I.a
                x = self.value(st, t, v)
                if isinstance(x, z3.BoolRef): x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
                if isinstance(x, int):
                    for cv, tgt in cs:
                        if wrap_c(cv, t.n) == x: return st, tgt
                    return st, d
                outs = []
                for cv, tgt in cs:
                    c = x == wrap_c(cv, t.n)
                    if self.feasible(st, c):
                        s2 = st.fork(); s2.path.append(c); outs.append((s2, tgt))
                c = z3.And([x != wrap_c(cv, t.n) for cv, _ in cs])
                if self.feasible(st, c):
                    st.path.append(c); outs.append((st, d))
                if not outs: return None
                for s2, t2 in outs[1:]: work.append((s2, t2, b))
                return outs[0]
            if op == "ret":
                v = None if I.a[0] is None else self.value(st, I.ty, I.a[0])
                self.rets.append((st, v)); return None
            if op in ("unreachable", "resume"):
                return None
            if op == "select":
                cty = self.mod.resolve(I.a[3])
                c = self.value(st, cty, I.a[0])
                if isinstance(c, ZERO): c = False
                x, y = self.value(st, I.ty, I.a[1]), self.value(st, I.ty, I.a[2])
                if cty.k == "vec":
                    st.env[I.res] = tuple(self.sel(st, self.mod.resolve(I.ty).e, cc, p, q) for cc, p, q in zip(c, x, y)); continue
                c = simp(c) if is_sym(c) else c
                if isinstance(c, bool): st.env[I.res] = x if c else y; continue
                r = self.sel(st, I.ty, c, x, y)
                if r is NotImplemented:
                    # split the path
                    if is_sym(c):
                        s2 = st.fork(); s2.path.append(z3.Not(c)); s2.env[I.res] = y
                        st.path.append(c); st.env[I.res] = x
                        ok2 = True
                    else:
                        s2 = st.fork(); ok2 = c.assume(self, s2, False); s2.env[I.res] = y
                        if not c.assume(self, st, True):
                            if not ok2: return None
                            st = s2; ok2 = False
                        else: st.env[I.res] = x
                    if ok2:
                        r2 = self.exec_block(s2, b, insts, work, ii + 1)
                        if r2 is not None: work.append((r2[0], r2[1], b))
                    continue
                st.env[I.res] = r
                continue
            if op in ("call", "invoke"):
                r = self.call(st, I)
                if isinstance(r, str) and r == "THROW":
                    self.throws.append(st); return None
                if isinstance(r, list) and r and isinstance(r[0], State):
                    raise Unsupported("forking model")
                if I.res is not None: st.env[I.res] = r
                if op == "invoke": return st, I.a["normal"]
                continue
            self.step(st, I)
        raise Unsupported("block without terminator")

    def sel(self, st, ty, c, x, y):
        ty = self.mod.resolve(ty)
        if isinstance(c, bool): return x if c else y
        if ty.k == "int":
            if isinstance(x, (PDiff, tuple)) or isinstance(y, (PDiff, tuple)):
                if isinstance(x, PDiff) and not x.objs: x = x.off.expr()
                if isinstance(y, PDiff) and not y.objs: y = y.off.expr()
                if isinstance(x, (PDiff, tuple)) or isinstance(y, (PDiff, tuple)): return NotImplemented
            if isinstance(x, ZERO): x = 0
            if isinstance(y, ZERO): y = 0
            if not is_sym(c): return NotImplemented
            if ty.n == 1:
                if isinstance(x, int): x = bool(x)
                if isinstance(y, int): y = bool(y)
                return simp(z3.If(c, zb(x), zb(y)))
            if isinstance(x, bool): x = int(x)
            if isinstance(y, bool): y = int(y)
            return simp(z3.If(c, zi(x), zi(y)))
        if ty.k in ("double", "float") and is_sym(c) and self.real is RealZ3:
            return z3.If(c, x, y)
        if ty.k == "vec" and is_sym(c):
            return tuple(self.sel(st, ty.e, c, p, q) for p, q in zip(x, y))
        return NotImplemented

    def step(self, st, I):
        op = I.op
        if op in irparse.BIN:
            ty = self.mod.resolve(I.ty)
            st.env[I.res] = self.binop(st, I, ty, self.value(st, ty, I.a[0]), self.value(st, ty, I.a[1])); return
        if op == "icmp":
            ty = self.mod.resolve(I.ty)
            st.env[I.res] = self.icmp(st, ty, I.a[0], self.value(st, ty, I.a[1]), self.value(st, ty, I.a[2])); return
        if op == "fcmp":
            ty = self.mod.resolve(I.ty)
            a, b = self.value(st, ty, I.a[1]), self.value(st, ty, I.a[2])
            z = lambda v: self.real.const(0.0) if isinstance(v, ZERO) else v
            if ty.k == "vec": st.env[I.res] = tuple(self.real.cmp(I.a[0], z(x), z(y)) for x, y in zip(a, b))
            else: st.env[I.res] = self.real.cmp(I.a[0], z(a), z(b))
            return
        if op == "fneg":
            ty = self.mod.resolve(I.ty); a = self.value(st, ty, I.a[0])
            st.env[I.res] = tuple(-x for x in a) if ty.k == "vec" else (-a if not isinstance(a, ZERO) else a); return
        if op == "freeze":
            st.env[I.res] = self.value(st, I.ty, I.a[0]); return
        if op in irparse.CAST:
            sty, dty = self.mod.resolve(I.a[0]), self.mod.resolve(I.ty)
            st.env[I.res] = self.cast(st, op, I.flags, sty, dty, self.value(st, sty, I.a[1])); return
        if op == "getelementptr":
            bt, ops = I.a
            base = self.value(st, irparse.PTR, ops[0][1])
            st.env[I.res] = self.gep(st, bt, base, [(t, self.value(st, t, v)) for t, v in ops[1:]]); return
        if op == "load":
            p = self.value(st, irparse.PTR, I.a[0])
            v = self.load(st, p, I.ty)
            if isinstance(v, ZERO):
                v = self.zero_val(I.ty)
            st.env[I.res] = v; return
        if op == "store":
            v, p = self.value(st, I.ty, I.a[0]), self.value(st, irparse.PTR, I.a[1])
            self.store(st, p, I.ty, v); return
        if op == "alloca":
            t, n = I.a
            k = ("alloca", I.res); st.cnt[k] = st.cnt.get(k, 0) + 1
            o = Obj(f"local{I.res}#{st.cnt[k]}", "cells")
            cnt = self.value(st, irparse.INT(64), n)
            if is_sym(cnt):
                o = self.new_array(st, o.name, t, cnt)
            else:
                rt = self.mod.resolve(t)
                hint = self.alloca_hint and self.alloca_hint(I, rt)
                if self.mode == "cut" and (hint or (rt.k == "array" and self.mod.resolve(rt.e).k in ("int", "double") and rt.n > 1 and self.alloca_arr)):
                    o = self.new_array(st, o.name, rt.e, rt.n)
                else:
                    st.mem[o.key] = {}
            st.env[I.res] = Ptr(o); return
        if op == "extractvalue":
            v = self.value(st, I.ty, I.a[0])
            for i in I.a[1]: v = v[i]
            st.env[I.res] = v; return
        if op == "insertvalue":
            ty = self.mod.resolve(I.ty)
            v = self.value(st, ty, I.a[0]); e = self.value(st, I.a[1], I.a[2])
            def ins(v, path):
                v = list(v)
                v[path[0]] = e if len(path) == 1 else ins(v[path[0]], path[1:])
                return tuple(v)
            st.env[I.res] = ins(v, I.a[3]); return
        if op == "extractelement":
            ty = self.mod.resolve(I.ty); v = self.value(st, ty, I.a[0]); i = self.value(st, irparse.INT(64), I.a[1])
            if not isinstance(i, int): raise Unsupported("symbolic lane")
            st.env[I.res] = v[i]; return
        if op == "insertelement":
            ty = self.mod.resolve(I.ty); v = list(self.value(st, ty, I.a[0])); e = self.value(st, ty.e, I.a[1]); i = self.value(st, irparse.INT(64), I.a[2])
            v[i] = e; st.env[I.res] = tuple(v); return
        if op == "shufflevector":
            ty = self.mod.resolve(I.ty); v1, v2 = self.value(st, ty, I.a[0]), self.value(st, ty, I.a[1])
            m = I.a[3]
            n = self.mod.resolve(I.a[2]).n
            if m[0] == "zero": idx = [0] * n
            elif m[0] == "undef": idx = [0] * n
            else: idx = [x[1][1] if x[1][0] == "int" else 0 for x in m[1]]
            al = tuple(v1) + tuple(v2)
            st.env[I.res] = tuple(al[i] for i in idx); return
        if op == "landingpad":
            raise Unsupported("landingpad reached")
        raise Unsupported(op + ": " + I.text[:80])
    alloca_hint = None
    alloca_arr = True

    # ---------- loop cutting
    def header_vals(self, st, b, prev):
        vals = {}
        for I in self.f.blocks[b].insts:
            if I.op != "phi": break
            for v, pb in I.a:
                if pb == prev:
                    vals[I.res] = (I.ty, self.value(st, I.ty, v)); break
        return vals

    def arrive_entry(self, st, b, prev):
        vals = self.header_vals(st, b, prev)
        inst = HavocInst(b, len(self.instances)); self.instances.append(inst)
        arr = st
        inst.arrival_mem = {k: dict(c) for k, c in st.mem.items()}
        inst.arrival_vals = vals
        inst.arrival_path = list(st.path)
        st = st.fork()
        tag = f"L{b}_{inst.n}"
        ctx = LoopCtx(); ctx.inst = inst; ctx.header = b
        ctx.outer = [self.inst_of(st, h) for h in st.active]
        phiobj = {}
        for r, (ty, v) in vals.items():
            rt = self.mod.resolve(ty)
            if rt.k == "int":
                if rt.n == 1:
                    nv = z3.FreshBool(f"{tag}_{r}"); ctx.bools[r] = nv
                else:
                    if isinstance(v, PDiff):
                        if v.objs: raise Unsupported("ptrint phi")
                        v = v.off.expr()
                    nv = z3.FreshInt(f"{tag}_{r}"); ctx.ints[r] = nv; ctx.entry_ints[r] = zi(v) if not isinstance(v, bool) else zi(int(v))
                st.env[r] = nv
            elif rt.k in ("double",):
                nv = self.real.fresh(f"{tag}_{r}"); ctx.reals[r] = nv; st.env[r] = nv
            elif rt.k == "ptr":
                if not isinstance(v, Ptr) : raise Unsupported("phi ptr")
                if v.o is None or v.o.kind not in ("arr",):
                    # pointer that never moves?  keep symbolic equality obligation
                    inst.fixed = getattr(inst, "fixed", {}); inst.fixed[r] = v; st.env[r] = v; continue
                k = z3.FreshInt(f"{tag}_{r}"); S = v.o.stride
                sp = v.off.split(S)
                if sp is None: raise Unsupported("phi ptr align")
                st.env[r] = Ptr(v.o, Lin(sp[1]).add(S, k)); phiobj[r] = (v.o, S, sp[1])
                ctx.ints[r] = k; ctx.entry_ints[r] = zi(sp[0])
            elif rt.k == "vec":
                raise Unsupported("vector phi")
            else: raise Unsupported("phi type")
        inst.phiobj = phiobj
        # havoc memory modified in the loop
        for key, off in sorted(self.modset[b], key=str):
            if key not in st.mem: continue
            c = st.mem[key]
            if off is None:
                st.mem[key] = {f: z3.FreshConst(a.sort(), f"{tag}_{key}_") for f, a in c.items()}
            else:
                if off not in c: continue
                sz, v = c[off]
                d = dict(c)
                name = f"{tag}_{key}_{off}"
                if isinstance(v, ZERO): nv = None
                elif isinstance(v, Ptr):
                    if v.o is not None and v.o.kind == "arr":
                        k = z3.FreshInt(name); S = v.o.stride; sp = v.off.split(S)
                        nv = Ptr(v.o, Lin(sp[1]).add(S, k)); ctx.ints[f"{key}+{off}"] = k; ctx.entry_ints[f"{key}+{off}"] = zi(sp[0])
                        inst.cellptr = getattr(inst, "cellptr", {}); inst.cellptr[(key, off)] = (v.o, S, sp[1])
                    else:
                        inst.fixedcell = getattr(inst, "fixedcell", {}); inst.fixedcell[(key, off)] = v; nv = v
                elif isinstance(v, bool) or isinstance(v, z3.BoolRef): nv = z3.FreshBool(name); ctx.bools[f"{key}+{off}"] = nv
                elif isinstance(v, int) or (is_sym(v) and v.sort() == z3.IntSort()):
                    nv = z3.FreshInt(name); ctx.ints[f"{key}+{off}"] = nv; ctx.entry_ints[f"{key}+{off}"] = zi(v)
                elif is_sym(v) and v.sort() == z3.RealSort(): nv = self.real.fresh(name); ctx.reals[f"{key}+{off}"] = nv
                else: nv = None
                if nv is None: d.pop(off)
                else: d[off] = (sz, nv)
                st.mem[key] = d
        ctx.mem = {k: dict(c) for k, c in st.mem.items()}
        ctx.entry_mem = inst.arrival_mem
        ctx.st = st
        ctx.modified = {k for k, o in self.modset[b] if o is None}
        inst.ctx = ctx
        inst.cands = self.invariants(self, b, ctx) if self.invariants else {}
        # entry obligations
        ec = self.sub_ctx(ctx, vals, arr.mem, inst)
        self.entries.append((inst, list(arr.path), ec))
        st.path.append(InvMark(inst))
        st.ghost[("inst", b)] = inst
        return st

    def inst_of(self, st, h): return st.ghost.get(("inst", h))

    def sub_ctx(self, ctx, vals, mem, inst):
        c = LoopCtx(); c.inst, c.header, c.outer = inst, ctx.header, ctx.outer
        c.entry_ints, c.entry_mem, c.modified, c.st = ctx.entry_ints, ctx.entry_mem, ctx.modified, ctx.st
        for r in ctx.ints:
            if r in vals:
                v = vals[r][1]
                if isinstance(v, Ptr):
                    o, S, rem = inst.phiobj[r]
                    if v.o is not o: raise Unsupported("phi pointer changes object")
                    c.ints[r] = zi(v.off.plus(Lin(-rem)).div(S))
                else:
                    if isinstance(v, PDiff): v = v.off.expr()
                    if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                    c.ints[r] = zi(int(v) if isinstance(v, bool) else v)
            else:
                key, off = r.rsplit("+", 1); off = int(off)
                v = mem[key][off][1]
                if isinstance(v, ZERO): v = 0
                if isinstance(v, Ptr):
                    o, S, rem = inst.cellptr[(key, off)]
                    if v.o is not o: raise Unsupported("cell pointer changes object")
                    v = v.off.plus(Lin(-rem)).div(S)
                c.ints[r] = zi(v)
        for r in ctx.reals:
            if r in vals: v = vals[r][1]
            else:
                key, off = r.rsplit("+", 1); v = mem[key][int(off)][1]
            c.reals[r] = self.real.const(0.0) if isinstance(v, ZERO) else v
        for r in ctx.bools:
            if r in vals: v = vals[r][1]
            else:
                key, off = r.rsplit("+", 1); v = mem[key][int(off)][1]
            if isinstance(v, ZERO): v = False
            if isinstance(v, int): v = bool(v)
            c.bools[r] = zb(v)
        for r, v0 in getattr(inst, "fixed", {}).items():
            v = vals[r][1]
            if not (isinstance(v, Ptr) and v.o is v0.o and v.off.plus(v0.off.neg()).const() == 0): raise Unsupported("loop moves pointer into struct object")
        for (key, off), v0 in getattr(inst, "fixedcell", {}).items():
            v = mem[key][off][1]
            if not (isinstance(v, Ptr) and v.o is v0.o and v.off.plus(v0.off.neg()).const() == 0): raise Unsupported("loop changes pointer cell")
        c.mem = mem
        return c

    def arrive_back(self, st, b, prev):
        inst = st.ghost[("inst", b)]
        vals = self.header_vals(st, b, prev)
        bc = self.sub_ctx(inst.ctx, vals, st.mem, inst)
        self.backs.append((inst, list(st.path), bc))

class ZERO:
    """cell zeroed by memset; becomes the zero of whatever type it is read as"""
    def __init__(self, s): self.s = s
