"""Deductive engine for fixed-size real arithmetic: the real code is executed symbolically over exact rational functions,
every path to the end; a postcondition is a list of rational functions that must vanish identically."""
import time, random, itertools
from fractions import Fraction
import irparse, execu, build, poly, logic as L
from execu import Exec, State, Obj, Ptr, Lin, Unsupported
from core import call_native, ConS, ConP, ContractBase
from engb import new_state, Proof

class SetupA:
    """symbolic inputs; kinds: real scalar, positive real given as a square, cells array of reals, ints (constants)"""
    def __init__(self):
        self.F = poly.Field(); self.st = new_state(); self.args = []; self.v = {}; self.params = []; self.gens = []
        self.sym_of = {}
    def real(self, name):
        x = self.F.sym(name); self.v[name] = x; self.args.append(x)
        self.params.append(("val", name, "f64")); self.gens.append((name, "real", None)); return x
    def square(self, name):
        """a positive parameter, written as the square of a positive symbol (so that its root is rational)"""
        s = self.F.sym("q_" + name, positive=True); x = s * s; self.v[name] = x; self.args.append(x)
        self.params.append(("val", name, "f64")); self.gens.append((name, "square", None)); return x
    def pos(self, name):
        x = self.F.sym(name, positive=True); self.v[name] = x; self.args.append(x)
        self.params.append(("val", name, "f64")); self.gens.append((name, "pos", None)); return x
    def int(self, name, val):
        self.v[name] = val; self.args.append(val); self.params.append(("val", name, "i32")); self.gens.append((name, "int", val)); return val
    def boolean(self, name, val):
        self.v[name] = val; self.args.append(val); self.params.append(("val", name, "bool")); self.gens.append((name, "int", int(val))); return val
    def _cells(self, name, vals):
        o = Obj(name, "cells"); self.st.mem[o.key] = {8 * i: (8, x) for i, x in enumerate(vals)}
        self.args.append(Ptr(o)); self.params.append(("arr", name, "f64")); self.v[name] = vals; return vals
    def array(self, name, n):
        r = self._cells(name, [self.F.sym(f"{name}[{i}]") for i in range(n)]); self.gens.append((name, "array", n)); return r
    def squares(self, name, n):
        r = self._cells(name, [self.F.sym(f"q_{name}[{i}]", positive=True) * self.F.sym(f"q_{name}[{i}]", positive=True) for i in range(n)]); self.gens.append((name, "squares", n)); return r
    def symm(self, name, n):
        r = self._cells(name, [self.F.sym(f"{name}[{min(i,j)},{max(i,j)}]") for i in range(n) for j in range(n)]); self.gens.append((name, "symm", n)); return r
    def ints(self, name, vals):
        o = Obj(name, "cells"); self.st.mem[o.key] = {4 * i: (4, x) for i, x in enumerate(vals)}
        self.args.append(Ptr(o)); self.params.append(("arr", name, "i32")); self.v[name] = list(vals); self.gens.append((name, "ints", list(vals))); return vals
    def iout(self, name, n):
        o = Obj(name, "cells"); self.st.mem[o.key] = {}
        self.args.append(Ptr(o)); self.params.append(("arr", name, "i32")); self.gens.append((name, "iout", n)); return o
    def out(self, name, n):
        o = Obj(name, "cells"); self.st.mem[o.key] = {}
        self.args.append(Ptr(o)); self.params.append(("arr", name, "f64")); self.gens.append((name, "out", n)); return o

class PostA:
    def __init__(self, S, st, ret): self.S, self.st, self.ret = S, st, ret
    def arr(self, name):
        c = self.st.mem[name]; n = next(k for nm, kd, k in self.S.gens if nm == name) if True else 0
        kind = next(kd for nm, kd, k in self.S.gens if nm == name)
        m = len(self.S.v[name]) if name in self.S.v else n
        w = 4 if kind in ("ints", "iout") else 8
        def g(i):
            if w * i not in c: raise Unsupported(f"output {name}[{i}] never written")
            x = c[w * i][1]
            if isinstance(x, execu.ZERO): return self.S.F.const(0) if w == 8 else 0
            return x
        return [g(i) for i in range(m)]

class ContractA(ContractBase):
    engine = "A"
    tol = 1e-9
    ncases = (300, 20000)
    extra_zero = ()
    models = []
    def setup(self, S): raise NotImplementedError
    def post(self, S, P): raise NotImplementedError      # dict name -> list of values that must be 0
    def admissible(self, v): return True
    def nonzero(self, S): return []                      # assumed non-zero rational functions (preconditions)
    # ---- replay
    _ps = None
    def spec_setup(self):
        if self._ps is None:
            s = SetupA(); self.setup(s); self._ps = s
        return self._ps
    def gen(self, rng):
        s = self.spec_setup(); case = {}
        style = rng.random()
        def num():
            r = rng.random()
            if style < 0.25: return rng.choice([-2, -1, 0, 0, 1, 1, 2, 0.5, 3])
            if r < 0.12: return rng.choice([0, 1, -1, 2])
            return rng.randint(-32, 32) / 8
        for name, kind, n in s.gens:
            if kind == "real": case[name] = num()
            elif kind in ("square", "pos"): case[name] = rng.choice([1, 1, 4, 0.25, 9, 2.25, 2, 3])
            elif kind == "int": case[name] = n
            elif kind == "array": case[name] = [num() for _ in range(n)]
            elif kind == "squares": case[name] = [rng.choice([1, 1, 4, 0.25, 9, 2.25]) for _ in range(n)]
            elif kind == "symm":
                M = [[0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i, n): M[i][j] = M[j][i] = num()
                case[name] = [M[i][j] for i in range(n) for j in range(n)]
            elif kind == "ints": case[name] = list(n)
            elif kind == "iout": case[name] = [rng.randint(-5, 5) for _ in range(n)]
            elif kind == "out": case[name] = [rng.choice([7.5, -3.25]) for _ in range(n)]
        return case
    def cases(self, tier, rng):
        for _ in range(self.ncases[0 if tier == "quick" else 1]): yield self.gen(rng)
    def con_pre(self, case): return self.admissible(case)
    def con_check(self, case):
        s = self.spec_setup()
        ret, outs, ok = call_native(self.tu, self.fn, s.params, case, self.rety)
        if not ok: return "wrote outside its arguments"
        P = ConP(outs, ret)
        try: res = self.post(ConS(case), P)
        except ZeroDivisionError: return None
        mag = 1.0 + max([abs(x) for o in outs.values() for x in o if x == x and abs(x) < 1e300] + [0])
        for nm, zs in res.items():
            for i, z in enumerate(zs):
                if isinstance(z, bool):
                    if not z: return f"{nm}[{i}] is false"
                elif not (abs(z) <= self.tol * mag): return f"{nm}[{i}]: residual {z!r} (must be 0)"
        return None

def prove(c, verbose=False):
    pr = Proof(c.name); t0 = time.time()
    L.mode = "sym"
    S = SetupA(); c.setup(S)
    ir = build.reduce_ir(c.tu, c.entries(), c.unroll_ir, opaque=c.opaque)
    mod = irparse.parse_cached(ir)
    ex = Exec(mod, c.fn, real=S.F, mode="unroll", models=list(c.models))
    ex.ovf = False
    if hasattr(c, "configure"): c.configure(ex, S)
    ex.run(S.args, S.st)
    pr.nret, pr.nthrow = len(ex.rets), len(ex.throws)
    pr.reach = len(ex.rets)
    pr.counter = []
    for o in ex.obls:
        pr.obls.append((f"{c.name}: {o.kind}: {o.name}", o.kind, "unknown", "none", 0.0, None))
    for i in range(len(ex.throws)):
        pr.obls.append((f"{c.name}: reaches an error exit", "throw", "unknown", "none", 0.0, None))
    for i, (st, ret) in enumerate(ex.rets):
        for nm, kd, k in S.gens:           # frame: nothing written outside the arguments
            if kd in ("real", "square", "pos", "int"): continue
            w = 4 if kd in ("ints", "iout") else 8
            n = len(S.v[nm]) if nm in S.v else k
            stray = [o for o in st.mem.get(nm, {}) if not 0 <= o <= w * (n - 1)]
            pr.obls.append((f"{c.name}: writes stay inside {nm} (path {i})", "memory", "sat" if stray else "unsat", "offset comparison", 0.0, f"offsets {stray[:5]}" if stray else None))
        for nm, zs in c.post(S, PostA(S, st, ret)).items():
            for j, z in enumerate(zs):
                t = time.time()
                if isinstance(z, bool): ok = z
                elif isinstance(z, (int, float, Fraction)): ok = z == 0
                elif isinstance(z, poly.R): ok = S.F.is_zero(z, st)
                else: raise Unsupported("postcondition value " + str(type(z)))
                det = None
                if not ok:
                    det = "path " + "; ".join(f"sign({q}) in {sorted(s)}" for s, q in st.ghost.get("signs", {}).values()) + f"; residual {z}"
                pr.obls.append((f"{c.name}: {nm}[{j}] (path {i})", "post", "unsat" if ok else "sat", "polynomial normal form", time.time() - t, det))
    pr.divs = len({tuple(sorted(d.d.items())) for d in S.F.divs if d.const() is None})
    pr.trusted, pr.externals = ex.trusted_calls, ex.externals
    pr.inductive = 0
    pr.time = time.time() - t0
    return pr

# ---------------------------------------------------------------- small dense algebra over any scalars
def M(v, n, m, off=0): return [[v[off + m * i + j] for j in range(m)] for i in range(n)]
def mm(A, B): 
    out = []
    for r in A:
        row = []
        for j in range(len(B[0])):
            s = 0
            for k, x in enumerate(r):
                t = B[k][j]
                if isinstance(x, int) and x == 0 or isinstance(t, int) and t == 0: continue
                p = t if (isinstance(x, int) and x == 1) else x if (isinstance(t, int) and t == 1) else x * t
                s = p if (isinstance(s, int) and s == 0) else s + p
            row.append(s)
        out.append(row)
    return out
def T(A): return [list(r) for r in zip(*A)]
def add(A, B, a=1, b=1): return [[a * x + b * y for x, y in zip(r, s)] for r, s in zip(A, B)]
def scal(a, A): return [[a * x for x in r] for r in A]
def flat(A): return [x for r in A for x in r]
def diff(A, B): return [x - y for x, y in zip(flat(A), flat(B))]
def eye(n, d=1): return [[d if i == j else 0 for j in range(n)] for i in range(n)]
def sub(A, r0, r1, c0, c1): return [r[c0:c1] for r in A[r0:r1]]
