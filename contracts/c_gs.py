"""P09: Gauss-Seidel sweeps.  The sweep is specified by ghost functions defined by recursion over rows and row entries:
XN(c)   the new value of entry c,
G(c,q)  the partial product of row c with the vector as it is when row c is updated, over the entries before position q,
R(c,q,d) the residual entry d while row c is processed, after the entries before position q."""
from engb import *
from execu import NULL
import logic as L, itertools
TU = "gs"
OPQ = [x for x in models.OPAQUE if "MemoryTracer" not in x] + [r"^_ZNK6ngcore8BitArray4TestEm$", r"^_ZN6ngcore11RegionTimer.*", r"^_ZN6ngcore5TimerI.*", r"^_ZNSt7__cxx119to_string.*", r"^_ZStplIc.*", r"^_ZNKSt7__cxx1112basic_string.*", r"^_ZNSt7__cxx1112basic_string.*"]
BIG = 2**20
FREE = z3.Function("FREE", z3.IntSort(), z3.BoolSort())
def names(ex, st, name, args, I):
    """strings only name timers and memory blocks"""
    if not name.startswith(("_ZNSt7__cxx1112basic_string", "_ZNKSt7__cxx1112basic_string")): return NotImplemented
    return None if I.ty.k == "void" else NULL if I.ty.k == "ptr" else 0
def bittest(ex, st, name, args, I):
    if name != "_ZNK6ngcore8BitArray4TestEm": return NotImplemented
    this, i = args
    ex.oblige(st, "bounds", "bit index below the size of the bit array", z3.And(zi(i) >= 0, zi(i) < zi(ex.load(st, Ptr(this.o, this.off), I64))))
    return FREE(zi(i))
def prefetch(ex, st, name, args, I):
    if "11PrefetchRowEm" not in name: return NotImplemented
    ex.oblige(st, "bounds", "prefetched row exists", z3.And(zi(args[1]) >= 0, zi(args[1]) < 2**31)); return None
def rl(nm): return z3.Function(nm, z3.IntSort(), z3.RealSort())
def rl2(nm): return z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.RealSort())
def rl3(nm): return z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
class GS(Contract):
    tu = TU; opaque = OPQ; rety = None; weight = 4; limit = 400; replay_s = 6
    def __init__(self, N, bw, res, fds):
        self.N, self.bw, self.res, self.fds = N, bw, res, fds
        self.fn = "h_" + ("r" if res else "") + ("b" if bw else "f") + ("f" if fds else "") + str(N)
        if not res: self.fn = "h_" + ("b" if bw else "f") + ("f" if fds else "") + str(N)
        self.name = f"GSS3.{'residual' if res else 'rhs'}.{'backward' if bw else 'forward'}.{'free' if fds else 'all'}.{N}"
        self.subject = f"GSS3<{'double' if N == 1 else f'Mat<{N},{N}>'}>::Smooth{'RES' if res else 'RHS'}Internal"
        self.writes = ("x", "b") if res else ("x",)
    def models(self, S): return [bittest, names, prefetch]
    def setup(self, S):
        N = self.N
        S.int("n", 0, BIG); n = S.v["n"]
        for k in ("first", "next", "ff", "nf"): S.int(k, 0, BIG)
        S.int("nb", 0, BIG); S.array("bits", I8, lambda v: v["nb"])
        vec = lambda nm, m, l: S.records(nm, 8 * m, {8 * i: (F64, str(i)) for i in range(m)}, l)
        vec("x", N, lambda v: v["n"]); vec("b", N, lambda v: v["n"]); vec("dinv", N * N, lambda v: v["n"])
        S.array("fi", I64, lambda v: v["n"] + 1); S.int("nze", 0, BIG); S.array("col", I32, lambda v: v["nze"]); vec("val", N * N, lambda v: v["nze"])
    # accessors (symbolic)
    def g(self, S, nm, i): return S.v[f"{nm}.{i}"]
    def inr(self, v, c):
        lo = z3.If(v["first"] > v["ff"], v["first"], v["ff"]); hi = z3.If(v["next"] < v["nf"], v["next"], v["nf"])
        r = z3.And(c >= lo, c < hi)
        return z3.And(r, FREE(c)) if self.fds else r
    def before(self, d, c): return d > c if self.bw else d < c
    def pre(self, S):
        v = S.v; n, fi, col = v["n"], v["fi"], v["col"]
        if L.mode == "con": return {"": True}
        N = self.N; c, q, d = z3.Ints("gc gq gd"); R = range(N)
        out = {"rows are consecutive": z3.ForAll([c, d], z3.Implies(z3.And(0 <= c, c <= d, d <= n), z3.And(0 <= fi[c], fi[c] <= fi[d], fi[d] <= v["nze"])), patterns=[L.MP(fi[c], fi[d])]),
               "columns": z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < v["nze"]), z3.And(0 <= col[q], col[q] < n)), patterns=[col[q]]),
               "range": z3.And(v["next"] <= n, v["nf"] <= n, v["first"] <= n, v["ff"] <= n, v["nb"] * 8 >= n)}
        x, b, di, va = (lambda i: self.g(S, "x", i)), (lambda i: self.g(S, "b", i)), (lambda i, j: self.g(S, "dinv", i * N + j)), (lambda i, j: self.g(S, "val", i * N + j))
        sm = lambda l: l[0] if len(l) == 1 else z3.Sum(*l)
        if not self.res:
            XN, G = [rl(f"XN{i}") for i in R], [rl2(f"G{i}") for i in R]
            cur = lambda j, c, e: z3.If(self.before(e, c), XN[j](e), x(j)[e])
            for i in R:
                out[f"def XN{i}"] = z3.ForAll([c], XN[i](c) == z3.If(self.inr(v, c), x(i)[c] + sm([di(i, j)[c] * (b(j)[c] - G[j](c, fi[c + 1])) for j in R]), x(i)[c]), patterns=[XN[i](c)])
                out[f"def G{i} first"] = z3.ForAll([c], G[i](c, fi[c]) == 0, patterns=[G[i](c, fi[c])])
                out[f"def G{i}"] = z3.ForAll([c, q], z3.Implies(z3.And(fi[c] <= q, q < fi[c + 1]), G[i](c, q + 1) == G[i](c, q) + sm([va(i, j)[q] * cur(j, c, col[q]) for j in R])), patterns=[L.MP(G[i](c, q), va(i, 0)[q])])
        else:
            XN, P, Q, E, W = [rl(f"XN{i}") for i in R], [rl2(f"P{i}") for i in R], [rl3(f"Q{i}") for i in R], [rl2(f"E{i}") for i in R], [rl(f"W{i}") for i in R]
            step = -1 if self.bw else 1
            lo, hi = self.lohi(v)
            for i in R:
                out[f"def W{i}"] = z3.ForAll([c], W[i](c) == sm([di(i, j)[c] * P[j](c, c) for j in R]), patterns=[W[i](c)])
                out[f"def XN{i}"] = z3.ForAll([c], XN[i](c) == z3.If(self.inr(v, c), x(i)[c] + W[i](c), x(i)[c]), patterns=[XN[i](c)])
                out[f"def P{i} first"] = z3.ForAll([c, d], z3.Implies(c >= hi - 1 if self.bw else c <= lo, P[i](c, d) == b(i)[d]), patterns=[P[i](c, d)])
                pt = [E[i](c, d)] + ([L.MP(P[i](c, d), FREE(c))] if self.fds else [])
                out[f"def P{i}"] = z3.ForAll([c, d], z3.Implies(z3.And(lo <= c, c < hi), P[i](c + step, d) == z3.If(self.inr(v, c), E[i](c, d), P[i](c, d))), patterns=pt)
                out[f"def E{i}"] = z3.ForAll([c, q, d], z3.Implies(q == fi[c + 1], E[i](c, d) == Q[i](c, q, d)), patterns=[Q[i](c, q, d)])
                out[f"def Q{i} first"] = z3.ForAll([c, d], Q[i](c, fi[c], d) == P[i](c, d), patterns=[Q[i](c, fi[c], d)])
                out[f"def Q{i}"] = z3.ForAll([c, q, d], z3.Implies(z3.And(fi[c] <= q, q < fi[c + 1]), Q[i](c, q + 1, d) == Q[i](c, q, d) - z3.If(col[q] == d, sm([va(j, i)[q] * di(j, l)[c] * P[l](c, c) for j in R for l in R]), 0)), patterns=[L.MP(Q[i](c, q, d), col[q])])
        return out
    def lohi(self, v): return z3.If(v["first"] > v["ff"], v["first"], v["ff"]), z3.If(v["next"] < v["nf"], v["next"], v["nf"])
    def invariants(self, S, ctx, terms):
        v = S.v; N = self.N; R = range(N); out = {}
        XN, G = [rl(f"XN{i}") for i in R], [rl2(f"G{i}") for i in R]
        rows = {**{n: (lambda c, n=n: c.ints[n]) for n in ctx.ints}}
        for oi, inst in enumerate(ctx.outer):
            if inst is None: continue
            for k, xx in enumerate(inst.ctx.ints.values()): rows[f"o{oi}.{k}"] = lambda c, xx=xx: xx
        lo = z3.If(v["first"] > v["ff"], v["first"], v["ff"])
        rows["lo"] = lambda c: lo
        hi = z3.If(v["next"] < v["nf"], v["next"], v["nf"])
        for n in ctx.ints:
            for d in (0, 1):
                out[f"range {n} {d}"] = lambda c, n=n, d=d: z3.Or(c.ints[n] >= lo + d, c.ints[n] >= hi)
        k = z3.Int("ik")
        for nm, g in rows.items():
            for d in (-1, 0, 1):
                for n in ctx.ints:
                    if n == nm or not (ctx.reals or self.res): continue
                    out[f"row<= {nm}{d:+d} {n}"] = lambda c, g=g, d=d, n=n: z3.And(v["fi"][g(c) + d] <= c.ints[n], c.ints[n] <= v["fi"][g(c) + d + 1])
        for nm, g in rows.items():
            for d in (-1, 0, 1):
                for i in R:
                    def inv(c, g=g, d=d, i=i):
                        X = c.mem["x"][8 * i]; m = g(c) + d
                        return L._all([k], z3.Implies(z3.And(0 <= k, k < v["n"]), X[k] == z3.If(k > m if self.bw else k < m, XN[i](k), v[f"x.{i}"][k])), [X[k]])
                    out[f"done{i} {nm}{d:+d}"] = inv
                    if self.res:
                        def rinv(c, g=g, d=d, i=i):
                            B = c.mem["b"][8 * i]
                            return L._all([k], z3.Implies(z3.And(0 <= k, k < v["n"]), B[k] == rl2(f"P{i}")(g(c) + d, k)), [B[k]])
                        out[f"res{i} {nm}{d:+d}"] = rinv
                        for n in ctx.ints:
                            if n == nm: continue
                            def qinv(c, g=g, d=d, i=i, n=n):
                                B = c.mem["b"][8 * i]
                                return L._all([k], z3.Implies(z3.And(0 <= k, k < v["n"]), B[k] == rl3(f"Q{i}")(g(c) + d, c.ints[n], k)), [B[k]])
                            out[f"part{i} {nm}{d:+d} {n}"] = qinv
                for r in ctx.reals if not self.res else ():
                    for n in ctx.ints:
                        if n == nm: continue
                        for i in R: out[f"sum{i} {r} {nm}{d:+d} {n}"] = lambda c, g=g, d=d, i=i, r=r, n=n: c.reals[r] == G[i](g(c) + d, c.ints[n])
        return out
    def post(self, S, P):
        if L.mode == "con": return self.con_post(S, P)
        v = S.v; N = self.N; d = {}; k = z3.Int("pk")
        lo, hi = self.lohi(v)
        if self.res:
            for i in range(N):
                B = P.arr("b", 8 * i); e = z3.If(lo < hi, lo, hi) - 1 if self.bw else z3.If(lo < hi, hi, lo)
                d[f"the residual is updated for every change ({i})"] = L._all([k], z3.Implies(z3.And(0 <= k, k < v["n"]), B[k] == rl2(f"P{i}")(e, k)), [B[k]])
        if True:
            for i in range(N):
                X = P.arr("x", 8 * i)
                d[f"every entry has its Gauss-Seidel value ({i})"] = L._all([k], z3.Implies(z3.And(0 <= k, k < v["n"]), X[k] == rl(f"XN{i}")(k)), [X[k]])
        return d
    def con_post(self, S, P):
        v = S.v; N = self.N; n = v["n"]; R = range(N)
        x = [list(v["x"][N * k:N * k + N]) for k in range(n)]; b = [list(v["b"][N * k:N * k + N]) for k in range(n)]
        lo, hi = max(v["first"], v["ff"]), min(v["next"], v["nf"])
        rows = range(lo, hi)
        for k in (reversed(rows) if self.bw else rows):
            if self.fds and not (v["bits"][k // 8] & 255) >> (k % 8) & 1: continue
            sweep_row(v, N, k, k, x, b, self.res)
        fl = lambda m: [y for r in m for y in r]
        d = {"every entry has its Gauss-Seidel value": list(P.arr("x")) == fl(x)}
        if self.res: d["the residual is updated for every change"] = list(P.arr("b")) == fl(b)
        return d
    def gen_cases(self, tier, rng):
        N = self.N
        while True:
            n = rng.choice((0, 1, 2, 3, 4, 5, 9)); c = {"n": n}
            rv = lambda m: [rng.randint(-2, 2) for _ in range(m)]
            for k in ("first", "ff"): c[k] = rng.choice((0, 0, rng.randint(0, n)))
            for k in ("next", "nf"): c[k] = rng.choice((n, n, rng.randint(0, n)))
            c["nb"] = n // 8 + 1; c["bits"] = [rng.randint(-128, 127) for _ in range(c["nb"])]
            c["x"] = rv(N * n); c["b"] = rv(N * n); c["dinv"] = rv(N * N * n)
            fi = [0]; col = []
            for k in range(n):
                cs = sorted(rng.sample(range(n), rng.randint(0, min(n, 4)))); col += cs; fi.append(len(col))
            c["fi"] = fi; c["nze"] = len(col); c["col"] = col; c["val"] = rv(N * N * len(col))
            yield c
MEM = z3.Function("MEM", z3.IntSort(), z3.BoolSort()); POS = z3.Function("POS", z3.IntSort(), z3.IntSort())
class GS4(Contract):
    """rows of the compressed matrix belong to pairwise different entries xd[row]; MEM/POS: membership in xd and its inverse"""
    tu = TU; opaque = OPQ; rety = None; weight = 4; limit = 400; replay_s = 6
    def __init__(self, N, bw, res):
        self.N, self.bw, self.res = N, bw, res
        self.fn = f"h4_{'r' if res else ''}{'b' if bw else 'f'}{N}"
        self.name = f"GSS4.{'residual' if res else 'rhs'}.{'backward' if bw else 'forward'}.{N}"
        self.subject = f"GSS4<{'double' if N == 1 else f'Mat<{N},{N}>'}>::Smooth{'RES' if res else 'RHS'}Internal"
        self.writes = ("x", "b") if res else ("x",)
    def models(self, S): return [names, prefetch]
    def setup(self, S):
        N = self.N
        S.int("nx", 0, BIG); S.int("n", 0, BIG); S.array("xd", I32, lambda v: v["nx"])
        vec = lambda nm, m, l: S.records(nm, 8 * m, {8 * i: (F64, str(i)) for i in range(m)}, l)
        vec("x", N, lambda v: v["n"]); vec("b", N, lambda v: v["n"]); vec("dinv", N * N, lambda v: v["nx"])
        S.array("fi", I64, lambda v: v["nx"] + 1); S.int("nze", 0, BIG); S.array("col", I32, lambda v: v["nze"]); vec("val", N * N, lambda v: v["nze"])
    def g(self, S, nm, i): return S.v[f"{nm}.{i}"]
    def pre(self, S):
        v = S.v; nx, n, fi, col, xd = v["nx"], v["n"], v["fi"], v["col"], v["xd"]
        if L.mode == "con": return {"": True}
        N = self.N; c, q, d = z3.Ints("gc gq gd"); R = range(N)
        ok = lambda c: z3.And(0 <= c, c < nx)
        out = {"rows are consecutive": z3.ForAll([c, d], z3.Implies(z3.And(0 <= c, c <= d, d <= nx), z3.And(0 <= fi[c], fi[c] <= fi[d], fi[d] <= v["nze"])), patterns=[L.MP(fi[c], fi[d])]),
               "columns": z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < v["nze"]), z3.And(0 <= col[q], col[q] < n)), patterns=[col[q]]),
               "entries of the rows": z3.ForAll([c], z3.Implies(ok(c), z3.And(0 <= xd[c], xd[c] < n, MEM(xd[c]), POS(xd[c]) == c)), patterns=[xd[c]]),
               "inverse": z3.ForAll([d], z3.Implies(MEM(d), z3.And(ok(POS(d)), xd[POS(d)] == d)), patterns=[MEM(d)])}
        x, b, di, va = (lambda i: self.g(S, "x", i)), (lambda i: self.g(S, "b", i)), (lambda i, j: self.g(S, "dinv", i * N + j)), (lambda i, j: self.g(S, "val", i * N + j))
        sm = lambda l: l[0] if len(l) == 1 else z3.Sum(*l)
        bef = lambda e, c: z3.And(MEM(e), POS(e) > c if self.bw else POS(e) < c)
        XN = [rl(f"XN{i}") for i in R]; p = POS(d)
        if not self.res:
            G = [rl2(f"G{i}") for i in R]
            cur = lambda j, c, e: z3.If(bef(e, c), XN[j](e), x(j)[e])
            for i in R:
                out[f"def XN{i}"] = z3.ForAll([d], XN[i](d) == z3.If(MEM(d), x(i)[d] + sm([di(i, j)[p] * (b(j)[d] - G[j](p, fi[p + 1])) for j in R]), x(i)[d]), patterns=[XN[i](d)])
                out[f"def G{i} first"] = z3.ForAll([c], G[i](c, fi[c]) == 0, patterns=[G[i](c, fi[c])])
                out[f"def G{i}"] = z3.ForAll([c, q], z3.Implies(z3.And(fi[c] <= q, q < fi[c + 1]), G[i](c, q + 1) == G[i](c, q) + sm([va(i, j)[q] * cur(j, c, col[q]) for j in R])), patterns=[L.MP(G[i](c, q), va(i, 0)[q])])
        else:
            P, Q, E, W = [rl2(f"P{i}") for i in R], [rl3(f"Q{i}") for i in R], [rl2(f"E{i}") for i in R], [rl(f"W{i}") for i in R]
            step = -1 if self.bw else 1
            for i in R:
                out[f"def W{i}"] = z3.ForAll([c], W[i](c) == sm([di(i, j)[c] * P[j](c, xd[c]) for j in R]), patterns=[W[i](c)])
                out[f"def XN{i}"] = z3.ForAll([d], XN[i](d) == z3.If(MEM(d), x(i)[d] + W[i](p), x(i)[d]), patterns=[XN[i](d)])
                out[f"def P{i} first"] = z3.ForAll([c, d], z3.Implies(c >= nx - 1 if self.bw else c <= 0, P[i](c, d) == b(i)[d]), patterns=[P[i](c, d)])
                out[f"def P{i}"] = z3.ForAll([c, d], z3.Implies(ok(c), P[i](c + step, d) == E[i](c, d)), patterns=[E[i](c, d)])
                out[f"def E{i}"] = z3.ForAll([c, q, d], z3.Implies(q == fi[c + 1], E[i](c, d) == Q[i](c, q, d)), patterns=[Q[i](c, q, d)])
                out[f"def Q{i} first"] = z3.ForAll([c, d], Q[i](c, fi[c], d) == P[i](c, d), patterns=[Q[i](c, fi[c], d)])
                out[f"def Q{i}"] = z3.ForAll([c, q, d], z3.Implies(z3.And(fi[c] <= q, q < fi[c + 1]), Q[i](c, q + 1, d) == Q[i](c, q, d) - z3.If(col[q] == d, sm([va(j, i)[q] * di(j, l)[c] * P[l](c, xd[c]) for j in R for l in R]), 0)), patterns=[L.MP(Q[i](c, q, d), col[q])])
        return out
    def invariants(self, S, ctx, terms):
        v = S.v; N = self.N; R = range(N); out = {}; XN = [rl(f"XN{i}") for i in R]
        rows = {**{n: (lambda c, n=n: c.ints[n]) for n in ctx.ints}}
        for oi, inst in enumerate(ctx.outer):
            if inst is None: continue
            for k, xx in enumerate(inst.ctx.ints.values()): rows[f"o{oi}.{k}"] = lambda c, xx=xx: xx
        k = z3.Int("ik"); rng = z3.And(0 <= k, k < v["n"])
        for nm, g in rows.items():
            for d in (-1, 0, 1):
                for n in ctx.ints:
                    if n != nm: out[f"row<= {nm}{d:+d} {n}"] = lambda c, g=g, d=d, n=n: z3.And(v["fi"][g(c) + d] <= c.ints[n], c.ints[n] <= v["fi"][g(c) + d + 1])
                for i in R:
                    def inv(c, g=g, d=d, i=i):
                        X = c.mem["x"][8 * i]; m = g(c) + d
                        return L._all([k], z3.Implies(rng, X[k] == z3.If(z3.And(MEM(k), POS(k) > m if self.bw else POS(k) < m), XN[i](k), v[f"x.{i}"][k])), [X[k]])
                    out[f"done{i} {nm}{d:+d}"] = inv
                    if self.res:
                        def rinv(c, g=g, d=d, i=i):
                            B = c.mem["b"][8 * i]
                            return L._all([k], z3.Implies(rng, B[k] == rl2(f"P{i}")(g(c) + d, k)), [B[k]])
                        out[f"res{i} {nm}{d:+d}"] = rinv
                    for n in ctx.ints:
                        if n == nm: continue
                        if self.res:
                            def qinv(c, g=g, d=d, i=i, n=n):
                                B = c.mem["b"][8 * i]
                                return L._all([k], z3.Implies(rng, B[k] == rl3(f"Q{i}")(g(c) + d, c.ints[n], k)), [B[k]])
                            out[f"part{i} {nm}{d:+d} {n}"] = qinv
                        else:
                            for r in ctx.reals: out[f"sum{i} {r} {nm}{d:+d} {n}"] = lambda c, g=g, d=d, i=i, r=r, n=n: c.reals[r] == rl2(f"G{i}")(g(c) + d, c.ints[n])
        return out
    def post(self, S, P):
        if L.mode == "con": return self.con_post(S, P)
        v = S.v; N = self.N; d = {}; k = z3.Int("pk"); rng = z3.And(0 <= k, k < v["n"])
        for i in range(N):
            if self.res:
                B = P.arr("b", 8 * i); d[f"the residual is updated for every change ({i})"] = L._all([k], z3.Implies(rng, B[k] == rl2(f"P{i}")(-1 if self.bw else v["nx"], k)), [B[k]])
            X = P.arr("x", 8 * i); d[f"every entry has its Gauss-Seidel value ({i})"] = L._all([k], z3.Implies(rng, X[k] == rl(f"XN{i}")(k)), [X[k]])
        return d
    def con_post(self, S, P):
        v = S.v; N = self.N; n, nx = v["n"], v["nx"]; R = range(N)
        x = [list(v["x"][N * k:N * k + N]) for k in range(n)]; b = [list(v["b"][N * k:N * k + N]) for k in range(n)]
        for c in (range(nx - 1, -1, -1) if self.bw else range(nx)):
            sweep_row(v, N, c, v["xd"][c], x, b, self.res)
        fl = lambda m: [y for r in m for y in r]
        d = {"every entry has its Gauss-Seidel value": list(P.arr("x")) == fl(x)}
        if self.res: d["the residual is updated for every change"] = list(P.arr("b")) == fl(b)
        return d
    def gen_cases(self, tier, rng):
        N = self.N
        while True:
            n = rng.choice((0, 1, 2, 3, 4, 5, 9)); nx = rng.randint(0, n); xd = sorted(rng.sample(range(n), nx)); c = {"nx": nx, "n": n, "xd": xd}
            rv = lambda m: [rng.randint(-2, 2) for _ in range(m)]
            c["x"] = rv(N * n); c["b"] = rv(N * n); c["dinv"] = rv(N * N * nx); fi = [0]; col = []
            for k in range(nx): col += sorted(rng.sample(range(n), rng.randint(0, min(n, 4)))); fi.append(len(col))
            c["fi"] = fi; c["nze"] = len(col); c["col"] = col; c["val"] = rv(N * N * len(col))
            yield c
def sweep_row(v, N, c, k, x, b, res):
    """one Gauss-Seidel step: row c of the matrix, entry k of the vectors"""
    R = range(N); D = v["dinv"][N * N * c:N * N * (c + 1)]
    ent = range(v["fi"][c], v["fi"][c + 1]); M = lambda q, i, j: v["val"][N * N * q + N * i + j]
    if res:
        w = [sum(D[N * i + j] * b[k][j] for j in R) for i in R]
        for q in ent:
            for i in R: b[v["col"][q]][i] -= sum(M(q, j, i) * w[j] for j in R)
    else:
        r = [b[k][i] - sum(M(q, i, j) * x[v["col"][q]][j] for q in ent for j in R) for i in R]
        w = [sum(D[N * i + j] * r[j] for j in R) for i in R]
    for i in R: x[k][i] += w[i]
def contracts_P09():
    import c_smooth
    return c_smooth.contracts_api() + [GS(N, bw, res, fds) for N in (1, 2, 3) for res in (False, True) for bw in (False, True) for fds in (False, True)] + [GS4(N, bw, res) for N in (1, 2, 3) for res in (False, True) for bw in (False, True)]
