"""P19: prolongations keep the near-kernel, coarse energies are the Galerkin energies (bounded: np <= 4 ranks over an in-process message passing with seeded schedules)."""
from engb import I32, I8, F64
from c_mesh import B as MB, gargs, gmesh, expected
import numpy as np
BS = (1, 2, 3, 6); TOL = 1e-7
def tq(D, si, sj, t):
    """rigid body mode at i (scale si), seen at a point displaced by t (scale sj)"""
    n = BS[D]; Q = np.eye(n); d = D
    if D == 2: Q[2, 2] = si / sj; Q[0, 2] = -si * t[1]; Q[1, 2] = si * t[0]
    if D == 3:
        Q[3:, 3:] *= si / sj; Q[1, 5] = si * t[0]; Q[2, 4] = -si * t[0]; Q[2, 3] = si * t[1]; Q[0, 5] = -si * t[1]; Q[0, 4] = si * t[2]; Q[1, 3] = -si * t[2]
    return Q
def Qab(D, a, b): return np.eye(BS[D]) if D < 2 else tq(D, a["rot"], b["rot"], b["pos"] - a["pos"])
def mid(D, a, b):
    if D < 2: return a
    x, y = np.sqrt(a["rot"]), np.sqrt(b["rot"]); l = y / (x + y); return dict(pos=(1 - l) * a["pos"] + l * b["pos"], rot=x * y)
def ahat(D, V, E):
    """energy of vertex weights and edges {(i, j): matrix at the midpoint}"""
    n = BS[D]; A = np.zeros((len(V) * n, len(V) * n)); s = lambda i: slice(i * n, i * n + n)
    for i, x in enumerate(V): A[s(i), s(i)] += x["wt"]
    for (i, j), M in E: addedge(A, D, V, i, j, M)
    return A
def addedge(A, D, V, i, j, M):
    n = BS[D]; m = mid(D, V[i], V[j]); T = np.zeros((n, len(V) * n)); T[:, i * n:i * n + n] = Qab(D, V[i], m); T[:, j * n:j * n + n] = -Qab(D, V[j], m); A += T.T @ M @ T
class Rd:
    def __init__(self, a): self.a, self.i = a, 0
    def n(self): x = int(self.a[self.i]); self.i += 1; return x
    def l(self): k = self.n(); x = [int(y) for y in self.a[self.i:self.i + k]]; self.i += k; return x
    def m(self, n): x = np.array(self.a[self.i:self.i + n * n]).reshape(n, n); self.i += n * n; return x
    def f(self, k): x = np.array(self.a[self.i:self.i + k]); self.i += k; return x
def rmesh(q):
    n = q.n(); qs = [(q.l(), q.l()) for _ in range(n)]; return dict(dps=[x for x, _ in qs], mem=[x for _, x in qs], e=[(q.n(), q.n()) for _ in range(q.n())])
def rspm(q, b): h, w = q.n(), q.n(); return h, w, [[(q.n(), q.m(b)) for _ in range(q.n())] for _ in range(h)]
def dec(P, np):
    o, r, i = P.arr("o"), [], 0
    for _ in range(np): n = int(o[i]); r.append([float(x) for x in o[i + 1:i + 1 + n]]); i += n + 1
    return r
KIND = ("h1.dim1", "h1.dim2", "elasticity.dim2", "elasticity.dim3")
class Prol(MB):
    tu = "prol"; writes = ("o",); fn = "p_prol"; cap = 1500; replay_s = 20
    def __init__(self, kind, alg, typ):
        self.kind, self.alg, self.typ = kind, alg, typ; self.name = f"{KIND[kind]}.{('MIS', 'SPW')[alg]}.{('piecewise', 'aux', 'semiaux')[typ]}"
        self.subject = ("PWProlMap", "AuxSProlMap", "SemiAuxSProlMap")[typ] + f", map_data, AssembleAhatSparse ({KIND[kind]}), {('MIS', 'SPW')[alg]} agglomerates"
        self.__doc__ = "the prolongation keeps the near-kernel and is alike on all ranks; the coarse energy is the Galerkin energy of the fine one"
    def setup(self, S):
        gargs(S)
        for x in ("kind", "alg", "K"): S.int(x)
        S.array("pos", I32, lambda v: 3 * v["nv"]); S.array("rot", I32, lambda v: v["nv"]); S.array("vw", I32, lambda v: v["nv"] * v["np"]); S.array("vf", I32, lambda v: 6 * v["nv"]); S.array("ew", I32, lambda v: v["ne"] * v["np"]); S.array("ef", I32, lambda v: 36 * v["ne"]); S.boolean("free"); S.array("fv", I8, lambda v: v["nv"])
        S.int("nx"); S.array("xe", I32, lambda v: 2 * v["nx"]); S.array("xr", I32, lambda v: v["nx"]); S.array("xw", I32, lambda v: v["nx"]); S.array("xf", I32, lambda v: 36 * v["nx"]); S.int("nopt"); S.array("opt", I32, lambda v: v["nopt"]); S.int("no"); S.array("o", F64, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        n = BS[self.kind]
        while True:
            c = gmesh(rng, rng.choice((6, 10, 16) if n > 3 else (8, 16, 24)))
            if c["np"] > 1 and not c["idle"]: continue
            R = c["np"]; c["dummy"] = False; fs = [c["mem"][c["so"][k]:c["so"][k + 1]] for k in range(c["ns"])]; vs = [fs[k] for k in c["vset"]]; nv = c["nv"]; l2 = rng.choice((0, 0, 0, .4)); K = rng.choice((n, n, n + 0, max(1, n - 1))) if n > 1 else 1
            pts = rng.sample([(x, y, z) for x in range(-6, 7) for y in range(-6, 7) for z in range(-3, 4)], nv); F = lambda: [(rng.choice((-1, 0, 0, 1)) + (4 if i == j else 0)) if i < n and j < K else 0 for j in range(6) for i in range(6)]
            ww = rng.choice(([1], [1, 2, 3], [1, 10, 100])); rots = rng.choice(((0,), (0,), (-1, 0, 1)))
            xs = []
            for _ in range(rng.choice((0, 0, 2, nv))):
                if nv > 1:
                    a, b = rng.sample(range(nv), 2); s = sorted(set(vs[a]) & set(vs[b]))
                    if s: xs.append((a, b, rng.choice(s)))
            c.update(kind=self.kind, alg=self.alg, K=K, pos=[y for x in pts for y in x], rot=[rng.choice(rots) for _ in range(nv)], vw=[rng.choice(ww) if r in vs[i] and rng.random() < l2 else 0 for i in range(nv) for r in range(R)], vf=[rng.choice((1, 2, 4)) for _ in range(6 * nv)], ew=[rng.choice(ww) * c["own"][j * R + r] for j in range(c["ne"]) for r in range(R)], ef=[y for _ in range(c["ne"]) for y in F()], free=rng.random() < .4, fv=[int(rng.random() < .85) for _ in range(nv)],
                     nx=len(xs), xe=[y for x in xs for y in x[:2]], xr=[x[2] for x in xs], xw=[rng.choice(ww) for _ in xs], xf=[y for _ in xs for y in F()], nopt=12, opt=[self.typ, rng.choice((2, 3, 3, 5)), rng.choice((2, 5, 5, 9)), rng.choice((1, 100, 250)), rng.choice((100, 66, 150)), rng.choice((0, 0, 1, 2)) if R == 1 else 0, rng.choice((1, 25)), rng.choice((1, 2, 3)), rng.randrange(16), rng.randrange(2), rng.choice((0, 1, 1)), 0], no=60000, o=[0.] * 60000)
            if c["opt"][5]: c["opt"][10] = 1
            if R == 1 and c["opt"][10] and self.typ == 2 and rng.random() < .3: c["opt"][11] = rng.choice((1, 2, 40))
            yield c
    def post(self, S, P):
        v = S.v; R = v["np"]; n = BS[self.kind]; D = self.kind; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        ok = lambda k, b: out.__setitem__(k, out.get(k, True) and bool(b)); vset, ed, edges = expected(v); nv = v["nv"]; T = []
        V = [dict(pos=np.array(v["pos"][3 * i:3 * i + max(D, 1)]) / 4., rot=2. ** v["rot"][i], wt=sum(v["vw"][i * R:i * R + R]) * (np.diag(np.array(v["vf"][6 * i:6 * i + n]) / 4.) if D > 1 else np.eye(n) * v["vf"][6 * i] / 4.)) for i in range(nv)]
        em = lambda f, w: w * (lambda B: B.T @ B)(np.array(f).reshape(6, 6)[:v["K"], :n if D > 1 else 1]) / 4. * (1 if D > 1 else np.eye(n))
        E = [(tuple(v["e"][2 * j:2 * j + 2]), em(v["ef"][36 * j:36 * j + 36], sum(v["ew"][j * R:j * R + R]))) for j in range(v["ne"])]
        for r, l in enumerate(dec(P, R)):
            q = Rd(l); ok("block size", q.n() == n); gv, vs = q.l(), q.l(); f, m = rmesh(q), rmesh(q); vm = q.l(); A0, pw, sp = rspm(q, n), rspm(q, n), rspm(q, n); inv = {b: a for a, b in zip(gv, vs)}; key = {x: (frozenset(d) | {r}, k) for d, me in zip(m["dps"], m["mem"]) for k, x in enumerate(me)}
            cd = [dict(pos=q.f(D), rot=float(q.f(1)[0]), wt=q.m(n)) if D > 1 else dict(wt=q.f(1)[0] * np.eye(n)) for _ in key]
            ce = [q.m(n) if D > 1 else q.f(1)[0] * np.eye(n) for _ in m["e"]]; nd = [q.n(), q.n()]; ok("report complete", q.i == len(l)); ok("unknowns per vertex", nd == [len(key), len(gv)]); T.append((inv, f, m, vm, A0, pw, sp, key, cd, ce))
        cm, C, CE, owner = {}, {}, {}, {}
        for inv, f, m, vm, A0, pw, sp, key, cd, ce in T:
            for i, g in inv.items(): x = key.get(vm[i]); ok("all ranks map a vertex to the same coarse vertex", cm.setdefault(g, x) == x); ok("a coarse vertex is on all ranks of its vertices", x is None or vset[g] <= x[0])
            for i, k in key.items(): c = C.setdefault(k, cd[i]); ok("coarse vertex data is the same on all ranks", all(np.allclose(c[y], cd[i][y], rtol=1e-9, atol=1e-9) for y in c))
            for (a, b), x in zip(m["e"], ce): p = frozenset((key[a], key[b])); y = CE.setdefault(p, (key[a], key[b], x)); ok("coarse edge data is the same on all ranks", np.allclose(y[2], x, rtol=1e-9, atol=1e-9 * (1 + abs(x).max())))
        ok("the coarse rotations are scaled by a positive number", D < 2 or all(c["rot"] > 0 for c in C.values()))
        if not all(out.values()): return out
        ks = sorted(C, key=lambda k: (sorted(k[0]), k[1])); num = {k: i for i, k in enumerate(ks)}; VC = [C[k] for k in ks]; s = lambda i: slice(i * n, i * n + n)
        AF = ahat(D, V, [(a, M) for a, M in E]); AC = ahat(D, VC, [((num[a], num[b]), M) for a, b, M in CE.values()]); Pw = np.zeros((nv * n, len(ks) * n)); A = np.zeros_like(AF)
        for inv, f, m, vm, A0, pw, sp, key, cd, ce in T:
            for i, row in enumerate(A0[2]):
                for j, x in row: A[s(inv[i]), s(inv[j])] += x
        sc = 1 + abs(AF).max() if nv else 1; ok("the assembled energy is the sum over vertices and edges", np.allclose(A, AF, rtol=0, atol=1e-10 * sc))
        ref = dict(pos=np.zeros(max(D, 1)), rot=1.); rb = [Qab(D, ref, x) for x in V]; rbc = [Qab(D, ref, x) for x in VC]
        for g, k in cm.items():
            if k is not None: Pw[s(g), s(num[k])] = Qab(D, C[k], V[g])
        G = Pw.T @ AF @ Pw; ok("the coarse energy is the Galerkin energy of the fine one", np.allclose(G, AC, rtol=0, atol=1e-9 * (1 + (abs(G).max() if G.size else 0))))
        for k in C: ok("every coarse vertex has a vertex", k in cm.values())
        rows, o = {}, v["opt"]; fm = o[10] and not o[11]; BF = ahat(D, [dict(x, wt=x["wt"] * o[9]) for x in V], [(a, M) for a, M in E]); pat = {i: {i} for i in range(nv)}
        for a, b in [a for a, M in E] + [tuple(v["xe"][2 * x:2 * x + 2]) for x in range(v["nx"])]: pat[a].add(b); pat[b].add(a)
        for x in range(v["nx"]): addedge(BF, D, V, v["xe"][2 * x], v["xe"][2 * x + 1], em(v["xf"][36 * x:36 * x + 36], v["xw"][x]))
        clean = o[10] and all(k is not None for k in cm.values()) and (not o[9] or not any(x["wt"].any() for x in V))
        for inv, f, m, vm, A0, pw, sp, key, cd, ce in T:
            ok("size of the prolongations", all(x[:2] == (len(inv), len(key)) for x in (pw, sp)))
            for i, g in inv.items():
                ok("piecewise prolongation: one entry, the rigid body motion of the coarse vertex", (lambda r: not r if cm[g] is None else len(r) == 1 and key[r[0][0]] == cm[g] and np.allclose(r[0][1], Pw[s(g), s(num[cm[g]])], rtol=1e-12, atol=1e-12))(pw[2][i]))
                r = [(key[j], x) for j, x in sp[2][i]]; y = rows.setdefault(g, r); ok("all ranks have the same row of the prolongation", sorted((num[k] for k, _ in r)) == sorted(num[k] for k, _ in y) and all(np.allclose(dict(y)[k], x, rtol=1e-12, atol=1e-12) for k, x in r))
        for g, r in rows.items():
            k = cm[g]
            if k is None: ok("vertices that are dropped are not prolongated to", not r); continue
            cols = [a for a, _ in r]; ok("columns are distinct and contain the own coarse vertex", len(set(cols)) == len(cols) and k in cols); ok("entries per row", len(r) <= (max(1, o[1]) if self.typ == 1 or not fm else max(o[1], o[2]) if self.typ else 1)); ok("a row prolongates from coarse vertices on all its ranks", all(vset[g] <= a[0] for a in cols))
            if k not in cols: continue
            su = sum(x @ rbc[num[a]] for a, x in r); cl = not self.typ or self.typ == 1 or not (o[10] if o[5] else fm) or (clean if o[5] else not o[9] or not V[g]["wt"].any())
            row = np.zeros((n, len(ks) * n))
            for a, x in r: row[:, s(num[a])] = x
            d = Pw[s(g)] - row; om = o[4] / 100.
            def formula(M, js):
                if not M.any(): return False, True
                Dg = M[:, s(g)]; ev = np.linalg.eigvalsh((Dg + Dg.T) / 2); ill = any(1e-10 * ev[-1] < e < 1e-3 * ev[-1] for e in ev); MP = M @ Pw; return np.allclose(Dg @ d, om * MP, rtol=0, atol=TOL * abs(Dg).max()), ill
            if self.typ and len(r) > 1:
                X = np.zeros_like(AF)
                for a, M in E:
                    if g in a and all(cm[y] in cols and min(vset[g]) in vset[y] for y in a): addedge(X, D, V, *a, M)
                fa, ia = formula(X[s(g)], cols); fc, ic = formula(BF[s(g)], cols); cls = self.typ == 2 and fm and len(vset[g]) == 1
                if cl and not (ia or ic): ok("the prolongation keeps the rigid body motions", np.allclose(su, rb[g], rtol=0, atol=1e-6 * (1 + abs(rb[g]).max())))
                if not o[5] and not (self.typ == 1 and (v["K"] < n or ia)) and not ia and not (cls and ic): ok("a smoothed row takes one step towards smaller energy from the piecewise one", fa or cls and fc)
            else: ok("an unsmoothed row is the piecewise one", np.allclose(d, 0, atol=1e-12) or bool(o[5])); 
        return out
def contracts_P19(): return [Prol(k, a, t) for k in range(4) for a in (0, 1) for t in range(3)]
