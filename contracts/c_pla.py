"""P11: parallel linear algebra: exchange of vector entries, hybrid matrices, hybrid smoothers (bounded: np <= 5 ranks over an in-process message passing with seeded schedules)."""
from engb import Contract, I32, I8, F64
from c_par import uniq, flat
from c_prol import Rd, dec
import numpy as np
TOL = 1e-8
def rel(a, b): return bool(np.all(np.isfinite(a))) and float(np.max(np.abs(np.asarray(a) - b), initial=0)) <= TOL * (1 + float(np.max(np.abs(b), initial=0)))
class B(Contract):
    tu = "pla"; engine = "bounded"; replay_s = 10; cap = 2500; rety = "i32"; writes = ("o",)
    def sysargs(self, S):
        S.int("np"); S.int("seed"); S.int("ns"); S.array("so", I32, lambda v: v["ns"] + 1); S.array("mem", I32, lambda v: v["so"][v["ns"]]); S.int("nd"); S.array("ds", I32, lambda v: v["nd"]); S.int("bs"); S.int("ne"); S.array("ed", I32, lambda v: 2 * v["ne"]); S.array("own", I8, lambda v: v["ne"] * v["np"]); S.array("a", F64, lambda v: (v["nd"] + 2 * v["ne"]) * v["np"] * v["bs"] ** 2)
    def system(self, rng, bs, sym=True, spd=False, maxd=9):
        """degrees of freedom with their ranks, and the parts of a matrix"""
        np_ = rng.choice((1, 2, 3, 3, 4, 4, 5)); lo = 1 if np_ > 1 else 0; rk = list(range(lo, np_)); fs = [[r] for r in rk]
        for _ in range(rng.randint(0, 4)): fs.append(sorted(rng.sample(rk, rng.randint(1, min(len(rk), 3)))))
        fs = uniq(fs); nd = rng.randint(0, maxd); ds = [rng.randrange(len(fs)) for _ in range(nd)]; ed, own = [], []; dens = rng.choice((.2, .5, .9))
        for i in range(nd):
            for j in range(i + 1, nd):
                c = [r for r in fs[ds[i]] if r in fs[ds[j]]]
                if c and rng.random() < dens: ed.append((i, j)); k = [r for r in c if rng.random() < .7] or [rng.choice(c)]; own.append([int(r in k) for r in range(np_)])
        ne = len(ed); a = np.zeros((nd + 2 * ne, np_, bs, bs)); R = np.random.RandomState(rng.randrange(1 << 30)); rnd = lambda: R.randint(-8, 9, (bs, bs)) / 4.
        def spdm():
            Q = np.linalg.qr(R.normal(size=(bs, bs)))[0]; return Q @ np.diag(R.randint(1, 9, bs) / 2.) @ Q.T
        if spd:
            for e, (i, j) in enumerate(ed):
                for r in range(np_):
                    if own[e][r]: K = spdm() * rng.choice((1, 1, .01, 10)); sg = rng.choice((-1, -1, 1)); a[i, r] += K; a[j, r] += K; a[nd + 2 * e, r] = a[nd + 2 * e + 1, r] = sg * K
            for i in range(nd):
                rs = fs[ds[i]]; a[i, rng.choice(rs)] += spdm() * rng.choice((1, .01))
                if len(rs) > 1 and rng.random() < .3: x, y = rng.sample(rs, 2); T = spdm(); a[i, x] += T; a[i, y] -= T
        else:
            for i in range(nd):
                for r in fs[ds[i]]: x = rnd(); a[i, r] = (x + x.T) / 2 if sym else x
            for e in range(ne):
                for r in range(np_):
                    if own[e][r]: x = rnd(); a[nd + 2 * e, r] = x; a[nd + 2 * e + 1, r] = x.T if sym else rnd()
        c = flat(fs); c.update(np=np_, seed=rng.randrange(1 << 30), nd=nd, ds=ds, bs=bs, ne=ne, ed=[x for e in ed for x in e], own=[x for e in own for x in e], a=[float(x) for x in a.ravel()], _fs=fs); return c
    def vec(self, rng, c, st):
        """values on the ranks: alike if cumulated, anything if distributed; with zeros elsewhere"""
        v = np.zeros((c["nd"], c["np"], c["bs"]))
        for i in range(c["nd"]):
            w = [rng.randint(-16, 16) / 4. for _ in range(c["bs"])]
            for r in c["_fs"][c["ds"][i]]: v[i, r] = w if st else [rng.randint(-16, 16) / 4. for _ in range(c["bs"])]
        return [float(x) for x in v.ravel()]
    def read(self, S, P):
        v = S.v; s = self; s.n, s.np_, s.bs, s.ne = v["nd"], v["np"], v["bs"], v["ne"]; s.fs = [list(v["mem"][v["so"][k]:v["so"][k + 1]]) for k in range(v["ns"])]; s.sets = [s.fs[k] for k in v["ds"]]; s.loc = [[i for i in range(s.n) if r in s.sets[i]] for r in range(s.np_)]
        s.a = np.array(v["a"]).reshape(s.n + 2 * s.ne, s.np_, s.bs, s.bs); s.ed = [(v["ed"][2 * e], v["ed"][2 * e + 1]) for e in range(s.ne)]; s.m = [min(x) for x in s.sets]; s.own = v["own"]
        return [Rd(x) for x in dec(P, s.np_)]
    def A(s, r=None):
        b = s.bs; M = np.zeros((s.n * b, s.n * b)); g = (lambda k: s.a[k].sum(0)) if r is None else (lambda k: s.a[k, r]); sl = lambda i: slice(i * b, i * b + b)
        for i in range(s.n): M[sl(i), sl(i)] = g(i)
        for e, (i, j) in enumerate(s.ed): M[sl(i), sl(j)] = g(s.n + 2 * e); M[sl(j), sl(i)] = g(s.n + 2 * e + 1)
        return M
    def val(s, data, st):
        """the value of a vector of the input"""
        w = np.array(data).reshape(s.n, s.np_, s.bs); return np.array([w[i, s.sets[i][0]] if st else w[i].sum(0) for i in range(s.n)]).reshape(-1)
    def got(s, Q):
        """status, value, and whether cumulated entries are alike"""
        st, x, ok, seen = set(), np.zeros((s.n, s.bs)), True, {}
        for r in range(s.np_):
            k = Q[r].n(); n = Q[r].n(); f = Q[r].f(n).reshape(-1, s.bs); ok &= len(f) == len(s.loc[r])
            if s.loc[r]: st.add(k)
            for i, y in zip(s.loc[r], f):
                if k: ok &= i not in seen or rel(seen[i], y); seen[i] = y; x[i] = y
                else: x[i] += y
        return (st.pop() if len(st) == 1 else -1 if st else None), x.reshape(-1), ok and len(st) == 0
class Dcc(B):
    """exactly one rank is master of an entry; concentrating keeps the sum on it and zeros elsewhere, cumulating spreads it"""
    fn = "p_dcc"
    def __init__(self, alg): self.alg = alg; self.name = ("lowest-rank", "chunks")[alg] + ".exchange"; self.subject = ("BasicDCCMap", "ChunkedDCCMap")[alg] + "::CalcDOFMasters, DCCMap::{Start,Apply,Finish}{DIS2CO,CO2CU}"
    def setup(self, S):
        self.sysargs(S)
        for x in ("alg", "chunk", "rounds"): S.int(x)
        S.array("st", I32, lambda v: v["rounds"]); S.int("nv"); S.array("v", F64, lambda v: v["nv"]); S.int("no"); S.array("o", F64, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            c = self.system(rng, rng.choice((1, 1, 2, 3)), maxd=12); k = rng.randint(1, 4); st = [int(rng.random() < .3) for _ in range(k)]; v = [x for s in st for x in self.vec(rng, c, s)]
            c.update(alg=self.alg, chunk=rng.choice((1, 2, 50)), rounds=k, st=st, nv=len(v), v=v, no=6000, o=[0.] * 6000); yield c
    def post(self, S, P):
        v = S.v; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        Q = self.read(S, P); ok = lambda k, b: out.__setitem__(k, out.get(k, True) and bool(b)); ms = [[] for _ in range(self.n)]; mx, gx = {}, {}
        for r in range(self.np_):
            for i in self.loc[r]:
                if Q[r].n(): ms[i].append(r)
            for p in sorted({p for i in self.loc[r] for p in self.sets[i]} - {r}): mx[r, p] = [self.loc[r][k] for k in Q[r].l()]; gx[r, p] = [self.loc[r][k] for k in Q[r].l()]
        ok("exactly one of its ranks is master of an entry", all(len(x) == 1 for x in ms))
        if not all(len(x) == 1 for x in ms): return out
        if self.alg == 0: ok("the lowest rank is master", all(x[0] == min(s) for x, s in zip(ms, self.sets)))
        for (r, p), x in mx.items():
            ok("both ranks of an exchange list the same entries in the same order", x == gx[p, r]); ok("master entries go to every other rank", sorted(x) == [i for i in self.loc[r] if ms[i] == [r] and p in self.sets[i]])
        n1 = self.n * self.np_ * self.bs
        for k in range(v["rounds"]):
            w = np.array(v["v"][k * n1:k * n1 + n1]).reshape(self.n, self.np_, self.bs); s = [w[i, self.sets[i][0]] if v["st"][k] else w[i].sum(0) for i in range(self.n)]
            for r in range(self.np_):
                t = Q[r].n(); f = Q[r].f(Q[r].n()).reshape(-1, self.bs)
                if self.loc[r]: ok("concentrated vectors are distributed", t == 0)
                for i, y in zip(self.loc[r], f): ok("the master has the value, the others have zeros", rel(y, s[i]) if ms[i] == [r] else not np.any(y))
            for r in range(self.np_):
                t = Q[r].n(); f = Q[r].f(Q[r].n()).reshape(-1, self.bs)
                if self.loc[r]: ok("the result is cumulated", t == 1)
                for i, y in zip(self.loc[r], f): ok("every rank has the value", rel(y, s[i]))
        return out
class Hyb(B):
    """the parts of a hybrid matrix add up to the matrix; its products are those of the matrix"""
    fn = "p_hyb"
    def __init__(self, bs, dyn): self.b, self.dyn = bs, dyn; self.name = f"hybrid-matrix.{'dynamic' if dyn else bs}"; self.subject = ("DynamicBlockHybridMatrix" if dyn else f"HybridMatrix<{bs}>") + " (DecomposeSparseMatrixHybrid), HybridBaseMatrix::{Mult,MultAdd,MultTrans,MultTransAdd}"
    def setup(self, S):
        self.sysargs(S); S.boolean("dyn"); S.boolean("chunked"); S.int("nop"); S.array("op", I32, lambda v: 3 * v["nop"]); S.int("nv"); S.array("v", F64, lambda v: v["nv"]); S.int("no"); S.array("o", F64, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            c = self.system(rng, self.b, rng.random() < .7, rng.random() < .2); n = rng.randint(1, 4); op = []
            for _ in range(n): op += [rng.randrange(2 if self.dyn else 4), int(rng.random() < .5), int(rng.random() < .5)]
            v = [x for k in range(n) for j in (1, 2) for x in self.vec(rng, c, op[3 * k + j])]; c.update(dyn=self.dyn, chunked=rng.random() < .4, nop=n, op=op, nv=len(v), v=v, no=30000, o=[0.] * 30000); yield c
    def post(self, S, P):
        v = S.v; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        Q = self.read(S, P); b = self.bs; A = self.A(); ok = lambda k, x: out.__setitem__(k, out.get(k, True) and bool(x)); mst = {}
        for r in range(self.np_):
            for i in self.loc[r]:
                if Q[r].n(): mst[i] = r
        SumM, SumG = np.zeros_like(A), np.zeros_like(A); gl, gg = [], []
        for r in range(self.np_):
            gl.append(Q[r].n()); gg.append(Q[r].n()); ok("the matrix has the size of the rank's vectors", Q[r].n() == len(self.loc[r]) and Q[r].n() == len(self.loc[r]))
            if self.dyn: continue
            for part in ("G", "M") if gl[-1] else ("M",):
                n = Q[r].n()
                for k in range(n):
                    last = -1
                    for _ in range(Q[r].n()):
                        j = Q[r].n(); m = Q[r].m(b); i, j2 = self.loc[r][k], self.loc[r][j]; ok("columns are sorted", j > last); last = j; (SumM if part == "M" else SumG)[i * b:i * b + b, j2 * b:j2 * b + b] += m
                        if part == "M": ok("the master part couples entries of the same master", mst[i] == r and mst[j2] == r)
                        else: ok("the other part couples entries of different masters", mst[i] != mst[j2])
        ok("ranks agree whether there is another part", len(set(gg)) == 1 and gg[0] == max(gl))
        if not self.dyn:
            ok("the parts add up to the matrix", rel(SumM + SumG, A)); D = np.zeros_like(A)
            for i in range(self.n):
                for j in range(self.n):
                    if mst[i] == mst[j]: D[i * b:i * b + b, j * b:j * b + b] = A[i * b:i * b + b, j * b:j * b + b]
            ok("the master part is the diagonal block of the matrix", rel(SumM, D))
        n1 = self.n * self.np_ * b
        for k in range(v["nop"]):
            o, sx, sy = v["op"][3 * k:3 * k + 3]; x, y = self.val(v["v"][2 * k * n1:2 * k * n1 + n1], sx), self.val(v["v"][(2 * k + 1) * n1:(2 * k + 2) * n1], sy); tx, gx, _ = self.got(Q); ty, gy, _ = self.got(Q)
            e = (A @ x, y - 2.5 * (A @ x), A.T @ x, y + .5 * (A.T @ x))[o]; w = ("Mult", "MultAdd", "MultTrans", "MultTransAdd")[o]
            ok(f"{w} gives the product of the matrix", rel(gy, e) and ty != -1); ok(f"{w} keeps the argument", rel(gx, x) and tx != -1)
        return out
KIND = ("gauss-seidel", "local-inverse", "blocks-1", "blocks-2", "dynamic-blocks")
CLS = ("HybridGSSmoother", "HybridDISmoother", "HybridBS (BSmoother)", "HybridBS (BSmoother2)", "HybridDynBlockSmoother")
class Sm(B):
    """one step changes free entries only, alike on all ranks, keeps the residual and the right hand side, and does not increase the energy of the error"""
    fn = "p_sm"
    def __init__(self, kind, bs, symm=False): self.kind, self.b, self.symm = kind, bs, symm; self.name = f"smoother.{KIND[kind]}.{bs}" + (".symm" if symm else ""); self.subject = CLS[kind] + f"<{bs}>, HybridBaseSmoother::{{Smooth,SmoothBack}}, CalcHybridSmootherRDG" + (", symmetric" if symm else "")
    def setup(self, S):
        self.sysargs(S); S.int("kind"); S.boolean("sub"); S.array("fr", I8, lambda v: v["nd"]); S.boolean("overlap"); S.boolean("symm"); S.int("nloc"); S.int("nb"); S.array("bo", I32, lambda v: v["nb"] + 1); S.array("bd", I32, lambda v: v["bo"][v["nb"]]); S.int("nop"); S.array("op", I32, lambda v: v["nop"]); S.int("nv"); S.array("v", F64, lambda v: v["nv"]); S.int("no"); S.array("o", F64, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            c = self.system(rng, self.b, True, True); nd = c["nd"]; sub = self.kind in (0, 1, 4) and rng.random() < .5; fr = [int(not sub or rng.random() < .7) for _ in range(nd)]; bl = []
            if self.kind in (2, 3):
                ids = [rng.randrange(max(1, nd // 2)) for _ in range(nd)]; bl = [[i for i in range(nd) if ids[i] == k] for k in sorted(set(ids))]
                if rng.random() < .3 and bl: bl.pop(rng.randrange(len(bl)))
                fr = [int(any(i in x for x in bl)) for i in range(nd)]
            op = [rng.randrange(32) & ~8 | (32 if rng.random() < .2 else 0)]; op.append(op[0] ^ (not self.symm))
            if rng.random() < .3: op.append(rng.randrange(64))
            v = []
            for k, p in enumerate(op):
                if p & 40 == 40: p &= ~32; op[k] = p
                x = [0.] * (nd * c["np"] * self.b) if p & 8 else self.vec(rng, c, not p & 32)
                w = np.array(x).reshape(nd, c["np"], self.b) if nd else np.zeros((0, c["np"], self.b))
                for i in range(nd):
                    if not fr[i] and rng.random() < .8: w[i] = 0
                v += [float(t) for t in w.ravel()] + self.vec(rng, c, bool(p & 16))
            c.update(kind=self.kind, sub=sub, fr=fr, overlap=rng.random() < .5, symm=self.symm, nloc=rng.choice((1, 1, 1, 2, 3)) if self.kind != 1 else 1, nb=len(bl), bo=flat(bl)["so"], bd=[x for y in bl for x in y], nop=len(op), op=op, nv=len(v), v=v, no=6000, o=[0.] * 6000); yield c
    def post(self, S, P):
        v = S.v; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        Q = self.read(S, P); b = self.bs; A = self.A(); n = self.n; ok = lambda k, x: out.__setitem__(k, out.get(k, True) and bool(x)); fr = v["fr"]; md = np.zeros((n, b, b)); sl = lambda i: slice(i * b, i * b + b); F = [i * b + k for i in range(n) if fr[i] for k in range(b)]; split = []
        for r in range(self.np_):
            k = Q[r].n(); dyn = self.kind == 4
            ok("ranks with shared entries have a modified diagonal", bool(k) == any(len(self.sets[i]) > 1 for i in self.loc[r]))
            for j in range(k):
                m = Q[r].m(b); i = self.loc[r][j]
                if self.m[i] == r:
                    md[i] = m
                    if fr[i] or self.kind not in (0, 4): f = m[0, 0] / A[i * b, i * b]; ok("the modified diagonal is a multiple of the diagonal, at least the diagonal", f >= 1 - TOL and rel(m, f * A[sl(i), sl(i)]))
            if not k:
                for i in self.loc[r]: md[i] = A[sl(i), sl(i)]
            split.append(Q[r].n()); ok("the steps, the overlap and the thread are those asked for", [Q[r].n(), Q[r].n(), Q[r].n()] == [v["nloc"], int(v["overlap"]), 0])
        n1 = n * self.np_ * b; sol = []
        for k in range(v["nop"]):
            p = v["op"][k]; x0, bb = self.val(v["v"][2 * k * n1:2 * k * n1 + n1], not p & 32), self.val(v["v"][(2 * k + 1) * n1:(2 * k + 2) * n1], p & 16)
            tx, x, lx = self.got(Q); tb, gb, _ = self.got(Q); tr, res, lr = self.got(Q)
            ok("the iterate is cumulated, alike on all ranks", tx in (1, None) and lx); ok("the right hand side keeps its value", rel(gb, bb) and tb != -1)
            if p & 4: ok("the residual is up to date", rel(res, bb - A @ x) and tr != -1)
            nf = [i for i in range(n * b) if not fr[i // b]]; ok("entries that are not free keep their value", np.array_equal(x[nf], x0[nf]))
            if self.kind in (0, 1) and v["nloc"] == 1: ok("the step is that of the hybrid method", rel(x, self.step(A, md, fr, split, x0, bb, p & 1)))
            if F and b == 1:
                xs = x.copy(); rF = bb[F] - A[np.ix_(F, nf)] @ x[nf]; s = np.linalg.solve(A[np.ix_(F, F)], rF); e0, e1 = x0[F] - s, x[F] - s; AF = A[np.ix_(F, F)]; ok("the energy of the error does not increase", e1 @ AF @ e1 <= e0 @ AF @ e0 * (1 + 1e-9) + 1e-9)
            if F: rF = bb[F] - A[np.ix_(F, nf)] @ x[nf]; s = np.linalg.solve(A[np.ix_(F, F)], rF); sol.append((p, x0[F] - s, x[F] - s))
        if len(sol) >= 2 and v["nloc"] == 1:
            AF = A[np.ix_(F, F)]; (_, a0, a1), (_, c0, c1) = sol[:2]
            if self.symm: pass
            l, r = c0 @ AF @ a1, c1 @ AF @ a0; ok("stepping backwards is the adjoint of stepping forwards", abs(l - r) <= 1e-7 * (1 + abs(l) + np.sqrt((c0 @ AF @ c0) * (a0 @ AF @ a0))))
        return out
    def step(self, A, md, fr, split, x0, bb, back):
        b, n = self.bs, self.n; x = x0.copy(); sl = lambda i: slice(i * b, i * b + b)
        for r in range(self.np_):
            ms = [i for i in self.loc[r] if self.m[i] == r]; own = [i * b + k for i in ms for k in range(b)]; g = bb - A @ x0  # what the rank sees of the others does not change
            if self.kind == 1:
                J = [i for i in ms if fr[i]]; I = [i * b + k for i in J for k in range(b)]; M = A[np.ix_(I, I)].copy()
                for k, i in enumerate(J): M[k * b:k * b + b, k * b:k * b + b] = md[i]
                if I: x[I] += np.linalg.solve(M, g[I])
                continue
            d = np.zeros(n * b)
            sh = [i for i in ms if len(self.sets[i]) > 1]; lo = [i for i in ms if len(self.sets[i]) == 1]; lp = {i: k for k, i in enumerate(self.loc[r])}
            if self.symm: seq = (lo + sh + sh[::-1] + lo[::-1]) if not back else (lo[::-1] + sh + sh[::-1] + lo)
            else:
                seq = [i for i in lo if lp[i] < split[r]] + sh + [i for i in lo if lp[i] >= split[r]]
                if back: seq = seq[::-1]
            for i in seq:
                if fr[i]: d[sl(i)] += np.linalg.solve(md[i], g[sl(i)] - A[sl(i)][:, own] @ d[own])
            x += d
        return x
def contracts_P11():
    import c_exch
    return c_exch.contracts_exch() + [Dcc(0), Dcc(1)] + [Hyb(b, False) for b in (1, 2, 3)] + [Hyb(1, True)] + [Sm(0, 1), Sm(0, 2), Sm(0, 3), Sm(0, 1, True), Sm(0, 2, True), Sm(1, 1), Sm(1, 2), Sm(2, 1), Sm(2, 2), Sm(3, 1), Sm(3, 2), Sm(3, 1, True), Sm(4, 1)]
