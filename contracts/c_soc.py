"""P20: strength-of-connection measures and neighbour selection (bounded: they call LAPACK and build NGSolve objects)."""
import random, math, numpy as np
from engb import Contract, I32, F64
from c_dense import sps, orth, pinv, gev, dist
import c_elast
TU = "soc"
class B(Contract):
    tu = TU; engine = "bounded"; replay_s = 4; cap = 1500; rety = "f64"; writes = ()
def lst(a): return [float(x) for x in np.array(a).flatten()]
def psd_clear(m, rel=1e-9, lo=1e-2):
    """semi-definiteness of m is decided by eigenvalues away from rounding; None if not clear"""
    w = np.linalg.eigvalsh((m + m.T) / 2); s = max(np.max(np.abs(w)), 1e-300)
    if any(1e-13 * s < x and x < 1e-4 * s or -lo * s < x < -1e-13 * s for x in w): return None
    return bool(np.min(w) > -lo / 2 * s)
def Q(D, pi, ri, pj, rj): return np.array(c_elast.Qpts(D, list(pi), ri, list(pj), rj), dtype=float)
def mid(pi, ri, pj, rj): si, sj = math.sqrt(ri), math.sqrt(rj); l = sj / (si + sj); return pi + l * (pj - pi), si * sj
OPS = ("AssembleAhatBlock", "AggregateWideStabilityCheck", "AddNeibBoost", "PrepRobSOC", "CheckRobSOC", "CalcRobSOC", "CheckRobJoinSOC", "CalcRobJoinSOC")
class Agg(B):
    """the measures of the elasticity energy on a mesh of up to 5 vertices"""
    def __init__(self, D, op): self.D, self.op = D, op; self.N = 3 if D == 2 else 6; self.fn = f"s_agg{D}"; self.subject = OPS[op]; self.name = f"soc.{OPS[op]}.{D}d"; self.writes = ("out",) if op in (0, 2, 3) else ()
    def setup(self, S):
        N = self.N; S.int("op"); S.int("n"); S.array("pos", F64, lambda v: v["n"] * self.D); S.array("rs", F64, lambda v: v["n"]); S.int("ne"); S.array("ei", I32, lambda v: 2 * v["ne"]); S.array("em", F64, lambda v: v["ne"] * N * N); S.array("ad", F64, lambda v: v["n"] * N * N)
        S.int("vi"); S.int("vj"); S.real("rho"); S.int("flag"); S.int("k1"); S.int("k2"); S.array("mem", I32, lambda v: v["k1"] + v["k2"]); S.array("out", F64, lambda v: (v["k1"] * N)**2 if self.op == 0 else 2 * N * N)
    def gen_cases(self, tier, rng):
        D, N, op = self.D, self.N, self.op
        while True:
            n = rng.randint(2, 5); pos = [rng.uniform(-1, 1) for _ in range(n * D)]; rs = [rng.choice((1.0, rng.uniform(.5, 2))) for _ in range(n)]
            e = [(i, j) for i in range(n) for j in range(i) if rng.random() < .7]; e = [(i, j) if rng.random() < .5 else (j, i) for i, j in e]; rng.shuffle(e)
            if not e: continue
            vi, vj = rng.choice(e); 
            if rng.random() < .5: vi, vj = vj, vi
            em = [sps(rng, N, rng.choice((N, N, N - 1, max(1, N - 2))) if op not in (2, 3, 4, 5) else N) for _ in e]
            v = dict(op=op, n=n, pos=pos, rs=rs, ne=len(e), ei=[x for p in e for x in p], em=lst(em), ad=[0.0] * (n * N * N), vi=vi, vj=vj, rho=0.0, flag=rng.randint(0, 1), k1=0, k2=0, mem=[], out=[])
            ad = np.zeros((n, N, N))
            for k, (i, j) in enumerate(e):
                m, sm = mid(self.P(v, i), rs[i], self.P(v, j), rs[j])
                for x in (i, j): t = Q(D, self.P(v, x), rs[x], m, sm); ad[x] += t.T @ em[k] @ t
            for x in range(n):
                if op in (3, 4, 5, 6, 7) or rng.random() < .5: ad[x] += sps(rng, N, N, .3, 3.0)
            v["ad"] = lst((ad + ad.transpose(0, 2, 1)) / 2); r = list(range(n)); rng.shuffle(r)
            if op == 0: v["k1"] = rng.randint(1, n); v["mem"] = sorted(r[:v["k1"]]); v["out"] = [0.0] * (v["k1"] * N)**2
            else:
                v["out"] = [0.0] * (2 * N * N)
                if op == 1: t = rng.randint(2, n); v["k1"] = rng.randint(1, t - 1); v["k2"] = t - v["k1"]; v["mem"] = r[:v["k1"]] + r[v["k1"]:t]
            if op in (1, 4, 6):
                v["rho"] = rng.choice((.01, .05, .1, .3, 1.0)) * rng.uniform(.5, 1)
                if op != 1 or v["k1"] + v["k2"] > 2:
                    if psd_clear(self.M(v)) is None: continue
            yield v
    def P(self, v, i): return np.array(v["pos"][self.D * i:self.D * i + self.D])
    def E(self, v, k): N = self.N; return np.array(v["em"][N * N * k:N * N * (k + 1)]).reshape(N, N)
    def A(self, v, k): N = self.N; return np.array(v["ad"][N * N * k:N * N * (k + 1)]).reshape(N, N)
    def edges(self, v): return list(zip(v["ei"][::2], v["ei"][1::2]))
    def block(self, v, mem):
        N = self.N; a = np.zeros((N * len(mem), N * len(mem))); sm = sorted(mem)
        for k, (i, j) in enumerate(self.edges(v)):
            if i in sm and j in sm:
                m, r = mid(self.P(v, i), v["rs"][i], self.P(v, j), v["rs"][j]); p, q = sm.index(i), sm.index(j); g = np.zeros((N, N * len(mem)))
                g[:, p * N:p * N + N] = Q(self.D, self.P(v, i), v["rs"][i], m, r); g[:, q * N:q * N + N] = -Q(self.D, self.P(v, j), v["rs"][j], m, r); a += g.T @ self.E(v, k) @ g
        return a
    def boosted(self, v):
        vi, vj, ed = v["vi"], v["vj"], self.edges(v); k0 = [k for k, p in enumerate(ed) if set(p) == {vi, vj}][0]; e = self.E(v, k0).copy()
        if v["flag"] or self.op == 2:
            m, rm = mid(self.P(v, vi), v["rs"][vi], self.P(v, vj), v["rs"][vj])
            for n in range(v["n"]):
                ki = [k for k, p in enumerate(ed) if set(p) == {vi, n}]; kj = [k for k, p in enumerate(ed) if set(p) == {vj, n}]
                if not ki or not kj or n in (vi, vj): continue
                f = []
                for x, k in ((vi, ki[0]), (vj, kj[0])):
                    mm, r = mid(self.P(v, n), v["rs"][n], self.P(v, x), v["rs"][x]); t = Q(self.D, self.P(v, n), v["rs"][n], mm, r); f.append(t.T @ self.E(v, k) @ t)
                h = f[0] @ pinv(f[0] + f[1]) @ f[1]; t = Q(self.D, m, rm, self.P(v, n), v["rs"][n]); e += t.T @ h @ t
        return e
    def mean(self, v):
        vi, vj = v["vi"], v["vj"]; m, rm = mid(self.P(v, vi), v["rs"][vi], self.P(v, vj), v["rs"][vj]); d = []
        for x in (vi, vj): t = Q(self.D, m, rm, self.P(v, x), v["rs"][x]); d.append(t.T @ self.A(v, x) @ t)
        return d[0] @ pinv(d[0] + d[1]) @ d[1]
    def M(self, v):
        """the matrix whose semi-definiteness the check decides"""
        if self.op == 4: return self.boosted(v) - v["rho"] * self.mean(v)
        if self.op == 6: return self.boosted(v) - v["rho"] * self.A(v, v["vi"])
        mem = sorted(v["mem"]); N = self.N; a = self.block(v, mem); m = a.copy() if v["flag"] else np.zeros_like(a); p = np.zeros((N * len(mem), N))
        for k, x in enumerate(mem): m[k * N:k * N + N, k * N:k * N + N] = self.A(v, x); p[k * N:k * N + N] = Q(self.D, self.P(v, mem[0]), v["rs"][mem[0]], self.P(v, x), v["rs"][x])
        return a - v["rho"] * (m - m @ p @ pinv(p.T @ m @ p) @ p.T @ m)
    def post(self, S, P):
        v, N, op = S.v, self.N, self.op; x = P.ret
        if op == 0: e = self.block(v, v["mem"]); return {"size": x == len(e), "sum of the edge blocks between the vertices": dist(np.array(list(P.arr("out"))).reshape(e.shape), e) < 1e-9 if np.any(e) else not np.any(np.array(list(P.arr("out"))))}
        if op == 2: return {"edge matrix plus transported parallel sums": dist(np.array(list(P.arr("out")))[:N * N].reshape(N, N), self.boosted(v)) < 1e-7}
        if op == 3: o = np.array(list(P.arr("out"))).reshape(2, N, N); return {"edge matrix": dist(o[0], self.boosted(v)) < 1e-7, "parallel sum of the diagonals at the mid point": dist(o[1], self.mean(v)) < 1e-7}
        if op == 1 and v["k1"] + v["k2"] < 3: return {"pairs are accepted": x == 1}
        if op in (1, 4, 6): return {"decides stability": bool(x) == psd_clear(self.M(v))}
        e = gev(self.mean(v), self.boosted(v)) if op == 5 else gev(self.A(v, v["vi"]), self.boosted(v)); return {"stability constant": abs(x - max(0, e)) < 1e-6 * (1 + abs(e))}
class AggH(B):
    """scalar weights"""
    fn = "s_aggh"
    def __init__(self, op): self.op = op; self.subject = OPS[op]; self.name = f"soc.{OPS[op]}.scalar"; self.writes = ("out",) if op == 0 else ()
    def setup(self, S):
        S.int("op"); S.int("n"); S.int("ne"); S.array("ei", I32, lambda v: 2 * v["ne"]); S.array("em", F64, lambda v: v["ne"]); S.array("ad", F64, lambda v: v["n"]); S.real("rho"); S.int("flag"); S.int("k1"); S.int("k2"); S.array("mem", I32, lambda v: v["k1"] + v["k2"]); S.array("out", F64, lambda v: v["k1"]**2 if self.op == 0 else 1)
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(1, 7); e = [(i, j) for i in range(n) for j in range(i) if rng.random() < .6]; rng.shuffle(e); em = [rng.uniform(.1, 2) for _ in e]; ad = [rng.choice((0, rng.uniform(0, 2))) + sum(w for w, p in zip(em, e) if x in p) + .05 for x in range(n)]; r = list(range(n)); rng.shuffle(r)
            v = dict(op=self.op, n=n, ne=len(e), ei=[x for p in e for x in p], em=em, ad=ad, rho=rng.choice((.02, .1, .3, 1.0)) * rng.uniform(.5, 1), flag=rng.randint(0, 1), k1=0, k2=0, mem=[], out=[0.0])
            if self.op == 0: v["k1"] = rng.randint(1, n); v["mem"] = sorted(r[:v["k1"]]); v["out"] = [0.0] * v["k1"]**2
            else:
                if n < 2: continue
                t = rng.randint(2, n); v["k1"] = rng.randint(1, t - 1); v["k2"] = t - v["k1"]; v["mem"] = r[:t]
                if t > 2 and psd_clear(self.M(v)) is None: continue
            yield v
    def block(self, v):
        sm = sorted(v["mem"]); a = np.zeros((len(sm), len(sm)))
        for k in range(v["ne"]):
            i, j = v["ei"][2 * k:2 * k + 2]
            if i in sm and j in sm: g = np.zeros(len(sm)); g[sm.index(i)] = 1; g[sm.index(j)] = -1; a += v["em"][k] * np.outer(g, g)
        return a
    def M(self, v):
        mem = sorted(v["mem"]); a = self.block(v); m = a.copy() if v["flag"] else np.zeros_like(a)
        for k, x in enumerate(mem): m[k, k] = v["ad"][x]
        p = np.ones((len(mem), 1)); return a - v["rho"] * (m - m @ p @ pinv(p.T @ m @ p) @ p.T @ m)
    def post(self, S, P):
        v = S.v
        if self.op == 0: e = self.block(v); return {"size": P.ret == len(e), "sum of the edge blocks between the vertices": bool(np.max(np.abs(np.array(list(P.arr("out"))).reshape(e.shape) - e)) < 1e-12)}
        if v["k1"] + v["k2"] < 3: return {"pairs are accepted": P.ret == 1}
        return {"decides stability": bool(P.ret) == psd_clear(self.M(v))}
PO = ("MinGEV", "PairStabilityCheck", "PairStabilityCheckWInv", "CalcRobustPairSOC", "CalcRobustPairSOCViaInvs", "AddL2Boost", "CheckVertexWeight")
class Pair(B):
    def __init__(self, N, op): self.N, self.op = N, op; self.fn = f"s_pair{N}"; self.subject = PO[op]; self.name = f"soc.{PO[op]}.{N}"; self.writes = ("o",) if op == 5 else ()
    def setup(self, S):
        S.int("op"); S.real("rho")
        for x in "abco": S.array(x, F64, lambda v: self.N**2)
    def gen_cases(self, tier, rng):
        N, op = self.N, self.op
        while True:
            r = N if rng.random() < .6 else rng.randint(0, N); a, b, c = sps(rng, N, N), sps(rng, N, N), sps(rng, N, N); o = [0.0] * (N * N); rho = rng.choice((.05, .2, 1.0, 3.0)) * rng.uniform(.5, 1)
            if op == 0:                                   # E x = lambda D x; kernel of D spanned by coordinate directions
                b = sps(rng, N, r, axis=True); 
                if rng.random() < .4: a = sps(rng, N, rng.randint(0, N), axis=True)
            elif op == 1:
                a = sps(rng, N, r); b = sps(rng, N, rng.randint(1, N))
                if psd_clear(b - rho * a) is None: continue
            elif op == 2:                                 # a = inverse of C
                b = sps(rng, N, max(r, 1))
                if psd_clear(b - rho * pinv(a)) is None or psd_clear(a @ b @ a - rho * a) is None: continue
            elif op == 3: a = sps(rng, N, r); b = sps(rng, N, rng.randint(0, N)) if rng.random() < .5 else b
            elif op == 4: a = sps(rng, N, r); b = sps(rng, N, r) if rng.random() < .5 else np.zeros((N, N)); c = sps(rng, N, rng.randint(1, N))
            if op == 4 and any(1e-12 < x < 1e-2 for x in np.linalg.eigvalsh(a + b)): continue
            if op == 6:
                b = a + sps(rng, N, N, .01, 2.0); a = sps(rng, N, N, .01, 3.0); o[:3] = [rng.uniform(.1, 2), rng.uniform(.05, 1), rng.uniform(.1, 4)]; t = np.trace(a) / N; s = np.trace(b) / N
                if abs(t / s - o[1]) < 1e-6 or abs(t - o[0] * o[2]) < 1e-6 or abs(gev(b, a) - o[1]) < 1e-6: continue
            yield dict(op=op, rho=rho, a=lst(a), b=lst(b), c=lst(c), o=lst(o))
    def post(self, S, P):
        N, op = self.N, self.op; v = S.v; a, b, c = (np.array(v[x]).reshape(N, N) for x in "abc"); x = P.ret; near = lambda e: bool(abs(x - e) < 1e-6 * (1 + abs(e)))
        if op == 0: return {"smallest quotient": near(gev(b, a) if np.any(b) else 1.0)}
        if op == 1: return {"decides stability": bool(x) == psd_clear(b - v["rho"] * a)}
        if op == 2: return {"decides stability": bool(x) == psd_clear(b - v["rho"] * pinv(a))}
        if op == 3: return {"smallest quotient on the complement of the kernel": near(max(0.0, gev(a, b)))}
        if op == 4:
            w, q = np.linalg.eigh(a + b); k = w > 1e-7 * max(np.max(w), 1e-300)
            if not np.any(a + b): return {"zero": x == 0}
            t = q[:, k] * np.sqrt(w[k]); return {"smallest quotient on the range": near(abs(float(np.min(np.linalg.eigvalsh(t.T @ c @ t)))))}
        if op == 5: s, t = np.trace(a) / N, np.trace(b) / N; h = s * t / (s + t); return {"harmonic share of both weights": dist(np.array(list(P.arr("o"))).reshape(N, N), c + h / s * a + h / t * b) < 1e-10}
        rt, vt, mx = v["o"][:3]; l, d = np.trace(a) / N, np.trace(b) / N; return {"dominance": bool(x) == bool(l / d > vt and l > rt * mx and gev(b, a) > vt)}
class GevF(B):
    fn = "s_mingev"; name = "soc.MinGEV.flat"; subject = "MinGEV(FlatMatrix)"
    def setup(self, S): S.int("n"); S.array("e", F64, lambda v: v["n"]**2); S.array("d", F64, lambda v: v["n"]**2)
    def gen_cases(self, tier, rng):
        while True: n = rng.randint(1, 7); yield dict(n=n, e=lst(sps(rng, n, rng.randint(0, n))), d=lst(sps(rng, n, n if rng.random() < .5 else rng.randint(0, n))))
    def post(self, S, P): n = S.v["n"]; e, d = (np.array(S.v[k]).reshape(n, n) for k in "ed"); x = gev(d, e) if np.any(d) else 1.0; return {"smallest quotient on the complement of the kernel": abs(P.ret - x) < 1e-7 * (1 + abs(x))}
def avg(t, a, b): return (min(a, b), math.sqrt(a * b), 2 * a * b / (a + b), (a + b) / 2, max(a, b))[t]
class Avg(B):
    fn = "s_avg"; W = ("Average(type)", "Average", "HalfHarmonicAvg", "MinGEV", "CalcScalVertexSOC")
    def __init__(self, op): self.op = op; self.subject = self.W[op]; self.name = f"soc.mean.{self.subject}"
    def setup(self, S): S.int("t"); S.int("op"); S.real("a"); S.real("b")
    def gen_cases(self, tier, rng):
        while True: yield dict(t=rng.randint(0, 4), op=self.op, a=rng.uniform(.01, 5), b=rng.choice((1, 100, .01)) * rng.uniform(.01, 5))
    def post(self, S, P): v = S.v; a, b = v["a"], v["b"]; e = avg(v["t"], a, b) if self.op < 2 else a * b / (a + b) if self.op == 2 else a / b; return {"value": abs(P.ret - e) < 1e-12 * abs(e)}
class Soc(B):
    fn = "s_soc"
    def __init__(self, op): self.op = op; self.subject = ("CalcApproxSOC", "CalcApproxJoinSOC")[op]; self.name = "soc." + self.subject
    def setup(self, S):
        S.int("op"); S.int("t")
        for x in ("w", "di", "dj", "li", "lj"): S.real(x)
        S.int("l2")
    def gen_cases(self, tier, rng):
        while True: yield dict(op=self.op, t=rng.randint(0, 4), l2=rng.randint(0, 1), **{k: rng.uniform(.01, 4) for k in ("w", "di", "dj", "li", "lj")})
    def post(self, S, P): v = S.v; w = v["w"] + (v["li"] * v["lj"] / (v["li"] + v["lj"]) if v["l2"] else 0); e = w / (v["di"] if self.op else avg(v["t"], v["di"], v["dj"])); return {"weight over mean diagonal": abs(P.ret - e) < 1e-11 * e}
class VWt(B):
    fn = "s_vwt"; rety = "i32"; name = "soc.CheckVertexWeight.scalar"; subject = "CheckVertexWeight"
    def setup(self, S):
        for x in ("rt", "vt", "mx", "l", "d"): S.real(x)
    def gen_cases(self, tier, rng):
        while True: yield {k: rng.uniform(.01, 2) for k in ("rt", "vt", "mx", "l", "d")}
    def post(self, S, P): v = S.v; return {"dominance": bool(P.ret) == (v["l"] / v["d"] > v["vt"] and v["l"] > v["rt"] * v["mx"])}
class Pick(B):
    """the neighbour returned is admissible and strong enough, and nothing that is also admissible is stronger"""
    fn = "s_pick"; rety = "i32"; name = "soc.FindNeib3Step"; subject = "FindNeib3Step"; cap = 20000
    def setup(self, S):
        S.int("n"); S.array("neibs", I32, lambda v: v["n"]); S.array("soc", F64, lambda v: v["n"]); S.array("rob", F64, lambda v: v["n"]); S.array("allow", I32, lambda v: v["n"]); S.array("big", I32, lambda v: v["n"]); S.int("robPick"); S.int("aggWide")
        for x in ("rel", "ar", "ab"): S.real(x)
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(0, 6); g = lambda: rng.choice((0.0, .125, .25, .25, .5, .75, 1.0, rng.randint(0, 64) / 64)); yield dict(n=n, neibs=sorted(rng.sample(range(20), n)), soc=[g() for _ in range(n)], rob=[g() for _ in range(n)], allow=[int(rng.random() < .75) for _ in range(n)], big=[rng.randint(0, 16) for _ in range(n)], robPick=rng.randint(0, 1), aggWide=rng.randint(0, 1), rel=rng.choice((0.0, .25, .5, .9)), ar=rng.choice((0.0, .125, .25, .5)), ab=rng.choice((0.0, .125, .5)))
    def post(self, S, P):
        v = S.v; n = v["n"]; st = v["rel"] * max([0.0] + v["soc"]); rt = min(st, v["ar"]); bt = min(rt, v["ab"]); c = {}
        for k in range(n):
            if not v["allow"][k] or v["soc"][k] < st: continue
            w = v["rob"][k] if v["robPick"] else v["soc"][k]
            if (w < rt if v["robPick"] else v["rob"][k] < rt): continue
            if v["aggWide"] and v["big"][k] / 16 < bt: continue
            c[v["neibs"][k]] = w
        return {"none only if no neighbour qualifies": P.ret != -1 or not c, "a qualified neighbour": P.ret == -1 or P.ret in c, "of maximal weight": P.ret not in c or c[P.ret] == max(c.values())}
def contracts_P20():
    import c_qry
    return c_qry.scalar_strengths() + [Agg(D, o) for D in (2, 3) for o in range(8)] + [AggH(0), AggH(1)] + [Pair(N, o) for N in (2, 3, 6) for o in range(7) if o < 5 or N > 2] + [GevF()] + [Avg(o) for o in range(5)] + [Soc(0), Soc(1), VWt(), Pick()]
