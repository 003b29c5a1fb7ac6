"""Bounded contracts for the public interface of the smoothers: every combination of the residual / zero-start flags
against the dense definition of the iteration."""
from engb import *
import logic as L, itertools
TU = "smooth"
TOL = 1e-8
def close(a, b):
    return len(a) == len(b) and all(abs(p - q) <= TOL * (1 + abs(p) + abs(q)) for p, q in zip(a, b))
def solve(M, r):
    """M y = r by elimination with pivoting"""
    n = len(M); A = [list(M[i]) + [r[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(A[k][i])); A[i], A[p] = A[p], A[i]
        for k in range(n):
            if k != i:
                f = A[k][i] / A[i][i]
                if f: A[k] = [u - f * w for u, w in zip(A[k], A[i])]
    return [A[i][n] / A[i][i] for i in range(n)]
def mv(a, n, m, x): return [sum(a[i * m + j] * x[j] for j in range(m)) for i in range(n)]
def spd(rng, n, N, dens):
    """pattern and dense symmetric matrix with dominant diagonal blocks"""
    pat = [0] * (n * n); a = [0.0] * (n * N * n * N); M = n * N
    for i in range(n):
        for j in range(i, n):
            if i == j or rng.random() < dens:
                pat[i * n + j] = pat[j * n + i] = 1
                for u in range(N):
                    for v in range(N):
                        if i == j and u > v: continue
                        z = rng.randint(-3, 3)
                        a[(i * N + u) * M + j * N + v] = a[(j * N + v) * M + i * N + u] = float(z)
    for q in range(M): a[q * M + q] = float(rng.randint(4, 9) * n * N)
    return pat, a
def block(a, n, N, k): return [[a[(k * N + u) * n * N + k * N + v] for v in range(N)] for u in range(N)]
def gs_sweep(c, x, b, back, D):
    n, N, a = c["n"], c["N"], c["a"]; M = n * N; x = list(x)
    for k in (reversed(range(n)) if back else range(n)):
        if c["sub"] and not c["bits"][k]: continue
        r = [b[k * N + u] - sum(a[(k * N + u) * M + j] * x[j] for j in range(M)) for u in range(N)]
        y = solve(D(k), r)
        for u in range(N): x[k * N + u] += y[u]
    return x
class BC(Contract):
    tu = TU; engine = "bounded"; rety = "i32"; replay_s = 12; sizes = (1, 2, 3, 4, 5)
    def maker(self, c): 
        def D(k):
            N = c["N"]
            return [c["repl"][(k * N + u) * N:(k * N + u) * N + N] for u in range(N)] if c["rep"] == 1 else block(c["a"], c["n"], N, k)
        return D
    def base(self, rng, N):
        n = rng.choice(self.sizes); M = n * N
        pat, a = spd(rng, n, N, rng.choice((0.2, 0.6, 1.0)))
        c = {"n": n, "pat": pat, "a": a, "sub": rng.randint(0, 1), "pinv": rng.randint(0, 1), "rep": rng.randint(0, 1)}
        c["bits"] = [int(rng.random() < rng.choice((0.2, 0.5, 0.9))) for _ in range(n)]
        rp = []
        for k in range(n):
            B = block(a, n, N, k)
            for u in range(N): rp += [B[u][v] * 1.0 + (n * N * rng.randint(1, 5) if u == v else 0) for v in range(N)]
        c["repl"] = rp
        vec = lambda: [rng.randint(-8, 8) / 2 for _ in range(M)]
        c.update(x=vec(), b=vec(), r=vec(), madd=vec(), om=rng.choice((1.0, 0.5, -2.0)))
        return c
    def flags(self, rng, c, n):
        c.update(ru=rng.randint(0, 1), ur=rng.randint(0, 1), xz=int(rng.random() < .4), type=rng.randint(0, 5), k=rng.choice((1, 2, 3)))
        if c["xz"]: c["x"] = [0.0] * n
        if c["ru"]: c["r"] = [p - q for p, q in zip(c["b"], mv(c["a"], n, n, c["x"]))]
        return c
    def seq(self, v):
        return {0: "f", 1: "b", 2: "fb", 3: "f" * v["k"], 4: "b" * v["k"], 5: "fb" * v["k"]}[v["type"]]
class Sm(BC):
    writes = ("x", "r", "madd")
    CL = ("GSS3", "JacobiSmoother", "RichardsonSmoother", "ProxySmoother")
    def __init__(self, cls, N): self.cls, self.N = cls, N; self.fn = f"s_sm{N}"; self.name = f"{self.CL[cls]}.{N}"; self.subject = f"{self.CL[cls]} public interface, block size {N}"
    def setup(self, S):
        for x in ("cls", "n"): S.int(x)
        v = lambda N: lambda v: v["n"] * N
        S.array("pat", I8, lambda v: v["n"] * v["n"]); S.array("a", F64, lambda v: v["n"] * v["n"] * self.N**2)
        S.int("sub"); S.array("bits", I8, v(1)); S.int("pinv"); S.int("rep"); S.array("repl", F64, v(self.N**2)); S.array("p", F64, lambda v: v["n"] * v["n"] * self.N**2)
        S.real("om")
        for x in ("nst", "symm", "type", "k", "ru", "ur", "xz"): S.int(x)
        for x in ("x", "b", "r", "madd"): S.array(x, F64, v(self.N))
    def gen_cases(self, tier, rng):
        while True:
            c = self.base(rng, self.N); M = c["n"] * self.N
            c["p"] = spd(rng, c["n"], self.N, 0)[1]; c["p"] = [y / 64 if c["pat"][(q // M) // self.N * c["n"] + (q % M) // self.N] else 0.0 for q, y in enumerate(c["p"])]
            c.update(cls=self.cls, nst=rng.choice((1, 2, 3)), symm=rng.randint(0, 1))
            if self.cls in (1, 2): c["rep"] = c["pinv"] = 0
            if self.cls == 2: c["sub"] = 0
            yield self.flags(rng, c, M)
    def post(self, S, P):
        v = dict(S.v); v["N"] = self.N; n, N = v["n"], self.N; M = n * N; D = self.maker(v); x = list(v["x"])
        if self.cls == 2:
            D = None
        def step(x, back):
            if self.cls in (0, 3): return gs_sweep(v, x, v["b"], back, D)
            r = [p - q for p, q in zip(v["b"], mv(v["a"], M, M, x))]
            if self.cls == 2: return [p + v["om"] * q for p, q in zip(x, mv(v["p"], M, M, r))]
            y = list(x)
            for k in range(n):
                if not v["sub"] or v["bits"][k]:
                    for u, w in enumerate(solve(D(k), r[k * N:k * N + N])): y[k * N + u] += v["om"] * w
            return y
        for ch in self.seq(v):
            if self.cls == 3:
                for ch2 in ("fb" if v["symm"] else ch) * v["nst"]: x = step(x, ch2 == "b")
            else: x = step(x, ch == "b")
        d = {"the iterate is the one of the plain iteration": close(P.arr("x"), x)}
        if v["ur"]: d["the residual belongs to the new iterate"] = close(P.arr("r"), [p - q for p, q in zip(v["b"], mv(v["a"], M, M, x))])
        if self.cls in (0, 3):
            m = list(v["madd"])
            for k in range(n):
                if not v["sub"] or v["bits"][k]:
                    for u, w in enumerate(solve(D(k), v["b"][k * N:k * N + N])): m[k * N + u] += v["om"] * w
            d["MultAdd adds the scaled block-Jacobi correction"] = close(P.arr("madd"), m)
        else: d["untouched"] = list(P.arr("madd")) == list(v["madd"])
        return d
class G4(BC):
    writes = ("x", "r", "madd")
    def __init__(self, N): self.N = N; self.fn = f"s_g4{N}"; self.name = f"GSS4.{N}"; self.subject = f"GSS4 public interface, block size {N}"
    def setup(self, S):
        S.int("n"); v = lambda N: lambda v: v["n"] * N
        S.array("pat", I8, lambda v: v["n"] * v["n"]); S.array("a", F64, lambda v: v["n"] * v["n"] * self.N**2)
        S.int("sub"); S.array("bits", I8, v(1)); S.int("pinv"); S.int("rep"); S.array("repl", F64, v(self.N**2)); S.real("om"); S.int("type")
        for x in ("x", "b", "r", "madd"): S.array(x, F64, v(self.N))
    def gen_cases(self, tier, rng):
        while True:
            c = self.base(rng, self.N); c["type"] = rng.randint(0, 3); c["rep"] = rng.randint(0, 2); M = c["n"] * self.N
            if c["type"] > 1: c["r"] = [p - q for p, q in zip(c["b"], mv(c["a"], M, M, c["x"]))]
            yield c
    def post(self, S, P):
        v = dict(S.v); v["N"] = self.N; n, N = v["n"], self.N; M = n * N; D = self.maker(v)
        x = gs_sweep(v, v["x"], v["b"], v["type"] % 2 == 1, D)
        m = list(v["madd"])
        for k in range(n):
            if not v["sub"] or v["bits"][k]:
                for u, w in enumerate(solve(D(k), v["b"][k * N:k * N + N])): m[k * N + u] += v["om"] * w
        r = [p - q for p, q in zip(v["b"], mv(v["a"], M, M, x))] if v["type"] > 1 else v["r"]
        return {"the iterate is the one of the plain iteration": close(P.arr("x"), x), "the residual belongs to the new iterate": close(P.arr("r"), r), "MultAdd adds the scaled block-Jacobi correction": close(P.arr("madd"), m)}
class HM(BC):
    name = "HiptMairSmoother"; fn = "s_hm"; subject = "HiptMairSmoother::Smooth, SmoothBack"; writes = ("x", "r"); sizes = (2, 3, 4, 5)
    def setup(self, S):
        S.int("n"); nn = lambda v: v["n"] ** 2; mm = lambda v: v["m"] ** 2; nm = lambda v: v["n"] * v["m"]
        S.array("pat", I8, nn); S.array("a", F64, nn); S.int("m"); S.array("patp", I8, mm); S.array("ap", F64, mm); S.array("patd", I8, nm); S.array("d", F64, nm)
        for x in ("pf", "ad", "type", "k", "ru", "ur", "xz"): S.int(x)
        for x in ("x", "b", "r"): S.array(x, F64, lambda v: v["n"])
    def gen_cases(self, tier, rng):
        while True:
            n = rng.choice(self.sizes); m = rng.randint(1, n - 1)
            pat, a = spd(rng, n, 1, rng.choice((0.3, 1.0)))
            d = [0.0] * (n * m); patd = [0] * (n * m)
            for i in range(n):
                for j in range(m):
                    if rng.random() < .6 or i == j: patd[i * m + j] = 1; d[i * m + j] = float(rng.randint(-2, 2) or 1)
            ap = [sum(d[k * m + i] * a[k * n + l] * d[l * m + j] for k in range(n) for l in range(n)) + (1.0 if i == j else 0) for i in range(m) for j in range(m)]
            vec = lambda: [rng.randint(-8, 8) / 2 for _ in range(n)]
            c = {"n": n, "m": m, "pat": pat, "a": a, "patp": [1] * (m * m), "ap": ap, "patd": patd, "d": d, "pf": rng.randint(0, 1), "ad": rng.randint(0, 1), "x": vec(), "b": vec(), "r": vec()}
            yield self.flags(rng, c, n)
    def post(self, S, P):
        v = S.v; n, m = v["n"], v["m"]
        R = {"n": n, "N": 1, "a": v["a"], "sub": 0}; Q = {"n": m, "N": 1, "a": v["ap"], "sub": 0}
        dR = lambda k: [[v["a"][k * n + k]]]; dQ = lambda k: [[v["ap"][k * m + k]]]
        res = lambda x: [p - q for p, q in zip(v["b"], mv(v["a"], n, n, x))]
        def pot(x, back):
            r = res(x); rp = [sum(v["d"][i * m + j] * r[i] for i in range(n)) for j in range(m)]
            y = gs_sweep(Q, [0.0] * m, rp, back, dQ)
            return [x[i] + sum(v["d"][i * m + j] * y[j] for j in range(m)) for i in range(n)]
        x = list(v["x"])
        for ch in self.seq(v):
            back = ch == "b"
            steps = ["p", "r"] if bool(v["pf"]) != back else ["r", "p"]
            for s in steps: x = pot(x, back) if s == "p" else gs_sweep(R, x, v["b"], back, dR)
        d = {"the iterate is the one of the plain iteration": close(P.arr("x"), x)}
        if v["ur"]: d["the residual belongs to the new iterate"] = close(P.arr("r"), res(x))
        return d
def contracts_api(): return [Sm(c, N) for c in range(4) for N in (1, 2, 3)] + [G4(N) for N in (1, 2, 3)] + [HM()]
