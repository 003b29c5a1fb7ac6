"""P10: block Gauss-Seidel smoothers and the dynamically blocked sparse matrix (bounded: they are built from NGSolve objects)."""
import numpy as np
from engb import Contract, I32, I8, F64
from c_smooth import spd
TU = "blk"
class B(Contract):
    tu = TU; engine = "bounded"; replay_s = 8; cap = 4000; rety = "i32"
def close(a, b, tol=1e-8): a, b = np.array(a, dtype=float), np.array(b, dtype=float); return bool(a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))))
def vec(rng, n): return [rng.randint(-8, 8) / 2 for _ in range(n)]
def state(rng, c, A, n, resid=False):
    """start vector, right hand side and a residual that fits the flags"""
    c.update(ru=1 if resid else rng.randint(0, 1), ur=rng.randint(0, 1), xz=int(rng.random() < .4), x=vec(rng, n), b=vec(rng, n), r=vec(rng, n), k=rng.choice((1, 1, 2, 3)))
    if c["xz"]: c["x"] = [0.0] * n
    if c["ru"]: c["r"] = list(map(float, np.array(c["b"]) - A @ np.array(c["x"])))
    return c
SEQ = {0: lambda k: "f", 1: lambda k: "b", 2: lambda k: "fb", 3: lambda k: "f" * k, 4: lambda k: "b" * k, 5: lambda k: "fb" * k, 6: lambda k: "f" * k, 7: lambda k: "b" * k, 8: lambda k: "fb" * k}
class BS(B):
    """blocks: any (overlapping, partial, unsorted) sets of vertices, disjoint and complete for the variant that relies on it"""
    writes = ("x", "r", "madd", "ord"); CL = ("BSmoother", "BSmoother2", "BSmoother2 (groups)", "BSmoother2 (disjoint blocks)")
    def __init__(self, cls, N): self.cls, self.N = cls, N; self.fn = f"k_bs{N}"; self.subject = self.CL[cls]; self.name = f"blk.{('BSmoother', 'BSmoother2', 'BSmoother2.groups', 'BSmoother2.disjoint')[cls]}.{N}"
    def setup(self, S):
        N = self.N; S.int("cls"); S.int("n"); S.array("pat", I8, lambda v: v["n"]**2); S.array("a", F64, lambda v: (v["n"] * N)**2); S.int("nb"); S.array("off", I32, lambda v: v["nb"] + 1); S.array("bd", I32, lambda v: v["off"][v["nb"]])
        for x in ("par", "sl2", "pinv", "no", "rep"): S.int(x)
        S.array("repl", F64, lambda v: v["n"] * N * N)
        for x in ("type", "k", "ru", "ur", "xz"): S.int(x)
        S.real("om")
        for x in ("x", "b", "r", "madd"): S.array(x, F64, lambda v: v["n"] * N)
        S.array("ord", I32, lambda v: v["nb"]); S.int("ng"); S.array("goff", I32, lambda v: v["ng"] + 1); S.int("gm"); S.array("grp", I32, lambda v: v["gm"])
    def gen_cases(self, tier, rng):
        N, cls = self.N, self.cls
        while True:
            n = rng.randint(1, 6); pat, a = spd(rng, n, N, rng.choice((.2, .5, 1.0))); M = n * N; pinv = rng.randint(0, 1)
            if pinv and cls != 3 and rng.random() < .4:                       # a vertex without any coupling and weight: the pseudo-inverse leaves it alone
                z = rng.randrange(n); A = np.array(a).reshape(M, M); A[z * N:z * N + N, :] = 0; A[:, z * N:z * N + N] = 0; a = [float(q) for q in A.flatten()]
            if cls == 3 or rng.random() < .4:
                p = list(range(n)); rng.shuffle(p); bl = []
                while p: s = rng.randint(1, min(3, len(p))); bl.append(p[:s]); p = p[s:]
                if cls != 3 and rng.random() < .5: bl = bl[:rng.randint(0, len(bl))]
            else: bl = [rng.sample(range(n), rng.randint(1, min(3, n))) for _ in range(rng.randint(0, 5))]
            off = [0]
            for q in bl: off.append(off[-1] + len(q))
            c = dict(cls=int(cls > 0), n=n, pat=pat, a=a, nb=len(bl), off=off, bd=[q for w in bl for q in w], par=rng.randint(0, 1), sl2=0, pinv=pinv, no=int(cls == 3), rep=0 if cls == 3 else rng.randint(0, 1), om=rng.choice((1.0, .5, -2.0)), type=rng.randint(0, 5), madd=vec(rng, M), ord=[-1] * len(bl), ng=0, goff=[0], gm=0, grp=[])
            if cls > 1 and rng.random() < .5 or cls == 2:
                c["ng"] = rng.randint(1, 3); cut = sorted(rng.randint(0, len(bl)) for _ in range(c["ng"] - 1)); c["goff"] = [0] + cut + [len(bl)]
                if cls == 2: c["type"] = rng.randint(6, 8); c["grp"] = sorted(rng.sample(range(c["ng"]), rng.randint(1, c["ng"]))); c["gm"] = len(c["grp"])
            rp = []
            for k in range(n):
                for u in range(N): rp += [a[(k * N + u) * M + k * N + w] + (n * N * rng.randint(1, 5) if u == w else 0) for w in range(N)]
            c["repl"] = rp; state(rng, c, np.array(a).reshape(M, M), M)
            yield c
    def post(self, S, P):
        v, N = S.v, self.N; n = v["n"]; M = n * N; A = np.array(v["a"]).reshape(M, M); b = np.array(v["b"]); x = np.array(v["x"]); ix = []; Di = []
        for k in range(v["nb"]):
            d = sorted(v["bd"][v["off"][k]:v["off"][k + 1]]); i = [q * N + u for q in d for u in range(N)]; D = A[np.ix_(i, i)].copy()
            if v["rep"]:
                for j, q in enumerate(d): D[j * N:j * N + N, j * N:j * N + N] = np.array(v["repl"][q * N * N:(q + 1) * N * N]).reshape(N, N)
            ix.append(i); Di.append(np.linalg.pinv(D, 1e-9) if len(i) else np.zeros((0, 0)))
        o = list(P.arr("ord"))
        if sorted(o) != list(range(v["nb"])): return {"every block is visited once": False}
        if v["type"] > 5: o = [k for g in v["grp"] for k in range(v["goff"][g], v["goff"][g + 1])]
        for ch in SEQ[v["type"]](v["k"]):
            for k in (o if ch == "f" else reversed(o)): x[ix[k]] += Di[k] @ (b[ix[k]] - A[ix[k], :] @ x)
        m = np.array(v["madd"])
        for k in range(v["nb"]): m[ix[k]] += v["om"] * (Di[k] @ b[ix[k]])
        d = {"the iterate is the one of the block sweep": close(P.arr("x"), x), "MultAdd adds the scaled block corrections": close(P.arr("madd"), m)}
        if v["ur"]: d["the residual belongs to the new iterate"] = close(P.arr("r"), b - A @ x)
        return d
def blocking(rng, n):
    o = [0]
    while o[-1] < n: o.append(min(n, o[-1] + rng.randint(1, 3)))
    return o
def blockpat(rng, ro, co, dens, sym):
    """pattern made of full blocks"""
    n, m = ro[-1], co[-1]; p = np.zeros((n, m), dtype=int); rep = {}
    for i in range(len(ro) - 1):
        for j in range(len(co) - 1):
            on = (p[co[j], ro[i]] if sym and j < i else i == j or rng.random() < dens) if sym else rng.random() < dens
            if on: p[ro[i]:ro[i + 1], co[j]:co[j + 1]] = 1
        if not sym and i and rng.random() < .5: p[ro[i]:ro[i + 1]] = p[ro[q := rng.randrange(i)]]   # rows with the same graph that are not neighbours
    return p
class Dyn(B):
    writes = ("y", "z", "o", "d", "hit", "rb"); fn = "k_dyn"
    def __init__(self, mode): self.mode = mode; self.name = f"blk.DynBlockSparseMatrix.{('graph', 'graph.columns', 'moved', 'shared', 'both.moved', 'both.shared', 'convert')[mode]}"; self.subject = "DynBlockSparseMatrix, Mult, MultAdd" if mode < 6 else "ConvertToDynSPM"
    def setup(self, S):
        S.int("mode"); S.int("n"); S.int("m"); S.array("pat", I8, lambda v: v["n"] * v["m"]); S.array("a", F64, lambda v: v["n"] * v["m"]); S.int("nr"); S.array("ro", I32, lambda v: v["nr"] + 1); S.int("nc"); S.array("co", I32, lambda v: v["nc"] + 1)
        S.real("s"); S.array("x", F64, lambda v: v["m"]); S.array("y", F64, lambda v: v["n"]); S.array("z", F64, lambda v: v["n"]); S.array("o", I32, lambda v: 6); S.array("d", F64, lambda v: v["n"] * v["m"]); S.array("hit", I32, lambda v: v["n"] * v["m"]); S.array("rb", I32, lambda v: v["n"])
    def gen_cases(self, tier, rng):
        while True:
            md = self.mode; sq = md in (0, 2, 3, 6); n = rng.randint(1, 9); m = n if sq else rng.randint(1, 9); ro = blocking(rng, n); co = ro if sq else blocking(rng, m); dens = rng.choice((.1, .3, .6, 1.0))
            p = blockpat(rng, ro, co, dens, sq and (md in (0, 6) or rng.random() < .5))
            if sq and rng.random() < .3:                         # rows and columns that are empty
                z = rng.randrange(len(ro) - 1); p[ro[z]:ro[z + 1]] = 0; p[:, ro[z]:ro[z + 1]] = 0
            a = [float(rng.randint(1, 9)) * rng.choice((1, -1)) if q else 0.0 for q in p.flatten()]
            nr, nc = (0, 0) if md in (0, 6) else (0, len(co) - 1) if md == 1 else (len(ro) - 1, 0) if md in (2, 3) else (len(ro) - 1, len(co) - 1)
            yield dict(mode=(0, 0, 1, 2, 3, 4, 5)[md], n=n, m=m, pat=[int(q) for q in p.flatten()], a=a, nr=nr, ro=ro if nr else [0], nc=nc, co=co if nc else [0], s=rng.choice((1.0, -1.0, .5)), x=vec(rng, m), y=vec(rng, n), z=vec(rng, n), o=[0] * 6, d=[0.0] * (n * m), hit=[0] * (n * m), rb=[-1] * n)
    def post(self, S, P):
        v = S.v; n, m = v["n"], v["m"]; A = np.array(v["a"]).reshape(n, m); x = np.array(v["x"]); o = list(P.arr("o")); rb = list(P.arr("rb")); pat = np.array(v["pat"]).reshape(n, m); nz = [i for i in range(n) if pat[i].any()]
        return {"dimensions": o[:2] == [n, m] and o[3] == int(pat.sum()), "every row is in exactly one block": all(0 <= q < o[2] for q in rb), "rows of a block have the same columns": all((pat[i] == pat[j]).all() for i in range(n) for j in range(n) if rb[i] == rb[j]),
                "every entry is stored exactly once": list(P.arr("hit")) == v["pat"], "entries": list(P.arr("d")) == v["a"], "Mult": close(P.arr("y"), A @ x), "MultAdd": close(P.arr("z"), np.array(v["z"]) + v["s"] * (A @ x)),
                "largest block": o[4] == max(rb.count(k) for k in range(o[2])) and o[5] == int(max(pat[i].sum() for i in range(n)))}
class Dys(B):
    writes = ("x", "r", "rb"); fn = "k_dys"
    def __init__(self, sel): self.sel = sel; self.name = "blk.DynBlockSmoother" + (".blocks" if sel else ""); self.subject = "DynBlockSmoother::updateBlocksRHS, updateBlocksRes" if sel else "DynBlockSmoother"
    def setup(self, S):
        S.int("mode"); S.int("n"); S.array("pat", I8, lambda v: v["n"]**2); S.array("a", F64, lambda v: v["n"]**2); S.int("nr"); S.array("ro", I32, lambda v: v["nr"] + 1); S.int("sub"); S.array("bits", I8, lambda v: v["n"]); S.int("rep"); S.array("repl", F64, lambda v: v["n"]); S.real("om")
        for x in ("type", "k", "ru", "ur", "xz"): S.int(x)
        for x in ("x", "b", "r"): S.array(x, F64, lambda v: v["n"])
        S.array("rb", I32, lambda v: v["n"])
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(1, 9); ro = blocking(rng, n); p = blockpat(rng, ro, ro, rng.choice((.1, .3, .6, 1.0)), True); a = np.zeros((n, n))
            if rng.random() < .3: z = rng.randrange(len(ro) - 1); p[ro[z]:ro[z + 1]] = 0; p[:, ro[z]:ro[z + 1]] = 0
            for i in range(n):
                for j in range(i):
                    if p[i, j]: a[i, j] = a[j, i] = rng.randint(-3, 3)
                if p[i, i]: a[i, i] = rng.randint(4, 9) * n
            md = rng.choice((0, 1, 2)); c = dict(mode=md, n=n, pat=[int(q) for q in p.flatten()], a=[float(q) for q in a.flatten()], nr=len(ro) - 1 if md else 0, ro=ro if md else [0], sub=rng.randint(0, 1), rep=rng.randint(0, 1), om=rng.choice((1.0, .5, .8)), type=rng.randint(6, 9) if self.sel else rng.randint(0, 5), rb=[-1] * n)
            c["bits"] = [int(rng.random() < rng.choice((.3, .8))) for _ in range(n)]; c["repl"] = [float(a[i, i]) + rng.randint(0, 9) for i in range(n)]; state(rng, c, a, n, self.sel and c["type"] > 7)
            yield c
    def post(self, S, P):
        v = S.v; n = v["n"]; A = np.array(v["a"]).reshape(n, n); x = np.array(v["x"]); b = np.array(v["b"]); rb = list(P.arr("rb")); D = A.copy()
        if v["rep"]: D[range(n), range(n)] = v["repl"]
        blk = [[i for i in range(n) if rb[i] == k and np.array(v["pat"]).reshape(n, n)[i].any() and (not v["sub"] or v["bits"][i])] for k in range(max(rb) + 1)]
        o = range(len(blk)) if not self.sel else [k for k in range(len(blk)) if k % 2 == v["k"] % 2]
        for ch in SEQ[v["type"]](v["k"]) if not self.sel else "fbfb"[v["type"] - 6]:
            for k in (o if ch == "f" else reversed(o)):
                i = blk[k]
                if i: x[i] += v["om"] * np.linalg.solve(D[np.ix_(i, i)], b[i] - A[i, :] @ x)
        d = {"the iterate is the one of the block sweep": close(P.arr("x"), x)}
        if (v["type"] > 7 if self.sel else v["ur"]): d["the residual belongs to the new iterate"] = close(P.arr("r"), b - A @ x)
        return d
def contracts_P10(): return [BS(c, N) for c in range(4) for N in (1, 2, 3)] + [Dyn(m) for m in range(7)] + [Dys(0), Dys(1)]
