"""P18: level transfers compose to the product of the prolongations; P15: the multigrid cycles (bounded: they work on NGSolve objects)."""
import numpy as np
from engb import Contract, I32, I8, F64
from c_smooth import spd
from c_blk import close, vec
TU = "mg"
class B(Contract):
    tu = TU; engine = "bounded"; replay_s = 8; cap = 4000; rety = "i32"
OKD = {(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 6), (3, 6), (6, 6)}
def levels(rng, nl, bs, kind=None):
    """sizes and prolongations (pattern and values; rows and columns may be empty)"""
    nd = [rng.randint(1, 4 if max(bs) > 3 else 7)]
    while len(nd) < nl: nd.append(rng.randint(1, max(1, nd[-1])))
    po, vo, pat, val = [0], [0], [], []
    for l in range(nl - 1):
        n, m, h, w = nd[l], nd[l + 1], bs[l], bs[l + 1]; d = rng.choice((.2, .5, .9)); p = [int(rng.random() < d) for _ in range(n * m)]
        if kind and kind[l] in (4, 5): p = [p[i // 2 * m + j // 3] for i in range(n) for j in range(m)]          # full blocks of 2 rows and 3 columns
        a = np.zeros((n * h, m * w))
        for i in range(n):
            for j in range(m):
                if p[i * m + j]: a[i * h:i * h + h, j * w:j * w + w] = [[rng.randint(-4, 4) / 2 for _ in range(w)] for _ in range(h)]
        pat += p; val += [float(q) for q in a.flatten()]; po.append(len(pat)); vo.append(len(val))
    return dict(nl=nl, nd=nd, bs=bs, po=po, pat=pat, vo=vo, val=val)
def prol(v, l, bs=None): bs = bs or v["bs"]; return np.array(v["val"][v["vo"][l]:v["vo"][l + 1]]).reshape(v["nd"][l] * bs[l], v["nd"][l + 1] * bs[l + 1])
def mapsetup(S, bs=True):
    S.int("nl"); S.array("nd", I32, lambda v: v["nl"])
    if bs: S.array("bs", I32, lambda v: v["nl"])
    S.array("kind", I32, lambda v: v["nl"] - 1); S.array("po", I32, lambda v: v["nl"]); S.array("pat", I8, lambda v: v["po"][v["nl"] - 1]); S.array("vo", I32, lambda v: v["nl"]); S.array("val", F64, lambda v: v["vo"][v["nl"] - 1])
def dims(rng, nl):
    if rng.random() < .4: return [rng.choice((1, 1, 2, 3, 6))] * nl
    b = [rng.choice((1, 2, 3))]
    while len(b) < nl: b.append(rng.choice([w for w in (1, 2, 3, 6) if (b[-1], w) in OKD]))
    return b
def kinds(rng, bs): return [rng.choice((0, 0, 0, 1, 2, 3, 6) + ((4, 4) if bs[l] == bs[l + 1] == 1 else ())) for l in range(len(bs) - 1)]
HOW = ("steps", "TransferAtoB", "ConcStep.symbolic", "ConcStep", "SubMap", "MakeSingleStep2", "ConcDMS")
class Tr(B):
    """applying the transfer between two levels = applying the product of the prolongations (or its transpose)"""
    writes = ("x", "y", "o"); fn = "m_trans"
    def __init__(self, how): self.how = how; self.name = "map.transfer." + HOW[how]; self.subject = ("ProlMap, MultiDofMapStep, ConcDMS, DynBlockProlMap transfers", "DOFMap::TransferAtoB", "DOFMap::ConcStep (symbolic)", "DOFMap::ConcStep, MakeSingleStep3, ProlMap::Concatenate", "DOFMap::SubMap", "MakeSingleStep2", "ConcDMS")[how]
    def setup(self, S):
        S.int("build"); mapsetup(S)
        for x in ("how", "la", "lb", "what"): S.int(x)
        S.real("fac"); S.int("nx"); S.int("ny"); S.array("x", F64, lambda v: v["nx"]); S.array("y", F64, lambda v: v["ny"]); S.array("o", I32, lambda v: v["nl"])
    def gen_cases(self, tier, rng):
        while True:
            nl = rng.randint(2, 5); bs = dims(rng, nl); kd = kinds(rng, bs); c = levels(rng, nl, bs, kd); la = rng.randint(0, nl - 2); lb = rng.randint(la + 1, nl - 1); what = rng.choice((0, 2)) if self.how in (1, 4) else rng.randint(0, 3)
            nx, ny = c["nd"][la] * bs[la], c["nd"][lb] * bs[lb]
            if what > 1: nx, ny = ny, nx
            c.update(build=rng.choice((0, 0, 1, 2)), kind=kd, how=self.how, la=la, lb=lb, what=what, fac=rng.choice((1.0, -1.0, .5)), nx=nx, ny=ny, x=vec(rng, nx), y=vec(rng, ny), o=[0] * nl)
            if self.how == 1 and rng.random() < .1: c["lb"] = la; c["what"] = 0; c["ny"] = nx = c["nd"][la] * bs[la]; c["nx"] = nx; c["x"] = vec(rng, nx); c["y"] = vec(rng, nx)
            yield c
    def post(self, S, P):
        v = S.v; M = np.eye(v["nd"][v["la"]] * v["bs"][v["la"]]); x = np.array(v["x"]); y = np.array(v["y"])
        for l in range(v["la"], v["lb"]): M = M @ prol(v, l)
        t = (M.T if v["what"] < 2 else M) @ x
        return {"the call works": P.ret == 0, "the vector handed in keeps its values": list(P.arr("x")) == v["x"], "the transfer applies the product of the prolongations": close(P.arr("y"), t if v["what"] % 2 == 0 else y + v["fac"] * t),
                "vectors have the size of their level": self.how == -1 or list(P.arr("o")) == [n * b for n, b in zip(v["nd"], v["bs"])]}
class As(B):
    """the coarse level matrices are the Galerkin products"""
    writes = ("d", "p"); fn = "m_asm"; N = ("AssembleMatrices", None, "ConcStep.symbolic", "ConcStep", None, "MakeSingleStep2", "ConcDMS")
    def __init__(self, how): self.how = how; self.name = "map.galerkin." + self.N[how]; self.subject = "DOFMap::AssembleMatrices" if not how else self.N[how] + " AssembleMatrix"
    def setup(self, S):
        S.int("build"); mapsetup(S); S.int("how"); S.int("lb"); S.array("apat", I8, lambda v: v["nd"][0]**2); S.array("a", F64, lambda v: (v["nd"][0] * v["bs"][0])**2); S.array("ao", I32, lambda v: v["nl"] + 1); S.array("d", F64, lambda v: v["ao"][v["nl"]])
        S.array("pp", I32, lambda v: v["nl"] + 1); S.array("p", I8, lambda v: v["pp"][v["nl"]])
    def gen_cases(self, tier, rng):
        while True:
            nl = rng.randint(2, 4); bs = dims(rng, nl); c = levels(rng, nl, bs); n, N = c["nd"][0], bs[0]
            if rng.random() < .7: pat, a = spd(rng, n, N, rng.choice((.2, .5, 1.0)))
            else:                                                              # not symmetric
                pat = [int(rng.random() < .5) for _ in range(n * n)]; a = [float(rng.randint(-4, 4)) if pat[(q // (n * N) // N) * n + (q % (n * N)) // N] else 0.0 for q in range((n * N)**2)]
            ao, pp = [0], [0]
            for l in range(nl): ao.append(ao[-1] + (c["nd"][l] * bs[l])**2); pp.append(pp[-1] + c["nd"][l]**2)
            c.update(build=rng.choice((0, 0, 1, 2)), kind=[0 if k in (4, 5) else k for k in kinds(rng, bs)], how=self.how, lb=rng.randint(1, nl - 1), apat=pat, a=a, ao=ao, d=[0.0] * ao[-1], pp=pp, p=[0] * pp[-1])
            yield c
    def post(self, S, P):
        v = S.v; A = np.array(v["a"]).reshape((v["nd"][0] * v["bs"][0],) * 2); d = np.array(P.arr("d")); out = {"the call works": P.ret == 0}
        for l in range(v["nl"]):
            if l: Q = prol(v, l - 1); A = Q.T @ A @ Q
            if self.how and l != v["lb"]: continue
            out[f"level {l}"] = close(d[v["ao"][l]:v["ao"][l + 1]], A.flatten()) and max(list(P.arr("p"))[v["pp"][l]:v["pp"][l + 1]]) <= 1
        return out
class MG(B):
    """one cycle applied to vectors = the textbook recursion on the dense matrices"""
    writes = ("x", "b", "r"); OPS = ("Mult", "MultTrans", "MultAdd", "MultTransAdd", "SmoothVFromLevel", "AMGSmoother.Smooth", "AMGSmoother.SmoothBack", "AMGSmoother.single.Smooth", "AMGSmoother.single.SmoothBack", "CINV", "GetBF", "Embedded.Mult", "Embedded.MultTrans", "Embedded.MultAdd", "Embedded.MultTransAdd", "Embedded.CINV", "Embedded.GetBF")
    def __init__(self, op, N): self.op, self.N = op, N; self.fn = f"m_mg{N}"; self.name = f"mg.{self.OPS[op]}.{N}"; self.subject = ("AMGMatrix::" if op < 5 or op in (9, 10) else "" if op < 9 else "EmbeddedAMGMatrix::") + self.OPS[op].replace(".", "::").replace("Embedded::", "")
    def setup(self, S):
        N = self.N; mapsetup(S, False); S.array("apat", I8, lambda v: v["nd"][0]**2); S.array("a", F64, lambda v: (v["nd"][0] * N)**2); S.array("sm", I32, lambda v: v["nl"] - 1); S.int("sub"); S.array("bits", I8, lambda v: v["nd"][0]); S.int("inv"); S.array("ci", F64, lambda v: (v["nd"][v["nl"] - 1] * N)**2)
        for x in ("vwb", "op", "emb", "st", "ru", "ur", "xz"): S.int(x)
        S.real("s"); S.int("rep"); S.int("nx")
        S.array("x", F64, lambda v: v["nx"]); S.array("b", F64, lambda v: v["nx"]); S.array("r", F64, lambda v: v["nx"])
    def gen_cases(self, tier, rng):
        N, op = self.N, self.op
        while True:
            E = op > 10; nl = rng.randint(3 if E else 2, 5); bs = [N] * nl; c = levels(rng, nl, bs); pat, a = spd(rng, c["nd"][0], N, rng.choice((.2, .5, 1.0))); A = np.array(a).reshape((c["nd"][0] * N,) * 2); Z = A; bad = False
            for l in range(nl - 1): Q = prol(c, l, bs); Z = Q.T @ Z @ Q; bad |= np.linalg.cond(Z) > 1e4
            if bad: continue
            c.update(kind=[rng.choice((0, 0, 1, 2, 3, 6)) for _ in range(nl - 1)], apat=pat, a=a, sm=[rng.choice((0, 0, 1, 2, 3)) for _ in range(nl - 1)], sub=rng.randint(0, 1), bits=[int(rng.random() < .8) for _ in range(c["nd"][0])], inv=rng.choice((2, 2, 2, 1, 0)) if op not in (9, 15) else 2, vwb=rng.randint(0, 2), op=op, emb=rng.randint(0, 1), st=0, ru=0, ur=0, xz=0, s=rng.choice((1.0, -1.0, .5)), rep=rng.choice((1, 1, 2)))
            c["ci"] = [float(q) for q in np.linalg.inv(Z).flatten()]; 
            if c["inv"] == 2 and rng.random() < .5: k = rng.randrange(len(c["ci"])); c["ci"][k] *= 1.5        # any linear map can take the place of the coarse inverse
            if 3 < op < 9:
                c["st"] = rng.randint(0, nl - 2); c.update(ru=rng.randint(0, 1), ur=rng.randint(0, 1), xz=int(rng.random() < .4)); n = c["nd"][c["st"]] * N; c["rep"] = 1
            elif op in (10, 16):
                c["st"] = rng.randint(0, nl - 1 - E); c["ru"] = 0 if E else rng.randint(0, nl - 1 if rng.random() < .3 else c["st"]); n = c["nd"][c["ru"]] * N; c["ur"] = rng.randrange(c["nd"][c["st"] + E] + 1); c["xz"] = rng.randrange(N + (rng.random() < .2))
            else: n = c["nd"][0] * N
            c.update(nx=n, x=vec(rng, n), b=vec(rng, n), r=vec(rng, n))
            if 3 < op < 9:
                if c["xz"]: c["x"] = [0.0] * n
                Z = A
                for l in range(c["st"]): Q = prol(c, l, bs); Z = Q.T @ Z @ Q
                if c["ru"]: c["r"] = [float(q) for q in np.array(c["b"]) - Z @ np.array(c["x"])]
            c["bs"] = bs; yield c
    def post(self, S, P):
        v, N, op = S.v, self.N, self.op; nl = v["nl"]; bs = [N] * nl; Q = [prol(v, l, bs) for l in range(nl - 1)]; A = [np.array(v["a"]).reshape((v["nd"][0] * N,) * 2)]; E = op > 10
        for q in Q: A.append(q.T @ A[-1] @ q)
        mx = [1.0]
        def note(x): mx[0] = max(mx[0], float(np.max(np.abs(x), initial=0))); return x
        C = np.array(v["ci"]).reshape(A[-1].shape) if v["inv"] == 2 else np.zeros_like(A[-1])
        def sw(l, x, b, back):
            a = A[l]; x = x.copy(); t = v["sm"][l]; free = lambda k: l or not v["sub"] or v["bits"][k]; n = v["nd"][l]
            ix = lambda k: slice(k * N, k * N + N)
            if t == 1:
                r = note(b - a @ x)
                for k in range(n):
                    if free(k): x[ix(k)] += .5 * np.linalg.solve(a[ix(k), ix(k)], r[ix(k)])
                return x
            for ch in {0: "b" if back else "f", 2: "bb" if back else "ff", 3: "fb"}[t]:
                for k in (reversed(range(n)) if ch == "b" else range(n)):
                    if free(k): x[ix(k)] += np.linalg.solve(a[ix(k), ix(k)], b[ix(k)] - a[ix(k), :] @ x)
            return note(x)
        def cyc(l, b, x=None, kind=None):
            """cycle from level l, started from x"""
            x = np.zeros(len(b)) if x is None else x; kind = v["vwb"] if kind is None else kind
            if l == nl - 1: return note(C @ b)
            def coarse(x): return x + Q[l] @ cyc(l + 1, Q[l].T @ (b - A[l] @ x), None, kind)
            if kind == 0: return sw(l, coarse(sw(l, x, b, 0)), b, 1)
            if kind == 1: return sw(l, coarse(sw(l, sw(l, coarse(sw(l, x, b, 0)), b, 1), b, 0)), b, 1)
            return cyc(l, b, coarse(cyc(l, b, x, 0)), 0)                       # V-cycle as the smoother
        x, b = np.array(v["x"]), np.array(v["b"]); out = {"the call works": P.ret == 0, "right hand side": list(P.arr("b")) == v["b"]}; y = x; res = None; st = v["st"]
        def Emb(b):
            if v["emb"]: z = sw(0, np.zeros(len(b)), b, 0); z = z + Q[0] @ cyc(1, Q[0].T @ (b - A[0] @ z)); return sw(0, z, b, 1)
            return Q[0] @ cyc(1, Q[0].T @ b)
        for _ in range(v["rep"]):
            if op in (0, 1): y = cyc(0, b)
            elif op in (2, 3): y = y + v["s"] * cyc(0, b)
            elif op in (11, 12): y = Emb(b)
            elif op in (13, 14): y = y + v["s"] * Emb(b)
            elif op in (4, 5, 6): y = cyc(st, b, x, 0)
            elif op == 7: y = x + Q[st] @ cyc(st + 1, Q[st].T @ (b - A[st] @ x), None, 0); y = sw(st, y, b, 0)
            elif op == 8: y = sw(st, x, b, 1); y = y + Q[st] @ cyc(st + 1, Q[st].T @ (b - A[st] @ y), None, 0)
            elif op in (9, 15):
                p = np.eye(len(b))
                for q in Q: p = p @ q
                y = p @ (C @ (p.T @ b))
            elif op in (10, 16):
                lv = st + E; dof, comp, on = v["ur"], v["xz"], v["ru"]
                y = np.zeros(v["nd"][lv] * N)
                if dof >= v["nd"][lv] or comp >= N: out["nothing but zeros for an index that does not exist"] = not any(P.arr("x")); return out
                y[dof * N + comp] = 1
                for l in range(lv - 1, on - 1, -1): y = Q[l] @ y
                for l in range(lv, on): y = Q[l].T @ y
        if mx[0] > 1e5: return {}                                              # divergent smoothers: nothing left after cancellation
        out["the result is the one of the cycle"] = close(P.arr("x"), y, 1e-9 * mx[0])
        if 3 < op < 9 and v["ur"]: out["the residual belongs to the new iterate"] = close(P.arr("r"), b - A[st] @ y, 1e-10 * mx[0] * (100 + float(np.max(np.abs(A[st])))))
        return out
def contracts_P18(): return [Tr(h) for h in range(7)] + [As(h) for h in (0, 2, 3, 5, 6)]
def contracts_P15(): return [MG(o, N) for o in range(17) for N in (1, 2, 3)]
