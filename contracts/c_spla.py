"""P08: sparse matrix utilities against the dense definition of the operation (bounded)."""
from engb import *
import logic as L, itertools
TU = "spla"
TOL = 1e-11
def close(a, b): return len(a) == len(b) and all(abs(p - q) <= TOL * (1 + abs(p) + abs(q)) for p, q in zip(a, b))
# matrices as {(row, col): [block entries]}
def bmul(x, y, H, K, W): return [sum(x[i * K + k] * y[k * W + j] for k in range(K)) for i in range(H) for j in range(W)]
def btr(x, H, W): return [x[i * W + j] for j in range(W) for i in range(H)]
def badd(x, y, a=1.0, b=1.0): return [a * p + b * q for p, q in zip(x, y)]
def tr(A, H, W): return {(c, r): btr(v, H, W) for (r, c), v in A.items()}
def mul(A, B, H, K, W):
    rows = {}
    for (r, c), v in B.items(): rows.setdefault(r, []).append((c, v))
    o = {}
    for (r, c), v in A.items():
        for c2, w in rows.get(c, ()):
            p = bmul(v, w, H, K, W); o[r, c2] = badd(o[r, c2], p) if (r, c2) in o else p
    return o
def add(A, B, a=1.0, b=1.0):
    z = lambda v: [0.0] * len(v)
    return {k: badd(A.get(k) or z(B[k]), B.get(k) or z(A[k]), a, b) for k in set(A) | set(B)}
def flat(A):
    ks = sorted(A); return [k[0] for k in ks], [k[1] for k in ks], [x for k in ks for x in A[k]]
def rnd(rng, n, m, bs, dens, cols=None):
    cols = cols or range(m)
    return {(r, c): [float(rng.randint(-4, 4)) for _ in range(bs)] for r in range(n) for c in cols if rng.random() < dens}
class SC(Contract):
    tu = TU; engine = "bounded"; rety = "i32"; replay_s = 8; cap = 4000
    ins = ("A",)
    def im(self, S, A, bs):
        for x in "nmk": S.int(A + x)
        S.array(A + "r", I32, lambda v: v[A + "k"]); S.array(A + "c", I32, lambda v: v[A + "k"]); S.array(A + "v", F64, lambda v: v[A + "k"] * bs)
    def om(self, S):
        S.int("cap"); S.array("o", I32, lambda v: 5); S.array("r", I32, lambda v: v["cap"]); S.array("c", I32, lambda v: v["cap"]); S.array("v", F64, lambda v: v["cap"] * self.obs)
    writes = ("o", "r", "c", "v")
    def outc(self, c, cap):
        c.update(cap=cap, o=[0] * 5, r=[0] * cap, c=[0] * cap, v=[0.0] * (cap * self.obs)); return c
    def put(self, c, nm, A, n, m):
        r, cc, v = flat(A); c.update({nm + "n": n, nm + "m": m, nm + "k": len(r), nm + "r": r, nm + "c": cc, nm + "v": v})
    def get(self, v, nm, bs):
        return {(v[nm + "r"][i], v[nm + "c"][i]): list(v[nm + "v"][i * bs:i * bs + bs]) for i in range(v[nm + "k"])}
    def expect(self, P, A, n, m, H, W):
        o = list(P.arr("o")); r, c, v = flat(A); k = len(r)
        if P.ret != 0: return {"the result exists": False}
        return {"dimensions": o == [n, m, k, H, W], "entries and their order": list(P.arr("r"))[:k] == r and list(P.arr("c"))[:k] == c, "values": close(list(P.arr("v"))[:k * H * W], v)}
    def dims(self, rng): return rng.choice((1, 2, 3, 4, 5, 7)), rng.choice((1, 2, 3, 4, 5, 7))
    def dens(self, rng): return rng.choice((0.0, 0.2, 0.5, 0.8, 1.0))
class Tr(SC):
    def __init__(self, H, W, gen): self.H, self.W = H, W; self.obs = H * W; self.fn = f"m_tr{'g' if gen else ''}{H}{W}"; self.name = f"transpose.{'generic.' if gen else ''}{H}x{W}"; self.subject = "TransposeAGeneric" if gen else "TransposeSPM"
    def setup(self, S): self.im(S, "A", self.H * self.W); self.om(S)
    def gen_cases(self, tier, rng):
        while True:
            n, m = self.dims(rng); c = {}; A = rnd(rng, n, m, self.obs, self.dens(rng)); self.put(c, "A", A, n, m); yield self.outc(c, len(A))
    def post(self, S, P):
        v = S.v; return self.expect(P, tr(self.get(v, "A", self.obs), self.H, self.W), v["Am"], v["An"], self.W, self.H)
class Cmp(SC):
    def __init__(self, H, W): self.H, self.W = H, W; self.obs = H * W; self.fn = f"m_cmp{H}{W}"; self.name = f"compress.{H}x{W}"; self.subject = "CompressAGeneric"
    def setup(self, S): self.im(S, "A", self.obs); S.real("th"); self.om(S)
    def gen_cases(self, tier, rng):
        while True:
            n, m = self.dims(rng); c = {}; A = rnd(rng, n, m, self.obs, self.dens(rng))
            for k in A:
                if rng.random() < .4: A[k] = [rng.choice((0.0, 0.0, 1e-30, -0.5, 0.5)) for _ in A[k]]
            c["th"] = rng.choice((1e-20, 1e-20, 0.3, 0.9)); self.put(c, "A", A, n, m); c2 = self.outc(c, len(A)); c2["th"] = c["th"]; yield c2
    def post(self, S, P):
        v = S.v; A = self.get(v, "A", self.obs)
        return self.expect(P, {k: x for k, x in A.items() if sum(map(abs, x)) > v["th"] * self.obs}, v["An"], v["Am"], self.H, self.W)
class Add(SC):
    def __init__(self, H, W): self.H, self.W = H, W; self.obs = H * W; self.fn = f"m_add{H}{W}"; self.name = f"add.{H}x{W}"; self.subject = "AddABGeneric"
    def setup(self, S):
        self.im(S, "A", self.obs); self.im(S, "B", self.obs); S.real("al"); S.real("be"); S.int("sc"); S.real("sa"); S.real("sb"); self.om(S)
    def gen_cases(self, tier, rng):
        while True:
            n, m = self.dims(rng); c = {}; A = rnd(rng, n, m, self.obs, self.dens(rng)); B = rnd(rng, n, m, self.obs, self.dens(rng)); self.put(c, "A", A, n, m); self.put(c, "B", B, n, m)
            z = lambda: rng.choice((1.0, 1.0, -1.0, 0.5, 3.0))
            c.update(al=z(), be=z(), sc=rng.choice((0, 0, 1, 2, 3)), sa=rng.choice((2.0, -0.5)), sb=rng.choice((2.0, -0.25))); yield self.outc(c, len(set(A) | set(B)))
    def post(self, S, P):
        v = S.v; A, B = self.get(v, "A", self.obs), self.get(v, "B", self.obs)
        return self.expect(P, add(A, B, v["al"] * (v["sa"] if v["sc"] & 1 else 1), v["be"] * (v["sb"] if v["sc"] & 2 else 1)), v["An"], v["Am"], self.H, self.W)
WIDE = [0, 1, 2, 3, 2047, 2048, 2049, 4095, 4096, 4097, 6144, 6145]
class Mul(SC):
    """columns that coincide modulo the size of the hash table are included"""
    def __init__(self, H, K, W, kind): 
        self.H, self.K, self.W, self.kind = H, K, W, kind; self.obs = H * W; self.fn = f"m_{kind}{H}{K}{W}"
        self.name = f"product.{dict(mm='plain', mg='generic', mu='updated')[kind]}.{H}x{K}x{W}"; self.subject = dict(mm="MatMultAB", mg="MatMultABGeneric", mu="MatMultABUpdateVals")[kind]
    def setup(self, S):
        self.im(S, "A", self.H * self.K); self.im(S, "B", self.K * self.W)
        if self.kind == "mu": S.array("va", F64, lambda v: v["Ak"] * self.H * self.K); S.array("vb", F64, lambda v: v["Bk"] * self.K * self.W)
        self.om(S)
    def gen_cases(self, tier, rng):
        first = True
        while True:
            n, k = self.dims(rng); wide = rng.random() < .3; m = 6200 if wide else rng.choice((1, 2, 3, 5)); c = {}
            huge = (first or rng.random() < .01) and self.obs == 1; first = False
            if huge: m = 9000; wide = True
            cols = sorted(rng.sample(range(m), rng.choice((1500, 2500)))) if huge else sorted(rng.sample(WIDE, rng.randint(1, 9))) if wide else None
            A = rnd(rng, n, k, self.H * self.K, self.dens(rng)); B = rnd(rng, k, m, self.K * self.W, self.dens(rng), cols)
            self.put(c, "A", A, n, k); self.put(c, "B", B, k, m)
            if self.kind == "mu":
                c["va"] = [float(rng.randint(-4, 4)) for _ in c["Av"]]; c["vb"] = [float(rng.randint(-4, 4)) for _ in c["Bv"]]
            z = {}
            for (r, q) in A: z.setdefault(q, []).append(r)
            yield self.outc(c, len({(r, q2) for (q, q2) in B for r in z.get(q, ())}))
    def post(self, S, P):
        v = dict(S.v)
        if self.kind == "mu": v["Av"], v["Bv"] = v["va"], v["vb"]
        return self.expect(P, mul(self.get(v, "A", self.H * self.K), self.get(v, "B", self.K * self.W), self.H, self.K, self.W), v["An"], v["Bm"], self.H, self.W)
class Rk(SC):
    def __init__(self, H, W): self.H, self.W = H, W; self.obs = H * W; self.fn = f"m_rk{H}{W}"; self.name = f"galerkin.{H}x{W}"; self.subject = "RestrictMatrix, RestrictMatrixKeepFactor"
    def setup(self, S): self.im(S, "A", self.H * self.H); self.im(S, "B", self.H * self.W); S.int("which"); self.om(S)
    def calc(self, A, P, which):
        AP = mul(A, P, self.H, self.H, self.W)
        return AP if which == 0 else mul(tr(P, self.H, self.W), AP, self.W, self.H, self.W)
    def gen_cases(self, tier, rng):
        while True:
            n = self.dims(rng)[0]; m = rng.choice((1, 2, 3)); c = {}; A = rnd(rng, n, n, self.H**2, self.dens(rng)); Pm = rnd(rng, n, m, self.obs, self.dens(rng)); w = rng.randint(0, 2)
            self.put(c, "A", A, n, n); self.put(c, "B", Pm, n, m); c["which"] = w; yield self.outc(c, len(self.calc(A, Pm, w)))
    def post(self, S, P):
        v = S.v; w = v["which"]; C = self.calc(self.get(v, "A", self.H**2), self.get(v, "B", self.obs), w)
        return self.expect(P, C, v["An"] if w == 0 else v["Bm"], v["Bm"], self.H if w == 0 else self.W, self.W)
class Rb(SC):
    def __init__(self, H): self.H = H; self.obs = H * H; self.fn = f"m_rb{H}"; self.name = f"restrict_to_blocks.{H}"; self.subject = "restrictMatrixToBlocks"
    def setup(self, S):
        self.im(S, "A", self.obs); S.int("nb"); S.int("nr"); S.array("roff", I32, lambda v: v["nb"] + 1); S.array("rr", I32, lambda v: v["nr"]); S.int("nc"); S.array("coff", I32, lambda v: v["nb"] + 1); S.array("cc", I32, lambda v: v["nc"]); S.real("th"); self.om(S)
    def gen_cases(self, tier, rng):
        while True:
            n, m = self.dims(rng); c = {}; A = rnd(rng, n, m, self.obs, self.dens(rng)); self.put(c, "A", A, n, m); nb = rng.randint(0, 3)
            R = [sorted(rng.sample(range(n), rng.randint(0, n))) for _ in range(nb)]; C = [sorted(rng.sample(range(m), rng.randint(0, m))) for _ in range(nb)]
            acc = lambda T: [sum(map(len, T[:i])) for i in range(len(T) + 1)]
            c.update(nb=nb, nr=sum(map(len, R)), roff=acc(R), rr=sum(R, []), nc=sum(map(len, C)), coff=acc(C), cc=sum(C, []), th=1e-20); yield self.outc(c, len(A))
    def post(self, S, P):
        v = S.v; A = self.get(v, "A", self.obs); out = {}
        for (r, q), x in A.items():
            ok = all(q in v["cc"][v["coff"][b]:v["coff"][b + 1]] for b in range(v["nb"]) if r in v["rr"][v["roff"][b]:v["roff"][b + 1]])
            if ok and any(x): out[r, q] = x
        return self.expect(P, out, v["An"], v["Am"], self.H, self.H)
class Pm(SC):
    def __init__(self, H): self.H = H; self.obs = H * H; self.fn = f"m_pm{H}"; self.name = f"permutation.{H}"; self.subject = "BuildPermutationMatrix"; self.replay_s = 3
    def setup(self, S): S.int("n"); S.array("sort", I32, lambda v: v["n"]); self.om(S)
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(0, 8); s = list(range(n)); rng.shuffle(s); yield self.outc({"n": n, "sort": s}, n)
    def post(self, S, P):
        v = S.v; H = self.H; return self.expect(P, {(i, j): [float(a == b) for a in range(H) for b in range(H)] for i, j in enumerate(v["sort"])}, v["n"], v["n"], H, H)
class Ex(SC):
    OPS = ("transpose", "product", "sum", "sum with identity", "identity plus", "product with identity", "identity times", "transposed sum", "product with sum", "embedding", "embedded sum")
    def __init__(self, H, what): self.H, self.what = H, what; self.obs = H * H; self.fn = f"m_ex{H}"; self.name = f"expression.{self.OPS[what].replace(' ', '_')}.{H}"; self.subject = "BaseMatrixToSparse"; self.replay_s = 4
    def setup(self, S): self.im(S, "A", self.obs); self.im(S, "B", self.obs); S.int("what"); S.int("off"); S.int("h"); self.om(S)
    def calc(self, A, B, n, off):
        H, w = self.H, self.what; I = {(i, i): [float(a == b) for a in range(H) for b in range(H)] for i in range(n)}
        emb = lambda M: {(r + off, c): x for (r, c), x in M.items()}
        return [lambda: tr(A, H, H), lambda: mul(A, B, H, H, H), lambda: add(A, B), lambda: add(A, I), lambda: add(I, A), lambda: A, lambda: A, lambda: tr(add(A, B), H, H), lambda: mul(A, add(A, B), H, H, H), lambda: emb(A), lambda: emb(add(A, B))][w]()
    def gen_cases(self, tier, rng):
        while True:
            n = self.dims(rng)[0]; c = {}; A = rnd(rng, n, n, self.obs, self.dens(rng)); B = rnd(rng, n, n, self.obs, self.dens(rng)); off = rng.randint(0, 3)
            self.put(c, "A", A, n, n); self.put(c, "B", B, n, n); c.update(what=self.what, off=off, h=n + off + rng.randint(0, 3)); yield self.outc(c, len(self.calc(A, B, n, off)))
    def post(self, S, P):
        v = S.v; n = v["An"]; return self.expect(P, self.calc(self.get(v, "A", self.obs), self.get(v, "B", self.obs), n, v["off"]), v["h"] if self.what >= 9 else n, n, self.H, self.H)
class Bm(SC):
    def __init__(self, H): self.H = H; self.obs = H * H; self.fn = f"m_bm{H}"; self.name = f"expression.block_matrix.{H}"; self.subject = "BaseMatrixToSparse (block matrix)"
    def setup(self, S):
        self.im(S, "A", self.obs); S.int("nr"); S.array("ro", I32, lambda v: v["nr"] + 1); S.int("nc"); S.array("co", I32, lambda v: v["nc"] + 1); S.array("pres", I8, lambda v: v["nr"] * v["nc"]); self.om(S)
    def gen_cases(self, tier, rng):
        while True:
            nr = nc = rng.randint(1, 3)    # NGSolve's BlockMatrix constructor only takes square block structures
            acc = lambda k: list(itertools.accumulate([rng.randint(1, 3) for _ in range(k)], initial=0))
            ro, co = acc(nr), acc(nc); pres = [int(rng.random() < .75) for _ in range(nr * nc)]
            if any(not any(pres[i * nc:i * nc + nc]) for i in range(nr)) or any(not any(pres[j::nc]) for j in range(nc)): continue
            c = {}; A = rnd(rng, ro[-1], co[-1], self.obs, self.dens(rng))
            bl = lambda o, x: max(i for i in range(len(o)) if o[i] <= x)
            A = {k: x for k, x in A.items() if pres[bl(ro, k[0]) * nc + bl(co, k[1])]}
            self.put(c, "A", A, ro[-1], co[-1]); c.update(nr=nr, ro=ro, nc=nc, co=co, pres=pres); yield self.outc(c, len(A))
    def post(self, S, P):
        v = S.v; return self.expect(P, self.get(v, "A", self.obs), v["An"], v["Am"], self.H, self.H)
T = ((1, 1), (2, 2), (1, 2), (2, 3), (3, 1), (3, 6), (6, 6))
M = ((1, 1, 1), (2, 2, 2), (1, 1, 2), (2, 1, 2), (2, 3, 3), (3, 3, 6), (6, 3, 6), (3, 1, 3))
def contracts_P08():
    return [Tr(*t, g) for t in T for g in (0, 1)] + [Cmp(*t) for t in T] + [Add(*t) for t in T] + [Mul(*m, k) for m in M for k in ("mm", "mg", "mu")] + [Rk(h, h) for h in (1, 2, 3)] + [Rb(1), Rb(2), Pm(1), Pm(3), Pm(6)] + \
        [Ex(h, w) for h in (1, 2) for w in range(len(Ex.OPS))] + [Bm(1), Bm(2)]
