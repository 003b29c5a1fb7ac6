"""P05: dense block algebra.  Small fixed-size kernels are proved over all real inputs; decompositions (LAPACK) are bounded."""
import enga, engb
from enga import ContractA, M, mm, T, add, scal, flat, diff, eye
from engb import Contract, I32, F64
import numpy as np, random, itertools, math
TU = "dense"
def blk(v, N, n): return M(v, N * n, N * n)
def tr(A): return sum((A[i][i] for i in range(1, len(A))), A[0][0])
class D(ContractA):
    """spec(v) -> dict of (output values, expected values)"""
    tu = TU
    def __init__(self, name, fn, setup, spec, subject=""): self.name, self.fn, self._setup, self._spec = "dense." + name, fn, setup, spec; self.subject = subject or name
    def setup(self, S): self._setup(S)
    def post(self, S, P): return {k: [a - b for a, b in zip(o, e)] if len(o) == len(e) else [False] for k, (o, e) in self._spec(S.v, P.arr).items()}
def _arr(*ns): return lambda S: [S.array(nm, n) if n else S.real(nm) for nm, n in ns] and None
class InOut:
    """before-values of arrays that are updated in place"""
# in-place arrays: v[name] are the old values, arr(name) the new ones
def products():
    out = []
    for N in (1, 2, 3):
        n2 = N * N
        def st(names, f=False):
            def g(S, n2=n2):
                if f: S.real("f")
                for x in names: S.array(x, n2) if x in "abc" else S.out(x, n2)
            return g
        def stf(names):
            def g(S, n2=n2):
                S.real("f")
                for x in names: S.array(x, n2)
            return g
        out += [D(f"triple_product.{N}", f"d_triple{N}", st("abco"), lambda v, a, N=N: {"A B C": (a("o"), flat(mm(M(v["a"], N, N), mm(M(v["b"], N, N), M(v["c"], N, N)))))}, "TripleProd"),
                D(f"add_triple_product.{N}", f"d_addtriple{N}", stf("abco"), lambda v, a, N=N: {"out + fac A B C": (a("o"), flat(enga.add(M(v["o"], N, N), scal(v["f"], mm(M(v["a"], N, N), mm(M(v["b"], N, N), M(v["c"], N, N)))))))}, "AddTripleProd"),
                D(f"congruence.{N}", f"d_atba{N}", st("abo"), lambda v, a, N=N: {"A^T B A": (a("o"), flat(mm(T(M(v["a"], N, N)), mm(M(v["b"], N, N), M(v["a"], N, N)))))}, "AT_B_A"),
                D(f"add_congruence.{N}", f"d_addatba{N}", stf("abo"), lambda v, a, N=N: {"out + fac A^T B A": (a("o"), flat(enga.add(M(v["o"], N, N), scal(v["f"], mm(T(M(v["a"], N, N)), mm(M(v["b"], N, N), M(v["a"], N, N)))))))}, "Add_AT_B_A")]
    def r(*names): return lambda S: ([S.real(x) for x in names], S.array("o", 1)) and None
    out += [D("triple_product.scalar", "d_triples", r("a", "b", "c"), lambda v, a: {"a b c": (a("o"), [v["a"] * v["b"] * v["c"]])}, "TripleProd"),
            D("add_triple_product.scalar", "d_addtriples", r("f", "a", "b", "c"), lambda v, a: {"out + f a b c": (a("o"), [v["o"][0] + v["f"] * v["a"] * v["b"] * v["c"]])}, "AddTripleProd"),
            D("congruence.scalar", "d_atbas", r("a", "b"), lambda v, a: {"a b a": (a("o"), [v["a"] * v["b"] * v["a"]])}, "AT_B_A"),
            D("add_congruence.scalar", "d_addatbas", r("f", "a", "b"), lambda v, a: {"out + f a b a": (a("o"), [v["o"][0] + v["f"] * v["a"] * v["b"] * v["a"]])}, "Add_AT_B_A")]
    return out
def traces():
    out = []
    for N in (1, 2, 3, 6):
        def st(S, N=N): S.array("a", N * N); S.out("o", 4)
        def sp(v, a, N=N):
            t = tr(M(v["a"], N, N)); return {"trace and average trace": (a("o"), [t, t * enga.Fraction(1, N) if not isinstance(t, float) else t / N] * 2)}
        out.append(D(f"trace.{N}", f"d_trace{N}", st, sp, "calc_trace, CalcAvgTrace"))
    def st(S): S.real("a"); S.out("o", 2)
    out.append(D("trace.scalar", "d_traces", st, lambda v, a: {"trace and average trace": (a("o"), [v["a"], v["a"]])}, "calc_trace, CalcAvgTrace"))
    return out
def transfers():
    out = []
    for N in (1, 2, 3, 0):                # 0: scalar
        B = N or 1; sfx = str(N) if N else "s"
        for i, j in {(0, 0), (6 - B, 0), (1, 6 - B), (2, 1)}:
            def sin(S, i=i, j=j, N=N, B=B): S.array("m", 36); S.int("i", i); S.int("j", j); S.real("s"); S.array("x", N * N) if N else S.real("x")
            def sout(S, i=i, j=j, N=N, B=B): S.array("x", B * B); S.int("i", i); S.int("j", j); S.real("s"); S.array("m", 36)
            def big(v, a, ad, i=i, j=j, N=N, B=B):
                x = v["x"] if N else [v["x"]]; e = list(v["m"])
                for p in range(B):
                    for q in range(B):
                        k = 6 * (i + p) + j + q; t = v["s"] * x[B * p + q]; e[k] = e[k] + t if ad else t
                return {"only the block changes, to the stated value": (a("m"), e)}
            def small(v, a, ad, i=i, j=j, B=B):
                e = [(v["x"][B * p + q] + v["s"] * v["m"][6 * (i + p) + j + q]) if ad else v["s"] * v["m"][6 * (i + p) + j + q] for p in range(B) for q in range(B)]
                return {"block": (a("x"), e), "the matrix is not changed": (a("m"), v["m"])}
            out += [D(f"addTM.{sfx}.{i}.{j}", "d_addtm" + sfx, sin, lambda v, a, f=big: f(v, a, True), "addTM"), D(f"setFromTM.{sfx}.{i}.{j}", "d_setfromtm" + sfx, sin, lambda v, a, f=big: f(v, a, False), "setFromTM"),
                    D(f"addToTM.{sfx}.{i}.{j}", "d_addtotm" + sfx, sout, lambda v, a, f=small: f(v, a, True), "addToTM"), D(f"setTM.{sfx}.{i}.{j}", "d_settm" + sfx, sout, lambda v, a, f=small: f(v, a, False), "setTM")]
    return out
def identities():
    out = []
    def sI(n, m, s=1): return [s if i == j else 0 for i in range(n) for j in range(m)]
    for N in (1, 2, 3, 6):
        def st(S, N=N): S.real("s"); S.array("o1", N * N); S.array("o2", N * N); S.array("o3", N * N)
        out.append(D(f"identity.{N}", f"d_ident{N}", st, lambda v, a, N=N: {"identity": (a("o1"), sI(N, N)), "scaled identity": (a("o2"), sI(N, N, v["s"])), "plus scaled identity": (a("o3"), [x + y for x, y in zip(v["o3"], sI(N, N, v["s"]))])}, "SetIdentity, SetScalIdentity, addIdentity"))
    def st(S): S.real("s"); S.array("o1", 1); S.array("o2", 1); S.array("o3", 1)
    out.append(D("identity.scalar", "d_idents", st, lambda v, a: {"identity": (a("o1"), [1]), "scaled": (a("o2"), [v["s"]]), "plus": (a("o3"), [v["o3"][0] + v["s"]])}, "SetIdentity, SetScalIdentity, addIdentity"))
    def st(S): S.real("s"); S.array("o1", 6); S.array("o2", 6)
    out.append(D("identity.rectangular", "d_identr", st, lambda v, a: {"identity": (a("o1"), sI(2, 3)), "scaled": (a("o2"), sI(3, 2, v["s"]))}, "SetIdentity, SetScalIdentity"))
    def st(S): S.real("s"); S.array("o1", 9); S.array("o2", 9)
    for k in "fw": out.append(D(f"identity.flat.{k}", "d_ident" + k, st, lambda v, a: {"identity": (a("o1"), sI(3, 3)), "scaled": (a("o2"), sI(3, 3, v["s"]))}, "SetIdentity(FlatMatrix)"))
    def st(S): S.real("s"); S.array("o1", 16); S.array("o2", 16)
    def bI(s): return [s if b % 3 == 0 and e % 3 == 0 else 0 for b in range(4) for e in range(4)]
    out.append(D("identity.flat.blocks", "d_identb", st, lambda v, a: {"identity": (a("o1"), bI(1)), "scaled": (a("o2"), bI(v["s"]))}, "SetIdentity(FlatMatrix)"))
    return out
def flats():
    out = []
    for N in (2, 3):
        n = 2 * N * 2 * N
        pos = lambda K, J, k, j, N=N: (((K * 2 + J) * N + k) * N + j, (K * N + k) * 2 * N + J * N + j)
        ix = [pos(K, J, k, j) for K in (0, 1) for J in (0, 1) for k in range(N) for j in range(N)]
        def b2f(v, a, ix=ix, n=n):
            e = [None] * n
            for b, f in ix: e[f] = v["b"][b]
            return {"flat entries": (a("f"), e), "the blocks are not changed": (a("b"), v["b"])}
        def f2b(v, a, ix=ix, n=n):
            e = [None] * n
            for b, f in ix: e[b] = v["f"][f]
            return {"block entries": (a("b"), e), "the flat matrix is not changed": (a("f"), v["f"])}
        s1 = lambda S, n=n: (S.array("b", n), S.array("f", n)) and None
        s2 = lambda S, n=n: (S.array("f", n), S.array("b", n)) and None
        s3 = lambda S, N=N: (S.array("b", N * N), S.array("f", N * N)) and None
        s4 = lambda S, N=N: (S.array("f", N * N), S.array("b", N * N)) and None
        out += [D(f"mat_to_scal.{N}", f"d_m2s{N}", s1, b2f, "mat_to_scal"), D(f"ToFlat.{N}", f"d_toflat{N}", s1, b2f, "ToFlat"), D(f"scal_to_mat.{N}", f"d_s2m{N}", s2, f2b, "scal_to_mat"), D(f"ToTM.{N}", f"d_totm{N}", s2, f2b, "ToTM"),
                D(f"ToFlat.block.{N}", f"d_toflatm{N}", s3, lambda v, a: {"entries": (a("f"), v["b"]), "source": (a("b"), v["b"])}, "ToFlat"), D(f"ToTM.block.{N}", f"d_totmm{N}", s4, lambda v, a: {"entries": (a("b"), v["f"]), "source": (a("f"), v["f"])}, "ToTM")]
    def st(S):
        S.array("a", 36); S.array("b", 6)
        for k in "123": S.array("o" + k, 36)
        S.array("o4", 6); S.real("s")
    def sub(v, a):
        e1, e2, e3 = list(v["o1"]), list(v["o2"]), list(v["o3"])
        for i in range(2):
            for j in range(3): k = 6 * (1 + i) + 3 + j; e1[k] = v["b"][3 * i + j]; e2[k] = e2[k] + v["b"][3 * i + j]; e3[k] = v["s"]
        return {"assign": (a("o1"), e1), "add": (a("o2"), e2), "assign a scalar": (a("o3"), e3), "read": (a("o4"), [v["a"][6 * (1 + i) + 3 + j] for i in range(2) for j in range(3)])}
    out.append(D("sub_matrix", "d_sub", st, sub, "FlatMat"))
    return out

# ------------------------------------------------------------------ bounded: decompositions
def orth(rng, n):
    g = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)]).reshape(n, n)
    return np.linalg.qr(g)[0]
def sps(rng, n, rank, lo=0.5, hi=4.0, sc=1.0, axis=False):
    """symmetric, given rank, non-zero eigenvalues in sc * [lo, hi]"""
    if axis and rank < n or rng.random() < .25:                      # axis-aligned kernel, integer entries
        k = rng.sample(range(n), rank); a = np.zeros((n, n))
        if rank:
            g = np.array([[float(rng.randint(-2, 2)) for _ in range(rank)] for _ in range(rank)]); b = g @ g.T + np.eye(rank)
            for i, p in enumerate(k):
                for j, q in enumerate(k): a[p, q] = b[i, j]
        return sc * a
    q = orth(rng, n); d = np.array([rng.uniform(lo, hi) for _ in range(rank)] + [0.0] * (n - rank)); a = (q * d) @ q.T * sc
    return (a + a.T) / 2
def pinv(a, rc=1e-9, ab=0.0):
    w, v = np.linalg.eigh(a); t = max(ab, rc * max(np.max(np.abs(w)), 1e-300)); return (v[:, np.abs(w) > t] / w[np.abs(w) > t]) @ v[:, np.abs(w) > t].T
def dist(x, y): return float(np.max(np.abs(np.array(x) - np.array(y)), initial=0.0)) / (1e-300 + float(np.max(np.abs(np.array(y)), initial=0.0)))
class B(Contract):
    tu = TU; engine = "bounded"; replay_s = 3; cap = 3000; writes = ("a",)
class Inv(B):
    """pseudo-inverse of a symmetric positive semi-definite matrix with well separated spectrum; functions that first try a direct
    inversion are held to it on non-singular matrices and on matrices whose kernel is spanned by coordinate directions: for others a
    pivot of rounding size decides which branch they take"""
    KIND = {"flat": ("d_finv", 1), "float": ("d_finvf", 1), "blocks2": ("d_binv2", 2), "blocks3": ("d_binv3", 3), "mat2": ("d_minv2", 2), "mat3": ("d_minv3", 3), "mat6": ("d_minv6", 6)}
    def __init__(self, kind, op, what, full=False, tol=1e-6, big=False, rety="void", retrank=False, direct=False):
        self.direct = direct; self.kind, self.op, self.full, self.tol, self.big, self.retrank = kind, op, full, tol, big, retrank; self.fn, self.N = self.KIND[kind]; self.name = f"dense.inverse.{what}.{kind}"; self.subject = what
        self.mat = kind.startswith("mat"); self.rety = "i32" if self.fn.startswith("d_finv") else None
    def setup(self, S):
        S.int("op"); 
        if not self.mat: S.int("n")
        S.array("a", F64, (lambda v: self.N**2) if self.mat else (lambda v: (v["n"] * self.N)**2))
    def gen_cases(self, tier, rng):
        while True:
            n = 1 if self.mat else rng.choice((1, 2, 3, 4, 6, 9)) if self.N == 1 else rng.choice((1, 2, 3))
            if self.big and rng.random() < .15: n = rng.choice((49, 50, 51, 55))
            m = n * self.N; sc = rng.choice((1.0, 1.0, 1e-4, 1e5)) if self.kind != "float" else rng.choice((1.0, 1e-2, 100.0))
            rank = m if self.full or rng.random() < .5 else rng.randint(0, m)
            if n > 10 and rank < m: rank = m - 1
            if self.kind == "float" and self.op == 0 and rank: rank = m       # the tolerance of the fallback is below single precision rounding
            a = sps(rng, m, rank, sc=sc, axis=self.direct)
            if any(0 < x < 1e-4 * sc for x in np.diag(a)): continue
            c = {"op": self.op, "a": [float(x) for x in a.flatten()]}
            if not self.mat: c["n"] = n
            yield c
    def post(self, S, P):
        a = np.array(S.v["a"]); m = int(round(math.sqrt(len(a)))); a = a.reshape(m, m); x = np.array(list(P.arr("a"))).reshape(m, m)
        tol = 2e-2 if self.kind == "float" else self.tol; rc = 1e-4 if self.kind == "float" else 1e-9
        e = pinv(a, rc); r = {"pseudo-inverse": bool(dist(x, e) < tol) if np.any(e) else not np.any(np.abs(x) > 1e-9 * 0 + 0)}
        if self.retrank: r["returned rank"] = P.ret == int(np.linalg.matrix_rank(a, tol=rc * max(np.max(np.abs(a)), 1e-300)))
        return r
class Direct(B):
    """direct inversion either succeeds with the inverse or reports failure and leaves the matrix alone"""
    rety = "i32"
    def __init__(self, op, what, kind): self.op = op; self.kind = kind; self.fn = "d_finv" if kind == "flat" else "d_finvf"; self.name = f"dense.inverse.{what}.{kind}"; self.subject = what
    def setup(self, S): S.int("op"); S.int("n"); S.array("a", F64, lambda v: v["n"]**2)
    def gen_cases(self, tier, rng):
        while True:
            n = rng.choice((1, 2, 3, 4, 6, 9, 49, 50, 52)) if rng.random() < .2 else rng.randint(1, 6); rank = n if rng.random() < .6 else rng.randint(0, n - 1)
            yield {"op": self.op, "n": n, "a": [float(x) for x in sps(rng, n, rank, sc=rng.choice((1.0, 1e-3, 1e3)), axis=True).flatten()]}
    def post(self, S, P):
        n = S.v["n"]; a = np.array(S.v["a"]).reshape(n, n); x = np.array(list(P.arr("a"))).reshape(n, n)
        sing = np.linalg.matrix_rank(a, tol=1e-6 * max(np.max(np.abs(a)), 1e-300)) < n
        f32 = self.kind == "float"
        if P.ret: return {"inverse": not sing and dist(x, np.linalg.inv(a)) < (2e-2 if f32 else 1e-6) or sing and self.op == 3}
        return {"only singular matrices are refused": bool(sing), "a refused matrix is not changed": dist(x, a) < (1e-6 if f32 else 1e-15) or not np.any(a)}
class SInv(B):
    fn = "d_sinv"; replay_s = 1; rety = None
    def __init__(self, op): self.op = op; self.name = f"dense.inverse.scalar.{op}"; self.subject = "CalcPseudoInverseTryNormal(scalar)" if op == 0 else "CalcPseudoInverseNew(scalar)"
    def setup(self, S): S.int("op"); S.array("a", F64, lambda v: 1)
    def gen_cases(self, tier, rng):
        while True: yield {"op": self.op, "a": [rng.choice((1.0, -2.0, 0.25, 1e-12, 3e5) + ((0.0,) if self.op == 0 else ())) * rng.uniform(.5, 2)]}
    def post(self, S, P):
        a, x = S.v["a"][0], list(P.arr("a"))[0]; return {"reciprocal": abs(x * a - 1) < 1e-12 if a else x == 0}
class Spd(B):
    rety = "i32"; writes = ("a",)
    def __init__(self, op, kind): self.op = op; self.kind = kind; self.fn = "d_spd" if kind == "flat" else "d_spdf"; self.subject = "CheckForSSPD" if op else "CheckForSPD"; self.name = f"dense.{self.subject}.{kind}"
    def setup(self, S): S.int("op"); S.int("n"); S.array("a", F64, lambda v: v["n"]**2)
    def gen_cases(self, tier, rng):
        while True:
            n = rng.choice((0, 1, 2, 3, 4, 6, 9)); sc = rng.choice((1.0, 1e-3, 1e4)); rank = n if rng.random() < .6 else rng.randint(0, n); a = sps(rng, n, rank, sc=sc) if n else np.zeros((0, 0))
            if n and rng.random() < .5:          # one clearly negative direction
                q = np.array([rng.gauss(0, 1) for _ in range(n)]) if rng.random() < .5 else np.eye(n)[rng.randrange(n)]
                q = q / np.linalg.norm(q); a = a - sc * rng.choice((1.0, 6.0, 0.3)) * (q @ a @ q / sc + .3) * np.outer(q, q)
            if n:
                w = np.linalg.eigvalsh(a); m = max(np.max(np.abs(w)), 1e-300)
                if any(1e-11 < abs(x) / m < 1e-2 for x in w): continue
                if not self.op and (any(abs(x) / m <= 1e-11 for x in w)): continue
            yield {"op": self.op, "n": n, "a": [float(x) for x in a.flatten()]}
    def post(self, S, P):
        n = S.v["n"]
        if n == 0: return {"empty": P.ret == 1}
        w = np.linalg.eigvalsh(np.array(S.v["a"]).reshape(n, n)); m = max(np.max(np.abs(w)), 1e-300)
        return {"decides definiteness": bool(P.ret) == bool(np.min(w) > -1e-9 * m)}
def gev(L, R, t=0.0):
    """smallest eigenvalue of R x = lambda L x on the complement of the kernel of L (with respect to the Euclidean product)"""
    w, v = np.linalg.eigh(L); k = w > max(t, 1e-9 * max(np.max(np.abs(w)), 1e-300))
    if not k.any(): return 0.0
    s = v[:, k] / np.sqrt(w[k]); return float(np.min(np.linalg.eigvalsh(s.T @ R @ s)))
class Ev(B):
    rety = "f64"; writes = ()
    WHAT = ("MEV", "MIN_EV_HARM2", "MIN_EV_FG2", "MIN_EV_FG_ONE_SIDE2")
    def __init__(self, N, op): self.N, self.op = N, op; self.fn = f"d_ev{N}"; self.subject = self.WHAT[op]; self.name = f"dense.{self.subject}.{N}"
    def setup(self, S):
        S.int("op")
        for x in "abr": S.array(x, F64, lambda v: self.N**2)
    def gen_cases(self, tier, rng):
        N = self.N; f = lambda x: [float(y) for y in x.flatten()]
        while True:
            r = lambda: N if rng.random() < .5 else rng.randint(1, N)
            a, b, R = sps(rng, N, r()), sps(rng, N, r()), sps(rng, N, r())
            if self.op >= 2 and rng.random() < .5:                 # common kernel structure: kernels of a and b nested
                a = sps(rng, N, N)
            if self.op and any(1e-9 < x < 1e-2 for m in (a + b, a, b) for x in np.linalg.eigvalsh(m) / 4): continue
            if self.op == 1:                                       # the parallel sum is well conditioned on its range, and not zero up to rounding
                h = 2 * a @ pinv(a + b) @ b; w = np.linalg.eigvalsh((h + h.T) / 2)
                if np.max(w) < 1e-3 or any(1e-13 < abs(x) < 1e-3 for x in w): continue
            if self.op >= 2 and (not np.any(a) or not np.any(b)): continue
            if self.op >= 2 and not self.clear(a, b): continue
            yield {"op": self.op, "a": f(a), "b": f(b), "r": f(R)}
    def side(self, a, b):
        w, v = np.linalg.eigh(b); k = v[:, w <= 1e-9 * np.max(w)]; return a if not k.shape[1] else a - a @ k @ pinv(k.T @ a @ k, ab=1e-10) @ k.T @ a
    def clear(self, a, b): return all(np.any(np.abs(s) > 1e-6) and not any(1e-10 < x < 1e-3 for x in np.linalg.eigvalsh(s)) for s in (self.side(a, b), self.side(b, a)))
    def post(self, S, P):
        N = self.N; a, b, r = (np.array(S.v[x]).reshape(N, N) for x in "abr"); x = P.ret
        if self.op == 0: e = gev(a, r)
        elif self.op == 1: h = 2 * a @ pinv(a + b) @ b; e = gev((h + h.T) / 2, r, 1e-6)
        elif self.op == 3: e = gev(self.side(a, b), r)
        else: e = math.sqrt(abs(gev(self.side(a, b), r)) * abs(gev(self.side(b, a), r)))
        return {"generalised eigenvalue": bool(abs(x - e) < 1e-5 * (1 + abs(e)))}
class Evs(B):
    fn = "d_evs"; rety = "f64"; writes = (); replay_s = 1
    def __init__(self, op): self.op = op; self.subject = ("MIN_EV_FG2", "MIN_EV_HARM2")[op]; self.name = f"dense.{self.subject}.scalar"
    def setup(self, S):
        S.int("op")
        for x in "abr": S.real(x)
    def gen_cases(self, tier, rng):
        while True: yield dict(op=self.op, a=rng.uniform(.1, 4), b=rng.uniform(.1, 4), r=rng.uniform(.1, 4))
    def post(self, S, P):
        a, b, r = S.v["a"], S.v["b"], S.v["r"]; e = r / (2 * a * b / (a + b)) if self.op else r / math.sqrt(a * b)
        return {"quotient": abs(P.ret - e) < 1e-12 * (1 + abs(e)) if self.op == 0 else abs(P.ret - e) < 1e-12 * (1 + abs(e))}
class Equiv(B):
    fn = "d_equiv"; rety = None; name = "dense.equivalence_test"; subject = "DenseEquivTestAAA"; writes = ("o",)
    def setup(self, S): S.int("n"); S.array("a", F64, lambda v: v["n"]**2); S.array("b", F64, lambda v: v["n"]**2); S.array("o", F64, lambda v: 3)
    def gen_cases(self, tier, rng):
        f = lambda x: [float(y) for y in x.flatten()]
        while True:
            n = rng.randint(1, 6); k = rng.randint(0, n - 1); q = orth(rng, n)[:, k:]; m = n - k; a, b = sps(rng, m, m), sps(rng, m, m)
            yield {"n": n, "a": f(q @ a @ q.T), "b": f(q @ b @ q.T), "o": [0.0] * 3}
    def post(self, S, P):
        n = S.v["n"]; a, b = (np.array(S.v[x]).reshape(n, n) for x in "ab"); w, v = np.linalg.eigh(a); k = w > 1e-9 * np.max(w); s = v[:, k] / np.sqrt(w[k]); e = np.linalg.eigvalsh(s.T @ b @ s); o = list(P.arr("o"))
        return {"bounds of B relative to A": bool(abs(o[0] - e[0]) < 1e-6 * e[-1] and abs(o[1] - e[-1]) < 1e-6 * e[-1]), "condition": bool(abs(o[2] - e[-1] / e[0]) < 1e-5 * e[-1] / e[0])}
class Reg(B):
    fn = "d_reg"; rety = None; BL = ((6, 0, 6), (6, 3, 3), (3, 0, 3), (3, 2, 1))
    def __init__(self, op): self.op = op; self.n, self.i0, self.m = self.BL[op]; self.name = f"dense.regularise.{self.i0}.{self.m}.{self.n}"; self.subject = "RegTM"
    def setup(self, S): S.int("op"); S.real("mx"); S.array("a", F64, lambda v: self.n**2)
    def gen_cases(self, tier, rng):
        while True:
            rk = rng.randint(0 if self.m == self.n else 1, self.m); b = sps(rng, self.m, rk); a = sps(rng, self.n, self.n); a[self.i0:self.i0 + self.m, self.i0:self.i0 + self.m] = b
            yield {"op": self.op, "mx": rng.choice((-1.0, 0.1, 0.3, 10.0)), "a": [float(x) for x in a.flatten()]}
    def post(self, S, P):
        n = self.n; a = np.array(S.v["a"]).reshape(n, n); x = np.array(list(P.arr("a"))).reshape(n, n); sl = slice(self.i0, self.i0 + self.m); w, v = np.linalg.eigh(a[sl, sl]); k = w > 1e-10 * max(np.max(w), 1e-3); mx = S.v["mx"]; e = a.copy()
        if not k.any(): e = np.eye(n) * (mx if mx >= 0 else 1.0)
        else:
            t = np.min(w[k]); t = min(t, mx) if mx >= 0 else t; e[sl, sl] += t * v[:, ~k] @ v[:, ~k].T
        return {"kernel of the block lifted, everything else kept": dist(x, e) < 1e-8}
class Nzb(B):
    rety = "i32"
    def __init__(self, kind): self.kind = kind; self.fn = {"flat": "d_nzb", "mat": "d_nzb3", "blocks": "d_nzbb2"}[kind]; self.N = 2 if kind == "blocks" else 1; self.name = f"dense.non_zero_block.{kind}"; self.subject = "CallOnNonZeroDiagonalBlock"
    def setup(self, S):
        if self.kind != "mat": S.int("n")
        S.array("a", F64, (lambda v: 9) if self.kind == "mat" else (lambda v: (v["n"] * self.N)**2))
    def gen_cases(self, tier, rng):
        while True:
            n = 3 if self.kind == "mat" else rng.randint(1, 4); m = n * self.N; a = np.array([[float(rng.randint(-4, 4)) for _ in range(m)] for _ in range(m)]); z = [rng.random() < .4 for _ in range(m)]
            for i in range(m): a[i, i] = 0.0 if z[i] else float(rng.randint(1, 5))
            c = {"a": [float(x) for x in a.flatten()]}
            if self.kind != "mat": c["n"] = n
            yield c
    def post(self, S, P):
        a = np.array(S.v["a"]); m = int(round(math.sqrt(len(a)))); a = a.reshape(m, m); d = np.diag(a) > 0; e = np.where(np.outer(d, d), 2 * a, 0.0)
        return {"size of the block": P.ret == int(d.sum()), "the function is applied to the block, the rest is zero": list(P.arr("a")) == [float(x) for x in e.flatten()]}
def contracts_P05():
    out = products() + traces() + transfers() + identities() + flats()
    T_, N_ = "CalcPseudoInverseTryNormal", "CalcPseudoInverseNew"
    out += [Inv(k, o, w, big=(k == "flat"), direct=True) for k in ("flat", "float", "blocks2", "blocks3", "mat2", "mat3", "mat6") for o, w in ((0, T_), (1, N_))]
    out += [Inv(k, o, w) for k in ("mat2", "mat3", "mat6") for o, w in ((2, "CalcPseudoInverse"), (3, "CalcPseudoInverse.heap"))]
    out += [Inv(k, o, w) for k in ("blocks2", "blocks3") for o, w in ((2, "CalcPseudoInverseWithTol.default"), (3, "CalcPseudoInverseWithTol.given"))]
    out += [Inv("flat", 5, "CalcPseudoInverseFM"), Inv("flat", 6, "CalcPseudoInverseWithTol", retrank=True), Inv("flat", 7, "CalcPseudoInverseWithTolNonZeroBlock", retrank=True), Inv("flat", 8, "CalcPseudoInverseFB"), Inv("flat", 9, "CPI_TN_Lapack", big=True, direct=True), Inv("flat", 10, "CPI_TN", big=True, direct=True)]
    out += [Direct(o, w, k) for o, w in ((2, "TryDirectInverse"), (3, "TryDirectInverse_Lapack"), (4, "TryDirectInverse_simple")) for k in ("flat", "float")] + [SInv(o) for o in (0, 1, 2)]
    out += [Spd(o, k) for o in (0, 1) for k in ("flat", "float")] + [Ev(N, o) for N in (2, 3, 6) for o in (0, 1, 2, 3)] + [Evs(0), Evs(1), Equiv()] + [Reg(o) for o in range(4)] + [Nzb(k) for k in ("flat", "mat", "blocks")]
    return out
