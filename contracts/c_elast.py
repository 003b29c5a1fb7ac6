"""P03 / P04: rigid-body transformations and edge energy blocks of the elasticity (and scalar) energies."""
from enga import *
TU = "elast_tq"
ENTRY = []

def rank(D): return (3, 1) if D == 2 else (6, 3)
def skew(D, t, s=1):
    """displacement at x + t caused by unit rotations about x (rotation scaled by s): w -> s * w x t"""
    if D == 2: return [[-(s * t[1])], [s * t[0]]]
    z = 0
    return [[z, s * t[2], -(s * t[1])], [-(s * t[2]), z, s * t[0]], [s * t[1], -(s * t[0]), z]]
def Qmat(D, rs, st, scal=1):
    """dense form of the transformation: identity on displacements, st = scaled tangent, rs = relative rotation scaling"""
    N, R = rank(D)
    S = skew(D, st)
    Q = [[0] * N for _ in range(N)]
    for i in range(D):
        Q[i][i] = scal
        for j in range(R): Q[i][D + j] = scal * S[i][j] if not (isinstance(S[i][j], int) and S[i][j] == 0) else 0
    for i in range(R): Q[D + i][D + i] = scal * rs
    return Q
def Qpts(D, pi, ri, pj, rj):
    return Qmat(D, ri / rj, [ri * (pj[k] - pi[k]) for k in range(D)])

class Kern(ContractA):
    tu = TU
    def __init__(self, op, D):
        self.op, self.D = op, D; self.fn = f"h_{op}{D}"; self.name = f"elasticity{D}d.{op}"
    def setup(self, S):
        N, R = rank(self.D)
        S.real("rs"); S.array("t", self.D); S.real("s")
        if "QTMQ" in self.op or "QMQT" in self.op: S.symm("a", N)
        else: S.array("a", N * N)
        S.out("o", N * N)
    def post(self, S, P):
        D = self.D; N, R = rank(D); v = S.v
        Q = Qmat(D, v["rs"], v["t"]); A = M(v["a"], N, N); o = M(P.arr("o"), N, N); s = v["s"]
        op = self.op
        if op in ("SetQ",): E = Q
        elif op == "SetQa": E = Qmat(D, v["rs"], v["t"], s)
        else:
            if op.endswith("QTMQ") or op == "QTMQs": E = mm(T(Q), mm(A, Q))
            elif "QMQT" in op: E = mm(Q, mm(A, T(Q)))
            elif "QTM" in op: E = mm(T(Q), A)
            else: E = mm(A, Q)
            if op.startswith("G") or op.endswith("s"): E = scal(s, E)
        return {"equals the dense product": diff(o, E)}
KERN = ["MQ", "MQs", "GMQ", "QTM", "QTMs", "GQTM", "QTMQ", "QTMQs", "GQTMQ", "QMQT", "QMQTs", "GQMQT", "SetQ", "SetQa"]

class Points(ContractA):
    """transformations between points: the exact rigid-body transport, mutually inverse, meeting in the mid point"""
    tu = TU
    def __init__(self, op, D):
        self.op, self.D = op, D; self.fn = f"h_{op}{D}"; self.name = f"elasticity{D}d.{op}"
    def setup(self, S):
        D = self.D; N, R = rank(D)
        S.array("pi", D); S.square("ri"); S.array("pj", D); S.square("rj"); S.out("o1", N * N); S.out("o2", N * N); S.out("mp", D + 1)
    def post(self, S, P):
        D = self.D; N, R = rank(D); v = S.v; pi, pj, ri, rj = v["pi"], v["pj"], v["ri"], v["rj"]
        o1, o2, mp = M(P.arr("o1"), N, N), M(P.arr("o2"), N, N), P.arr("mp")
        res = {}
        if self.op in ("TQv", "QiToj", "CalcQHh", "CalcQ"):
            res["transport i to j"] = diff(o1, Qpts(D, pi, ri, pj, rj)); res["transport j to i"] = diff(o2, Qpts(D, pj, rj, pi, ri))
        elif self.op == "InvQs":
            res["mid to i"] = diff(o1, Qpts(D, mp[:D], mp[D], pi, ri)); res["mid to j"] = diff(o2, Qpts(D, mp[:D], mp[D], pj, rj))
        else:
            res["i to mid"] = diff(o1, Qpts(D, pi, ri, mp[:D], mp[D])); res["j to mid"] = diff(o2, Qpts(D, pj, rj, mp[:D], mp[D]))
        res["inverse pair"] = diff(mm(o1, o2), eye(N))
        res["mid scaling is the geometric mean"] = [mp[D] * mp[D] - ri * rj]
        # mid point on the segment, weighted so that both scaled half-transports agree
        res["mid point collinear"] = [(mp[a] - pi[a]) * (pj[b] - pi[b]) - (mp[b] - pi[b]) * (pj[a] - pi[a]) for a in range(D) for b in range(a)]
        return res
PTS = ["TQv", "QiToj", "CalcQHh", "CalcQ", "QijQji", "Qij", "CalcQij", "CalcQs", "ModQs", "InvQs"]

class Dense(ContractA):
    tu = TU
    def __init__(self, op, D):
        self.op, self.D = op, D; self.fn = f"h_{op}{D}"; self.name = f"elasticity{D}d.{op}"
    def setup(self, S):
        N, R = rank(self.D)
        S.real("rs"); S.array("t", self.D); S.real("s"); S.symm("a", N); S.array("b", N * N); S.out("o", N * N)
    def post(self, S, P):
        D = self.D; N, R = rank(D); v = S.v
        Q = Qmat(D, v["rs"], v["t"]); A = M(v["a"], N, N); B = M(v["b"], N, N); o = M(P.arr("o"), N, N); s = v["s"]
        op = self.op
        E = mm(T(Q), mm(A, Q)) if "QtMQ" in op else mm(A, Q) if op.endswith("MQ") else mm(T(Q), A)
        if op not in ("sQtMQ", "sCalcQtMQ"): E = scal(s, E)
        if "Add" in op: E = add(B, E)
        return {"equals the dense product": diff(o, E)}
DENSE = ["sQtMQ", "sAddQtMQ", "sCalcQtMQ", "sSetQtMQ", "sCalcMQ", "sAddMQ", "sCalcQTM", "sAddQTM"]

class Compose(ContractA):
    """lemma over the contract of the transport: transports compose along any three points"""
    tu = TU; fn = None
    def __init__(self, D): self.D = D; self.fn = f"h_QiToj{D}"; self.name = f"elasticity{D}d.compose"
    def setup(self, S):
        D = self.D; N, R = rank(D)
        S.array("pi", D); S.square("ri"); S.array("pj", D); S.square("rj"); S.out("o1", N * N); S.out("o2", N * N); S.out("mp", D + 1)
    def post(self, S, P):
        D = self.D; N, R = rank(D); v = S.v
        o1, o2 = M(P.arr("o1"), N, N), M(P.arr("o2"), N, N)
        # third point k at i + 2*(j-i), scaling 4*rj (affine choice is enough: the contract of QiToj is exact)
        pk = [v["pi"][a] + 2 * (v["pj"][a] - v["pi"][a]) for a in range(D)]; rk = 4 * v["rj"]
        return {"k after j after i": diff(mm(Qpts(D, v["pj"], v["rj"], pk, rk), o1), Qpts(D, v["pi"], v["ri"], pk, rk))}

class Block(ContractA):
    tu = TU
    def __init__(self, op, D):
        self.op, self.D = op, D; self.fn = f"h_{op}{D}"; self.name = f"elasticity{D}d.{op}"
    def setup(self, S):
        D = self.D; N, R = rank(D)
        S.array("pi", D); S.square("ri"); S.array("pj", D); S.square("rj"); S.symm("a", N); S.out("o", 4 * N * N)
    def post(self, S, P):
        D = self.D; N, R = rank(D); v = S.v; o = P.arr("o")
        B = [[M(o, N, N, (2 * k + l) * N * N) for l in range(2)] for k in range(2)]
        ri, rj = v["ri"], v["rj"]
        # all rigid body motions of the pair: values at i are free, values at j are their transport
        Qi2j = Qpts(D, v["pi"], ri, v["pj"], rj)
        res = {}
        rows = (0,) if self.op == "RMrow" else (0, 1)
        for k in rows: res[f"row {k} vanishes on rigid body motions"] = flat(add(B[k][0], mm(B[k][1], Qi2j)))
        if self.op != "RMrow":
            res["symmetric"] = [B[k][l][a][b] - B[l][k][b][a] for k in range(2) for l in range(2) for a in range(N) for b in range(N)]
        # the energy seen from i is the edge matrix transported to i
        return res
    # the (0,0) block is Q^T E Q with the half transport: pinned through the mid point data
class BlockVal(Block):
    def __init__(self, op, D):
        super().__init__(op, D); self.name += ".value"
    def post(self, S, P):
        D = self.D; N, R = rank(D); v = S.v; o = P.arr("o")
        if "q" in self.__dict__: pass
        import math
        ri, rj = v["ri"], v["rj"]
        if isinstance(ri, (int, float)): si, sj = math.sqrt(ri), math.sqrt(rj)
        else: si, sj = S.F.sym("q_ri", True), S.F.sym("q_rj", True)
        lam = sj / (si + sj); sm = si * sj
        mid = [v["pi"][a] + lam * (v["pj"][a] - v["pi"][a]) for a in range(D)]
        E = M(v["a"], N, N); Qi, Qj = Qpts(D, v["pi"], ri, mid, sm), Qpts(D, v["pj"], rj, mid, sm)
        res = {}
        for k, l in (((0, 0), (0, 1)) if self.op == "RMrow" else ((0, 0), (0, 1), (1, 1))):
            X = mm(T((Qi, Qj)[k]), mm(E, (Qi, Qj)[l]))
            res[f"block {k}{l}"] = diff(M(o, N, N, (2 * k + l) * N * N), scal(1 if k == l else -1, X))
        return res
BLK = ["RMlam", "RMrow", "RMmat", "RMmat2"]

class MPWW(ContractA):
    """weights moved to the mid point: sum of both vertex weights transported there (mid -> vertex transports)"""
    tu = TU
    def __init__(self, D): self.D = D; self.fn = f"h_MPWW{D}"; self.name = f"elasticity{D}d.MPWW"
    def setup(self, S):
        D = self.D; N, R = rank(D)
        S.array("pi", D); S.square("ri"); S.array("pj", D); S.square("rj"); S.symm("a", N); S.symm("b", N); S.out("o", N * N)
    def post(self, S, P):
        import math
        D = self.D; N, R = rank(D); v = S.v; ri, rj = v["ri"], v["rj"]
        if isinstance(ri, (int, float)): si, sj = math.sqrt(ri), math.sqrt(rj)
        else: si, sj = S.F.sym("q_ri", True), S.F.sym("q_rj", True)
        lam = sj / (si + sj); sm = si * sj
        mid = [v["pi"][a] + lam * (v["pj"][a] - v["pi"][a]) for a in range(D)]
        Qa, Qb = Qpts(D, mid, sm, v["pi"], ri), Qpts(D, mid, sm, v["pj"], rj)
        E = add(mm(T(Qa), mm(M(v["a"], N, N), Qa)), mm(T(Qb), mm(M(v["b"], N, N), Qb)))
        return {"transported sum": diff(M(P.arr("o"), N, N), E)}

class EVmat(ContractA):
    tu = TU
    def __init__(self, D): self.D = D; self.fn = f"h_EVmat{D}"; self.name = f"elasticity{D}d.EVmat"
    def setup(self, S):
        N, R = rank(self.D); S.array("a", N * N); S.array("b", N * N); S.out("oe", N * N); S.out("ov", N * N)
    def post(self, S, P):
        return {"edge matrix kept": [x - y for x, y in zip(P.arr("oe"), S.v["a"])], "vertex matrix kept": [x - y for x, y in zip(P.arr("ov"), S.v["b"])]}
class EVscal(ContractA):
    tu = TU
    def __init__(self, D): self.D = D; self.fn = f"h_EVscal{D}"; self.name = f"elasticity{D}d.EVscal"
    def setup(self, S): S.real("x"); S.real("y"); S.out("oe", 1); S.out("ov", 1)
    def post(self, S, P): return {"edge weight kept": [P.arr("oe")[0] - S.v["x"]], "vertex weight kept": [P.arr("ov")[0] - S.v["y"]]}

class H1Block(ContractA):
    tu = TU
    def __init__(self, op, C): self.op, self.C = op, C; self.fn = f"h1_{op}{C}"; self.name = f"scalar{C}.{op}"
    def setup(self, S): S.real("e"); S.array("w", 4); S.out("o", 4 * self.C ** 2)
    def post(self, S, P):
        C = self.C; o = P.arr("o"); e = S.v["e"]
        B = [[M(o, C, C, (2 * k + l) * C * C) for l in range(2)] for k in range(2)]
        rows = (0,) if self.op == "RMrow" else (0, 1)
        res = {f"row {k} vanishes on constants": flat(add(B[k][0], B[k][1])) for k in rows}
        if self.op != "RMrow": res["symmetric"] = [B[k][l][a][b] - B[l][k][b][a] for k in range(2) for l in range(2) for a in range(C) for b in range(C)]
        res["weight"] = diff(B[0][0], eye(C, e))
        return res
class H1TQ(ContractA):
    tu = TU
    def __init__(self, C): self.C = C; self.fn = f"h1_TQ{C}"; self.name = f"scalar{C}.TQ"
    def setup(self, S): S.real("s"); S.array("a", self.C ** 2); S.out("o", 8 * self.C ** 2)
    def post(self, S, P):
        n = self.C ** 2; o = P.arr("o")
        r = {f"variant {k}": [o[k * n + i] - S.v["s"] * S.v["a"][i] for i in range(n)] for k in range(7)}
        r["in place"] = [o[7 * n + i] - S.v["a"][i] for i in range(n)]
        return r
class H1EV(ContractA):
    tu = TU
    def __init__(self, C): self.C = C; self.fn = f"h1_EV{C}"; self.name = f"scalar{C}.EV"
    def setup(self, S): S.real("x"); S.real("y"); S.out("o", 2 + 2 * self.C ** 2)
    def post(self, S, P):
        n = self.C; o = P.arr("o"); x, y = S.v["x"], S.v["y"]
        return {"weights": [o[0] - x, o[1] - y], "edge": diff(M(o, n, n, 2), eye(n, x)), "vertex": diff(M(o, n, n, 2 + n * n), eye(n, y))}

def contracts_P03():
    out = []
    for D in (2, 3):
        out += [Kern(k, D) for k in KERN] + [Points(k, D) for k in PTS] + [Dense(k, D) for k in DENSE] + [Compose(D), MPWW(D)]
    return out + [H1TQ(c) for c in (1, 2, 3)]
def contracts_P04():
    out = []
    for D in (2, 3): out += [Block(k, D) for k in BLK] + [BlockVal(k, D) for k in BLK] + [EVmat(D), EVscal(D)]
    for c in (1, 2, 3): out += [H1Block(k, c) for k in ("RMlam", "RMrow", "RMmat")] + [H1EV(c)]
    return out
for f in (contracts_P03, contracts_P04):
    L_ = f(); G = sorted({c.fn for c in L_})
    ENTRY += G
ENTRY = sorted(set(ENTRY))
for cls in (Kern, Points, Dense, Compose, Block, BlockVal, MPWW, EVmat, EVscal, H1Block, H1TQ, H1EV): cls.group = ENTRY
