"""P13: redistribution of meshes, vectors and matrices to fewer ranks (bounded: np <= 5 ranks over an in-process message passing with seeded schedules)."""
from engb import Contract, I32, I8, F64
from c_par import Rd as RI
from c_prol import Rd, dec
import c_mesh as M, c_pla as L
import numpy as np
def parts(rng, np_, idle):
    """groups of ranks, ascending, ordered by their first rank; an idle rank 0 stays alone"""
    lo = 1 if idle else 0; n = np_ - lo; k = rng.randint(1, max(1, n)); k = rng.choice((k, min(k, 2), 1)); lab = [rng.randrange(k) for _ in range(n)]; g = {}
    for i, x in enumerate(lab): g.setdefault(x, []).append(lo + i)
    gs = ([[0]] if idle else []) + sorted(g.values()); return gs
def gput(c, gs): c.update(ng=len(gs), go=[0], gm=[])
def gflat(gs):
    go, gm = [0], []
    for g in gs: gm += g; go.append(len(gm))
    return dict(ng=len(gs), go=go, gm=gm)
def gargs(S): S.int("ng"); S.array("go", I32, lambda v: v["ng"] + 1); S.array("gm", I32, lambda v: v["go"][v["ng"]])
class Mesh(M.B):
    """the redistributed mesh is the same mesh, its nodes on the groups of the ranks they were on; data keep their value"""
    tu = "ctr"; cap = 2500; writes = ("o",); fn = "c_mesh"; subject = "GridContractMap (BuildCEQCH, BuildNodeMaps, MapNodeData), AlgContractMap, CreateSubCommunicatorGlobal"
    def __init__(self, ori): self.ori = ori; self.name = "mesh" + (".oriented" if ori else "")
    def setup(self, S): M.gargs(S); gargs(S); S.boolean("oriented"); S.int("vst"); S.int("est"); S.array("vdat", F64, lambda v: v["nv"] * v["np"]); S.array("edat", F64, lambda v: v["ne"] * v["np"]); S.int("no"); S.array("o", I32, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            c = M.gmesh(rng, 12); c["dummy"] = False; c.update(gflat(parts(rng, c["np"], c["idle"]))); c.update(oriented=self.ori, vst=rng.randrange(2), est=rng.randrange(2), vdat=[float(rng.randint(1, 99)) for _ in range(c["nv"] * c["np"])], edat=[float(rng.randint(1, 99)) for _ in range(c["ne"] * c["np"])], no=16000, o=[0] * 16000); yield c
    def post(self, S, P):
        v = S.v; np_ = v["np"]; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        ok = lambda k, b: out.__setitem__(k, out.get(k, True) and bool(b)); vset, ed, edges = M.expected(v); gs = [list(v["gm"][v["go"][k]:v["go"][k + 1]]) for k in range(v["ng"])]; of = {r: k for k, g in enumerate(gs) for r in g}; fm, vid, H, cms, cvid, cd, fe = [], [], [], {}, {}, {}, []
        qs = [RI(l) for l in self.decode(P, np_)]
        for r, q in enumerate(qs):
            h = M.head(q); m = M.parse(q); fm.append(m); vid.append(None); a = [None] * m["nv"]
            for i, g in zip(h["vs"], h["gv"]): a[i] = g
            vid[r] = a; ms = q.n(); g = q.a(); has = q.n(); pm = q.a(); ok("the first rank of a group is its master", ms == (r == gs[of[r]][0]) and g == gs[of[r]]); ok("the masters have the redistributed mesh", has == ms); ok("rank to group", pm == [of[p] for p in range(np_)])
        if not all(out.values()): return out
        for r, q in enumerate(qs):
            if r != gs[of[r]][0]: ok("report complete", q.end()); continue
            k = of[r]; ok("the masters are numbered by group", (q.n(), q.n()) == (k, len(gs))); cm = M.parse(q); M.local(cm, k, ok); cms[k] = cm; a = [None] * cm["nv"]; eh = [0] * cm["ne"]
            for p in gs[k]:
                vm, em, fl = q.a(), q.a(), q.a(); m = fm[p]; ok("maps have an entry per node", len(vm) == m["nv"] and len(em) == m["ne"] and len(fl) == (m["ne"] if self.ori else 0))
                if not out["maps have an entry per node"]: return out
                for i, x in enumerate(vm):
                    t = 0 <= x < cm["nv"] and a[x] in (None, vid[p][i]); ok("a vertex is mapped to itself", t)
                    if not t: return out
                    a[x] = vid[p][i]
                for i, x in enumerate(em):
                    t = 0 <= x < cm["ne"]; ok("an edge is mapped to itself", t and {vm[y] for y in m["E"][i][1:3]} == set(cm["E"][x][1:3]))
                    if not t: return out
                    eh[x] = 1
                    if self.ori: ok("an edge is marked as flipped iff its direction changes", bool(fl[i]) == (vm[m["E"][i][1]] > vm[m["E"][i][2]]))
            ok("every vertex comes from a member", None not in a); cvid[k] = a
            if None in a: return out
            ok("size of the maps' target", (q.n(), q.n()) == (cm["nv"], cm["ne"])); cd[k] = [(q.n(), q.a()), (q.n(), q.a())]; ok("report complete", q.end())
        ks = range(len(gs)); cset = {i: frozenset(of[r] for r in s) for i, s in vset.items()}; ced = {p: frozenset.intersection(*[cset[a] for a in p]) for p in edges}
        for k in ks:
            for m, x in ((cms[k], cvid[k]),): ok("classes are sets of other groups", all(0 <= p < len(gs) and p != k for d in m["dps"] for p in d))
        M.glob([cms[k] for k in ks], [cvid[k] for k in ks], cset, ced, ok)
        if not all(out.values()): return out
        en = {p: j for j, p in enumerate(ed)}
        for t, (st, dat, n) in enumerate(((v["vst"], v["vdat"], v["nv"]), (v["est"], v["edat"], v["ne"]))):
            sm = [0] * n; w = ("vertices", "edges")[t]
            for k in ks:
                s, x = cd[k][t]; ok(f"data of the {w} keep their status", bool(s) == bool(st)); ok(f"one value for each of the {w}", len(x) == cms[k]["nv" if t == 0 else "ne"])
                for i, y in enumerate(x):
                    g = cvid[k][i] if t == 0 else en[frozenset(cvid[k][z] for z in cms[k]["E"][i][1:3])]
                    if st: ok(f"data of the {w} keep their value", y == dat[g * np_])
                    sm[g] += y
            if not st:
                S_ = vset if t == 0 else {en[p]: s for p, s in edges.items()}; ok(f"data of the {w} keep their value", sm == [sum(int(dat[g * np_ + r]) for r in S_[g]) for g in range(n)])
        return out
class Dof(L.B):
    """redistributed vectors have the value of the vector, the redistributed matrix is the matrix"""
    tu = "ctr"; fn = "c_dof"
    def __init__(self, bs): self.b = bs; self.name = f"dofs.{bs}"; self.subject = f"CtrMap<{bs}>::{{TransferF2C,AddF2C,TransferC2F,AddC2F,AssembleMatrix,SetUpMPIStuff}}"
    def setup(self, S): self.sysargs(S); gargs(S); S.int("nop"); S.array("op", I32, lambda v: 3 * v["nop"]); S.int("nv"); S.array("v", F64, lambda v: v["nv"]); S.int("no"); S.array("o", F64, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            c = self.system(rng, self.b, rng.random() < .5, False); gs = parts(rng, c["np"], c["np"] > 1); c.update(gflat(gs)); n = rng.randint(1, 5); op, v = [], []
            for _ in range(n):
                p = [rng.randrange(4), int(rng.random() < .5), int(rng.random() < .5)]; op += p; v += self.vec(rng, c, p[1]); v += self.cvec(rng, c, gs, p[2])
            c.update(nop=n, op=op, nv=len(v), v=v, no=30000, o=[0.] * 30000); yield c
    def cvec(self, rng, c, gs, st):
        w = np.zeros((c["nd"], c["np"], c["bs"]))
        for i in range(c["nd"]):
            x = [rng.randint(-16, 16) / 4. for _ in range(c["bs"])]
            for g in gs:
                if set(g) & set(c["_fs"][c["ds"][i]]): w[i, g[0]] = x if st else [rng.randint(-16, 16) / 4. for _ in range(c["bs"])]
        return [float(t) for t in w.ravel()]
    def post(self, S, P):
        v = S.v; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        Q = self.read(S, P); b = self.bs; ok = lambda k, x: out.__setitem__(k, out.get(k, True) and bool(x)); gs = [list(v["gm"][v["go"][k]:v["go"][k + 1]]) for k in range(v["ng"])]; of = {r: k for k, g in enumerate(gs) for r in g}; A = self.A(); B = np.zeros_like(A); sl = lambda i: slice(i * b, i * b + b)
        cs = [sorted({gs[of[r]][0] for r in s}) for s in self.sets]; cloc = {g[0]: [i for i in range(self.n) if g[0] in cs[i]] for g in gs}
        for r in range(self.np_):
            ms = r == gs[of[r]][0]; ok("the first rank of a group is its master", (Q[r].n(), Q[r].n()) == (ms, ms)); ok("block sizes", Q[r].n() == b and (Q[r].n() == b or not ms)); ok("the masters have the redistributed matrix", bool(Q[r].n()) == ms)
            for mine, dofs in ([(True, cloc[r])] if ms else []) + [(False, self.loc[r])]:
                n = Q[r].n(); ok("size of the matrix", n == len(dofs)); Z = np.zeros_like(A)
                if n != len(dofs): return out
                for k in range(n):
                    last = -1
                    for _ in range(Q[r].n()): j = Q[r].n(); m = Q[r].m(b); ok("columns are sorted, without duplicates", j > last); last = j; Z[sl(dofs[k]), sl(dofs[j])] += m
                if mine: E = sum(self.A(p) for p in gs[of[r]]); ok("the matrix of a master is the sum of those of its group", rel(Z, E)); B += Z
                else: ok("the original matrix is unchanged", rel(Z, self.Al(r)))
        ok("the redistributed matrix is the matrix", rel(B, A)); n1 = self.n * self.np_ * b
        for k in range(v["nop"]):
            o, sx, sy = v["op"][3 * k:3 * k + 3]; x = self.val(v["v"][2 * k * n1:2 * k * n1 + n1], sx); w = np.array(v["v"][(2 * k + 1) * n1:(2 * k + 2) * n1]).reshape(self.n, self.np_, b)
            y = np.array([w[i, cs[i][0]] if sy else w[i].sum(0) for i in range(self.n)]).reshape(-1); X, Y, stx, sty, cmp = np.zeros(self.n * b), np.zeros(self.n * b), set(), set(), []; X, Y = X.reshape(-1, b), Y.reshape(-1, b)
            for r in range(self.np_):
                for Z, ss, dofs in ((X, stx, self.loc[r]), (Y, sty, cloc.get(r))):
                    if dofs is None: continue
                    t = Q[r].n(); f = Q[r].f(Q[r].n()).reshape(-1, b); ok("size of the vectors", len(f) == len(dofs))
                    if dofs: ss.add(t)
                    first = {}
                    for i, z in zip(dofs, f):
                        if t == 1:
                            own = (self.sets[i] if Z is X else cs[i])
                            if own[0] == r: Z[i] = z
                            else: cmp.append((Z, i, z))
                        else: Z[i] += z
            ok('cumulated vectors are alike on all ranks', all(rel(z, Z[i]) for Z, i, z in cmp)); X, Y = X.reshape(-1), Y.reshape(-1); nm = ("TransferF2C", "AddF2C", "TransferC2F", "AddC2F")[o]; e = ((x, x), (x, y - 1.5 * x), (y, y), (x + .5 * y, y))[o]
            ok("the status of a vector is the same on all ranks", len(stx) <= 1 and len(sty) <= 1); ok(f"{nm} gives the value", rel(Y, e[1]) if o < 2 else rel(X, e[0])); ok(f"{nm} keeps the argument", rel(X, e[0]) if o < 2 else rel(Y, e[1]))
            if o < 2 and sty: ok("vectors are distributed after a transfer to the masters", sty == {0})
            if o > 1 and stx: ok("vectors are cumulated after a transfer from the masters", stx == {1})
        return out
    def Al(self, r): return self.A(r)
rel = L.rel
def contracts_P13(): return [Mesh(False), Mesh(True), Dof(1), Dof(2), Dof(3)]
