"""Queries of the distributed mesh (P12) and of the class hierarchy (P16), scalar means and strengths (P20): proved for all inputs."""
from engb import *
from c_gs import OPQ, names
import logic as L, itertools
TU = "queries"; BIG = 2**20
class Q(Contract):
    tu = TU; opaque = OPQ; rety = "i64"; weight = 2; replay_s = 2; limit = 200; writes = ()
    def models(self, S): return [names]
def grid(v, d, n):
    """displacements: start at 0, do not decrease"""
    a = v[d]; c, e = z3.Ints("gc ge")
    if L.mode == "con": return a[0] == 0 and all(x <= y for x, y in zip(a, a[1:])) and a[-1] <= BIG
    return z3.And(a[0] == 0, a[n] <= BIG, z3.ForAll([c, e], z3.Implies(z3.And(0 <= c, c <= e, e <= n), z3.And(0 <= a[c], a[c] <= a[e], a[e] <= a[n])), patterns=[L.MP(a[c], a[e])]))
class Mesh(Q):
    """class of a node: the class whose range of numbers contains it"""
    def __init__(self, fn, nm, kind, out): self.fn, self.name, self.kind, self.out = fn, "mesh." + nm, kind, out; self.subject = "BlockTM::" + nm
    def setup(self, S): S.int("n", 1, BIG); S.array("de", I64, lambda v: v["n"] + 1); S.array("dc", I64, lambda v: v["n"] + 1); S.int("q", 0, BIG * 2); S.int("k", 0, BIG)
    def pre(self, S):
        v = S.v; n = v["n"]; E, C = v["de"][n], v["dc"][n]; q = v["q"]; d = {"numbers by class": grid(v, "de", n), "cross numbers by class": grid(v, "dc", n)}
        if self.out in ("class", "local"): d["node exists"] = q < E if self.kind == "e" else L.And(q >= E, q < E + C) if self.kind == "c" else q < E + C
        elif self.out == "fixed":
            k = v["k"]; d["class exists"] = k < n
        else: d["class exists"] = L.And(v["k"] < n, q < BIG)
        return d
    def post(self, S, P):
        v = S.v; n, q, k, r, de, dc = v["n"], v["q"], v["k"], P.ret, v["de"], v["dc"]; E = de[n]
        at = lambda a, i: a[i] if L.mode == "sym" or 0 <= i <= n else -1
        if self.out == "class":
            ok = lambda a, x: L.And(r >= 0, r < n, at(a, r) <= x, x < at(a, r + 1))
            return {"the class contains the node": L.And(L.implies(q < E, ok(de, q)), L.implies(q >= E, ok(dc, q - E)))}
        if self.out == "local":
            # the node is entry r of the class which contains it
            def loc(a, x):
                if L.mode == "con": return any(a[c] <= x < a[c + 1] and r == x - a[c] for c in range(n))
                c = z3.Int("pc"); return L.forall(0, n, lambda c: z3.Implies(z3.And(a[c] <= x, x < a[c + 1]), r == x - a[c]), trig=lambda c: a[c])
            return {"number within the class": L.And(L.implies(q < E, loc(de, q)), L.implies(q >= E, loc(dc, q - E)))}
        if self.out == "fixed":
            w = q - de[k] if self.kind == "e" else q - E - dc[k]
            return {"number within the given class": r == w}
        return {"number in the mesh": r == (q + de[k] if self.kind == "e" else E + q + dc[k])}
    def invariants(self, S, ctx, terms):
        v = S.v; n, q = v["n"], v["q"]; E = v["de"][n]; out = {}
        for an, a in (("de", v["de"]), ("dc", v["dc"])):
            for xn, x in (("q", q), ("q-E", q - E)):
                for i in ctx.ints:
                    for d in (-1, 0, 1):
                        out[f"{an} {xn} below {i}{d:+d}"] = lambda c, a=a, x=x, i=i, d=d: z3.And(c.ints[i] + d >= 0, c.ints[i] + d <= n, a[c.ints[i] + d] <= x)
                        out[f"{an} {xn} above {i}{d:+d}"] = lambda c, a=a, x=x, i=i, d=d: z3.And(c.ints[i] + d >= 0, z3.Or(c.ints[i] + d > n, z3.And(c.ints[i] + d <= n, a[c.ints[i] + d] > x)))
                        out[f"{an} {xn} all below {i}{d:+d}"] = lambda c, a=a, x=x, i=i, d=d: L.forall(0, c.ints[i] + d, lambda k: a[k] <= x, trig=lambda k: a[k])
                        out[f"{an} {xn} all above {i}{d:+d}"] = lambda c, a=a, x=x, i=i, d=d: L.forall(c.ints[i] + d, n + 1, lambda k: a[k] > x, trig=lambda k: a[k])
        return out
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(1, 6); mk = lambda: [0] + list(itertools.accumulate(rng.choice((0, 0, 1, 2, 5)) for _ in range(n))); de, dc = mk(), mk(); t = de[n] + dc[n]
            lo, hi = {"e": (0, de[n]), "c": (de[n], t)}.get(self.kind, (0, t))
            if lo >= hi: hi = lo + 1
            yield dict(n=n, de=de, dc=dc, q=rng.randrange(lo, hi) if self.out != "fixed" else rng.randint(0, 20), k=rng.randrange(n))
def mesh_queries():
    M = Mesh; r = [("q_eofe", "GetEqcOfENode", "e", "class"), ("q_eofc", "GetEqcOfCNode", "c", "class"), ("q_eofn", "GetEQCOfNode", "n", "class"), ("q_eofv", "GetEQCOfNode(vertex)", "e", "class"),
         ("q_mape", "MapENodeToEQC", "e", "local"), ("q_mapc", "MapCNodeToEQC", "c", "local"), ("q_mapn", "MapNodeToEQC", "n", "local"), ("q_mapek", "MapENodeToEQC(class)", "e", "fixed"), ("q_mapck", "MapCNodeToEQC(class)", "c", "fixed"),
         ("q_frome", "MapENodeFromEQC", "e", "from"), ("q_fromc", "MapCNodeFromEQC", "c", "from"), ("q_lnre", "MapENodeToEQLNR.class", "e", "class"), ("q_lnre1", "MapENodeToEQLNR.number", "e", "local"), ("q_lnr", "MapNodeToEQLNR.class", "n", "class"), ("q_lnr1", "MapNodeToEQLNR.number", "n", "local")]
    return [M(*x) for x in r]
EQ = z3.Function("SAMEROW", z3.IntSort(), z3.BoolSort())
class Hier(Q):
    """dp rows: the sorted other ranks of a class"""
    def __init__(self, fn, nm): self.fn, self.name = fn, "classes." + nm; self.subject = "EQCHierarchy::" + nm
    def setup(self, S): S.int("rank", 0, BIG); S.int("n", 0, BIG); S.int("ne", 0, BIG); S.array("fi", I64, lambda v: v["n"] + 1); S.array("dp", I32, lambda v: v["ne"]); S.int("k", 0, BIG); S.int("na", 0, BIG); S.array("a", I32, lambda v: v["na"])
    def pre(self, S):
        v = S.v; n, fi, dp, a = v["n"], v["fi"], v["dp"], v["a"]
        d = {"rows": L.And(grid(v, "fi", n), fi[n] == v["ne"])}
        if self.fn != "q_find": d["class exists"] = v["k"] < n
        if self.fn == "q_dp": d["entry exists"] = v["na"] < fi[v["k"] + 1] - fi[v["k"]] if L.mode == "sym" or v["k"] < n else False
        if self.fn in ("q_master", "q_ismaster"): d["rows are sorted"] = self.sorted(v)
        if L.mode == "sym" and self.fn == "q_find":
            c, j = z3.Ints("gc gj")
            d["def SAMEROW"] = z3.ForAll([c], EQ(c) == z3.And(fi[c + 1] - fi[c] == v["na"], z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v["na"]), dp[fi[c] + j] == a[j]), patterns=[dp[fi[c] + j], a[j]])), patterns=[EQ(c)])
        return d
    def sorted(self, v):
        fi, dp = v["fi"], v["dp"]
        if L.mode == "con": return all(x < y for r in range(v["n"]) for x, y in zip(dp[fi[r]:fi[r + 1]], dp[fi[r] + 1:fi[r + 1]]))
        i, j = z3.Ints("gi gj"); k = v["k"]
        return z3.ForAll([i, j], z3.Implies(z3.And(fi[k] <= i, i < j, j < fi[k + 1]), dp[i] < dp[j]), patterns=[L.MP(dp[i], dp[j])])
    def invariants(self, S, ctx, terms):
        if self.fn != "q_find": return {}
        v = S.v; n, fi, dp, a = v["n"], v["fi"], v["dp"], v["a"]; out = {}
        rows = {i: (lambda c, i=i: c.ints[i]) for i in ctx.ints}
        for oi, inst in enumerate(ctx.outer):
            if inst is None: continue
            for j, xx in enumerate(inst.ctx.ints.values()): rows[f"o{oi}.{j}"] = lambda c, xx=xx: xx
        for rn, g in rows.items():
            out[f"none before {rn}"] = lambda c, g=g: L.forall(0, g(c), lambda k: z3.Not(EQ(k)), trig=lambda k: EQ(k))
            for i in ctx.ints:
                if i != rn: out[f"equal so far {rn} {i}"] = lambda c, g=g, i=i: z3.And(0 <= g(c), g(c) < n, fi[g(c) + 1] - fi[g(c)] == v["na"], L.forall(0, c.ints[i], lambda k: dp[fi[g(c)] + k] == a[k], trig=lambda k: a[k]))
        return out
    def post(self, S, P):
        v = S.v; r, n, fi, dp, k, rank = P.ret, v["n"], v["fi"], v["dp"], v["k"], v["rank"]
        row = lambda c: list(dp[fi[c]:fi[c + 1]])
        if self.fn in ("q_master", "q_ismaster"):
            if L.mode == "con":
                m = min([rank] + row(k)); return {"the smallest rank of the class": r == m if self.fn == "q_master" else bool(r) == (all(rank < p for p in row(k)))}
            low = lambda x: L.forall(fi[k], fi[k + 1], lambda j: x <= dp[j], trig=lambda j: dp[j])
            if self.fn == "q_master": return {"not above any rank of the class": z3.And(r <= rank, low(r)), "one of its ranks": z3.Or(r == rank, z3.And(fi[k] < fi[k + 1], r == dp[fi[k]]))}
            return {"all others are larger": z3.Implies(r != 0, L.forall(fi[k], fi[k + 1], lambda j: rank < dp[j], trig=lambda j: dp[j])), "some other is not larger": z3.Implies(r == 0, z3.And(fi[k] < fi[k + 1], dp[fi[k]] <= rank))}
        if self.fn == "q_find":
            if L.mode == "con": return {"first class with these ranks": r == next((c for c in range(n) if row(c) == list(v["a"])), -1)}
            return {"first class with these ranks": z3.Or(z3.And(r >= 0, r < n, EQ(r)), r == -1), "none before it": z3.Implies(r >= 0, L.forall(0, r, lambda c: z3.Not(EQ(c)), trig=lambda c: EQ(c))), "not found only when there is none": z3.Implies(r == -1, L.forall(0, n, lambda c: z3.Not(EQ(c)), trig=lambda c: EQ(c)))}
        if self.fn == "q_ndp": return {"number of other ranks": r == fi[k + 1] - fi[k]}
        return {"entry of the row": r == dp[fi[k] + v["na"]]}
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(0 if self.fn == "q_find" else 1, 4); rank = rng.randint(0, 5); rows = [sorted(rng.sample([p for p in range(6) if p != rank], rng.choice((0, 1, 1, 2, 3)))) for _ in range(n)]
            fi = [0] + list(itertools.accumulate(map(len, rows))); a = list(rng.choice(rows + [[1], [0, 2]])); k = rng.randrange(max(n, 1)); na = len(a)
            if self.fn == "q_dp": na = rng.randint(0, 3); a = [0] * na
            yield dict(rank=rank, n=n, ne=fi[-1], fi=fi, dp=sum(rows, []), k=k, na=na, a=a)
class Tab(Q):
    def __init__(self, fn, nm): self.fn, self.name = fn, "classes." + nm; self.subject = "EQCHierarchy::" + nm
    def setup(self, S): S.int("n", 1, 2**10); S.array("me", I64, lambda v: v["n"] * v["n"]); S.array("in", I64, lambda v: v["n"] * v["n"]); S.int("a", 0, 2**10); S.int("b", 0, 2**10)
    def pre(self, S): v = S.v; i = v["a"] * v["n"] + v["b"]; return {"classes exist": L.And(v["a"] < v["n"], v["b"] < v["n"]), "table entries": L.And(v["me"][i] >= -1, v["me"][i] < BIG, v["in"][i] >= -1, v["in"][i] < BIG) if L.mode == "sym" or (v["a"] < v["n"] and v["b"] < v["n"]) else False}
    def post(self, S, P):
        v = S.v; i = v["a"] * v["n"] + v["b"]; r = P.ret
        if self.fn == "q_valid": return {"valid exactly when the union is a class": (r != 0) == (v["me"][i] != -1)}
        return {"entry of the table": r == (v["in"] if self.fn == "q_common" else v["me"])[i]}
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(1, 4); m = lambda: [rng.randint(-1, 5) for _ in range(n * n)]
            yield {"n": n, "me": m(), "in": m(), "a": rng.randrange(n), "b": rng.randrange(n)}
def class_queries(): return [Hier("q_master", "GetMasterOfEQC"), Hier("q_ismaster", "IsMasterOfEQC"), Hier("q_find", "FindEQCWithDPs"), Hier("q_ndp", "GetDistantProcs.size"), Hier("q_dp", "GetDistantProcs"),
                              Tab("q_merge", "GetMergedEQC"), Tab("q_mergeif", "GetMergedEQCIfExists"), Tab("q_common", "GetCommonEQC"), Tab("q_valid", "IsMergeValid")]
def eqr(x, y): return x == y if L.mode == "sym" else abs(x - y) <= 1e-11 * (abs(x) + abs(y)) + 1e-300
def mean(t, a, b, r):
    """r is the mean number t of a and b (as a relation, no division)"""
    con = L.mode == "con"; lo = min(a, b) if con else z3.If(a < b, a, b); hi = max(a, b) if con else z3.If(a < b, b, a)
    return (eqr(r, lo), L.And(r >= 0, eqr(r * r, a * b)), eqr(r * (a + b), 2 * a * b), eqr(2 * r, a + b), eqr(r, hi))[t]
class Mean(Q):
    rety = "f64"
    def __init__(self, fn, nm, t, run=False): self.fn, self.name, self.t, self.run = fn, "scalar." + nm, t, run; self.subject = nm
    def setup(self, S):
        if self.run: S.int("t", self.t, self.t)
        S.real("a"); S.real("b")
    def pre(self, S): v = S.v; return {"positive": L.And(v["a"] > 0, v["b"] > 0)}
    def post(self, S, P):
        v = S.v; a, b, r = v["a"], v["b"], P.ret
        if self.t == "hh": return {"a b / (a + b)": eqr(r * (a + b), a * b)}
        if self.t == "q": return {"quotient": eqr(r * b, a)}
        return {"value of the mean": mean(self.t, a, b, r)}
    def gen_cases(self, tier, rng):
        while True:
            a, b = (rng.randint(1, 40) / 4 * 10.0**rng.randint(-3, 3) for _ in "ab"); d = dict(a=a, b=rng.choice((b, b, a)))
            if self.run: d["t"] = self.t
            yield d
class Soc(Q):
    rety = "f64"
    def __init__(self, fn, nm, t): self.fn, self.name, self.t = fn, "scalar." + nm, t; self.subject = nm.split(".")[0]
    def setup(self, S):
        if self.t is not None: S.int("t", self.t, self.t)
        for k in ("vi", "vj", "w", "di", "dj"): S.real(k)
        S.int("l2", 0, 1)
    def pre(self, S): v = S.v; return {"positive": L.And(*[v[k] > 0 for k in ("vi", "vj", "di", "dj")]), "weight not negative": v["w"] >= 0}
    def post(self, S, P):
        v = S.v; r, di, dj, vi, vj, w = P.ret, v["di"], v["dj"], v["vi"], v["vj"], v["w"]; s = vi + vj
        def val(W, D):       # r = W / mean, W and D: numerator and denominator of the boosted weight
            t = self.t
            if t is None: return eqr(r * di * D, W)
            if t == 1: return L.And(r >= 0, eqr(r * r * (di * dj) * (D * D), W * W))
            if t == 2: return eqr(r * (2 * di * dj) * D, W * (di + dj))
            if t == 3: return eqr(r * (di + dj) * D, 2 * W)
            m = (min(di, dj) if t == 0 else max(di, dj)) if L.mode == "con" else z3.If((di < dj) if t == 0 else (di > dj), di, dj)
            return eqr(r * m * D, W)
        return {"plain": L.implies(v["l2"] == 0, val(w, 1)), "boosted": L.implies(v["l2"] == 1, val(w * s + vi * vj, s))}
    def gen_cases(self, tier, rng):
        while True:
            d = {k: rng.randint(1, 40) / 4 * 10.0**rng.randint(-2, 2) for k in ("vi", "vj", "w", "di", "dj")}; d["l2"] = rng.randint(0, 1)
            if self.t is not None: d["t"] = self.t
            yield d
def scalar_strengths():
    N = ("min", "geom", "harm", "alg", "max")
    return [Mean("m_avg", f"Average(type).{x}", t, True) for t, x in enumerate(N)] + [Mean("m_" + x, f"Average<>.{x}", t) for t, x in enumerate(N)] + [Mean("m_wd", f"average.{x}", t, True) for t, x in enumerate(N)] + \
        [Mean("m_hh", "HalfHarmonicAvg", "hh"), Mean("m_gev", "MinGEV", "q"), Mean("m_svs", "CalcScalVertexSOC", "q")] + [Soc("m_soc", f"CalcApproxSOC.{x}", t) for t, x in enumerate(N)] + [Soc("m_jsoc", "CalcApproxJoinSOC", None)]
