"""P12: distributed meshes and their coarsening by agglomerates (bounded: np <= 4 ranks over an in-process message passing with seeded schedules)."""
import itertools
from engb import Contract, I32, I8
from c_par import B as PB, Rd, family, flat, uniq
class B(PB): tu = "mesh"; cap = 4000; replay_s = 10
def gargs(S):
    for x in ("np", "seed"): S.int(x)
    S.boolean("idle"); S.boolean("dummy"); S.int("ns"); S.array("so", I32, lambda v: v["ns"] + 1); S.array("mem", I32, lambda v: v["so"][v["ns"]]); S.int("nv"); S.array("vset", I32, lambda v: v["nv"]); S.int("ne"); S.array("e", I32, lambda v: 2 * v["ne"]); S.array("own", I8, lambda v: v["ne"] * v["np"])
def gmesh(rng, big=10):
    np = rng.choice((1, 2, 3, 3, 4)); idle = np > 1 and rng.random() < .4; dummy = np == 1 and rng.random() < .5; lo = 1 if idle else 0
    fs = [s for s in uniq(family(rng, np, rng.randint(0, 4), lo)) if len(s) > 1] + [[r] for r in range(lo, np)]; rng.shuffle(fs); c = flat(fs)
    nv = rng.randint(0, big); vs = [rng.randrange(len(fs)) for _ in range(nv)]; ed, own = [], []
    pairs = [(a, b) for a in range(nv) for b in range(a) if set(fs[vs[a]]) & set(fs[vs[b]])]; dens = rng.choice((.2, .5, .9)); pairs = [p for p in pairs if rng.random() < dens]; rng.shuffle(pairs)
    if rng.random() < .5: pairs.sort(key=lambda p: p[::-1])
    for a, b in pairs:
        s = sorted(set(fs[vs[a]]) & set(fs[vs[b]])); k = rng.sample(s, rng.choice((1, 1, rng.randint(1, len(s))))); ed += [a, b]; own += [int(r in k) for r in range(np)]
    c.update(np=np, seed=rng.randrange(1 << 30), idle=idle, dummy=dummy, nv=nv, vset=vs, ne=len(pairs), e=ed, own=own)
    return c
def parse(q):
    m = {}; n = m["n"] = q.n(); m["n2"] = q.n(); m["dps"] = [q.a() for _ in range(n)]; m["has"] = q.n()
    for k in ("nv", "ne", "gnv", "gne", "env", "ene", "cnv", "cne"): m[k] = q.n()
    m["eqc"] = [([q.n() for _ in range(4)], q.a(), q.a(), q.a()) for _ in range(n)]; m["V"] = [[q.n() for _ in range(6)] for _ in range(m["nv"])]; m["E"] = [[q.n() for _ in range(8)] for _ in range(m["ne"])]; m["mv"], m["me"], m["ae"] = q.a(), q.a(), q.a()
    m["H"], m["W"] = q.n(), q.n(); m["cm"] = [[(q.n(), q.n()) for _ in range(q.n())] for _ in range(m["H"])]; return m
def local(m, r, ok):
    """numbering, classes and connectivity of one rank agree with each other"""
    n = m["n"]; ok("the mesh lists all classes", m["n2"] == n and m["has"]); mast = [all(p > r for p in d) for d in m["dps"]]
    vs = [x for q in m["eqc"] for x in q[1]]; es = [x for q in m["eqc"] for x in q[2]]; cs = [x for q in m["eqc"] for x in q[3]]
    ok("vertices are numbered class by class", vs == list(range(m["nv"])) and m["env"] == m["nv"] and m["cnv"] == 0); ok("edges are numbered class by class, those inside the classes first", es + cs == list(range(m["ne"])) and m["ene"] == len(es) and m["cne"] == len(cs))
    vc = {x: (k, j) for k, q in enumerate(m["eqc"]) for j, x in enumerate(q[1])}; ec = {x: (k, j, t) for k, q in enumerate(m["eqc"]) for t in (0, 1) for j, x in enumerate(q[2 + t])}
    for k, q in enumerate(m["eqc"]): ok("sizes of the classes", q[0] == [len(q[1]), len(q[2]), 0, len(q[3])])
    for i, x in enumerate(m["V"]): ok("class of a vertex and its place there", i in vc and x == [i, vc[i][0], vc[i][1], i, vc[i][0], vc[i][1]])
    for i, x in enumerate(m["E"]):
        ok("an edge joins two vertices, the lower one first", x[0] == i and 0 <= x[1] < x[2] < m["nv"]); ok("class of an edge and its place there", i in ec and x[3:] == [ec[i][0], ec[i][1], i, ec[i][0], ec[i][1]])
        if i in ec and x[1] in vc and x[2] in vc:
            (ka, _), (kb, _) = vc[x[1]], vc[x[2]]; ok("edges inside a class have both ends there", (ka == kb) == (ec[i][2] == 0)); ok("an edge is in the common class of its ends", set(m["dps"][ec[i][0]]) == set(m["dps"][ka]) & set(m["dps"][kb]))
    ok("the master visits its nodes once", m["mv"] == [i for i in range(m["nv"]) if mast[vc[i][0]]] and sorted(m["me"]) == [i for i in range(m["ne"]) if mast[ec[i][0]]]); ok("visits class by class", m["ae"] == [y for k, q in enumerate(m["eqc"]) for x in q[2] + q[3] for y in (k, x)])
    cm = [[] for _ in range(m["nv"])]
    for i, x in enumerate(m["E"]):
        if x[1] < m["nv"] and x[2] < m["nv"]: cm[x[1]].append((x[2], i)); cm[x[2]].append((x[1], i))
    ok("the connectivity lists every edge at both ends", m["H"] == m["nv"] == m["W"] and m["cm"] == [sorted(c) for c in cm]); return vc, ec
def glob(ms, vid, vset, edges, ok, order=None):
    """ms: mesh per rank; vid[r][i]: which vertex; vset: vertex -> ranks; edges: pairs -> ranks"""
    cv, ce, nvm, nem = {}, {}, 0, 0
    for r, m in enumerate(ms):
        ok("a vertex is on the ranks that share it", sorted(vid[r]) == sorted(a for a, s in vset.items() if r in s)); pe = []
        for k, q in enumerate(m["eqc"]):
            f = frozenset(m["dps"][k]) | {r}; l = [vid[r][i] for i in q[1]]; ok("a vertex is in the class of the ranks that share it", all(vset.get(a) == f for a in l)); cv.setdefault(f, {})[r] = l
            le, lc = ([frozenset(vid[r][x] for x in m["E"][i][1:3]) for i in q[t]] for t in (2, 3)); ce.setdefault(f, {})[r] = (le, lc); pe += le + lc
            if r == min(f): nvm += len(l); nem += len(le) + len(lc)
        ok("every edge that joins two shared vertices is on all ranks that share both, once", sorted(map(sorted, pe)) == sorted(sorted(p) for p, s in edges.items() if r in s))
    for f in cv:
        ok("the vertices of a class have the same order on all its ranks", len({tuple(x) for x in cv[f].values()}) == 1); ok("the edges of a class have the same order on all its ranks", len({(tuple(a), tuple(b)) for a, b in ce[f].values()}) == 1)
        if order: ok("a class keeps the given order of the vertices", all(x == sorted(x) for x in cv[f].values()))
    for r, m in enumerate(ms): ok("global numbers of vertices and edges", (m["gnv"], m["gne"]) == (nvm, nem) == (len(vset), len(edges)))
def expected(v):
    np = v["np"]; fs = [frozenset(v["mem"][v["so"][k]:v["so"][k + 1]]) for k in range(v["ns"])]; vset = {i: fs[v["vset"][i]] for i in range(v["nv"])}; ed = [frozenset(v["e"][2 * j:2 * j + 2]) for j in range(v["ne"])]; return vset, ed, {p: frozenset.intersection(*[vset[a] for a in p]) for p in ed}
def head(q): return dict(gv=q.a(), vs=q.a(), ge=q.a(), es=q.a())
class Mesh(B):
    """the nodes of a distributed mesh are numbered class by class, alike on all ranks"""
    writes = ("o",); fn = "m_mesh"; subject = "BlockTM (SetVs, SetNodes, numbering, Apply, move), TopologicMesh::GetEdgeCM"
    def __init__(self, move): self.move = move; self.name = "mesh" + (".moved" if move else "")
    def setup(self, S): gargs(S); S.boolean("move"); S.int("no"); S.array("o", I32, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True: c = gmesh(rng, 12); c.update(move=self.move, no=9000, o=[0] * 9000); yield c
    def post(self, S, P):
        v = S.v; np = v["np"]; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        ok = lambda k, b: out.__setitem__(k, out.get(k, True) and bool(b)); vset, ed, edges = expected(v); ms, vid = [], []
        for r, l in enumerate(self.decode(P, np)):
            q = Rd(l); h = head(q); m = parse(q); ok("report complete", q.end()); local(m, r, ok); ms.append(m); ok("vertices are renumbered one to one", sorted(h["vs"]) == list(range(m["nv"])))
            inv = {b: a for a, b in zip(h["gv"], h["vs"])}; vid.append([inv.get(i, -1) for i in range(m["nv"])])
            for j, i in zip(h["ge"], h["es"]): ok("given edges are found", 0 <= i < m["ne"] and frozenset(inv.get(x, -1) for x in m["E"][i][1:3]) == ed[j])
        glob(ms, vid, vset, edges, ok, True); return out
DH = ("scatter", "reduce", "reduce.local", "cumulate", "distribute")
class Data(B):
    """nodal data of shared nodes is exchanged in place"""
    writes = ("o",); fn = "m_data"
    def __init__(self, nt, how): self.nt, self.how = nt, how; self.name = f"data.{'edge' if nt else 'vertex'}.{DH[how]}"; self.subject = ("ScatterNodalData", "AllreduceNodalData", "AllreduceNodalData", "AttachedNodeData::Cumulate", "AttachedNodeData::Distribute")[how]
    def setup(self, S): gargs(S); S.int("nt"); S.int("how"); S.int("nd"); S.array("dat", I32, lambda v: v["nd"]); S.int("no"); S.array("o", I32, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            c = gmesh(rng); np = c["np"]; n = c["ne"] if self.nt else c["nv"]; d = [rng.randint(1, 9) for _ in range(n * np)]
            if self.how == 4: d = [d[i // np * np] for i in range(n * np)]
            if self.nt:                                                                          # all ranks that share both ends give the edge: otherwise its value there is 0
                if self.how == 4:
                    fs = [set(c["mem"][c["so"][k]:c["so"][k + 1]]) for k in range(c["ns"])]; c["own"] = [int(r in fs[c["vset"][c["e"][2 * j]]] & fs[c["vset"][c["e"][2 * j + 1]]]) for j in range(c["ne"]) for r in range(np)]
            c.update(nt=self.nt, how=self.how, nd=n * np, dat=d, no=3000, o=[0] * 3000); yield c
    def post(self, S, P):
        v = S.v; np = v["np"]; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        ok = lambda k, b: out.__setitem__(k, out.get(k, True) and bool(b)); vset, ed, edges = expected(v); n = v["ne"] if self.nt else v["nv"]; res = []
        for r, l in enumerate(self.decode(P, np)):
            q = Rd(l); h = head(q); q.n(); a = q.a(); ok("number of nodes", len(a) == sum(r in (edges[ed[i]] if self.nt else vset[i]) for i in range(n))); b = st = None; st = q.n() if self.how >= 3 else 1
            if self.how == 4: b = q.a(); st = st and q.n()
            ok("parallel status", st); ok("report complete", q.end()); g, mp = (h["ge"], h["es"]) if self.nt else (h["gv"], h["vs"]); res.append(({i: a[p] for i, p in zip(g, mp) if p < len(a)}, b and {i: b[p] for i, p in zip(g, mp)}))
        for i in range(n):
            s = sorted(edges[ed[i]] if self.nt else vset[i]); given = [r for r in s if not self.nt or v["own"][i * np + r]]; x = {r: v["dat"][i * np + r] if r in given else 0 for r in s}
            want = {r: x[s[0]] for r in s} if self.how == 0 else x
            if self.how in (1, 2):
                t = 0
                if len(s) > 1:
                    for r in s: t = 10 * t + x[r]
                else: t = x[s[0]]
                want = {r: t for r in s}
            if self.how == 3: want = {r: sum(x.values()) for r in s}
            if self.how == 4: want = {r: x[r] if r == s[0] else 0 for r in s}
            for r in given: ok(("every rank has the value of the master", "all ranks have the values reduced in the order of the ranks", "all ranks have the values reduced in the order of the ranks", "all ranks have the sum, once", "the value stays on the master")[self.how], res[r][0].get(i) == want[r]); ok("accumulation undoes distribution", res[r][1] is None or res[r][1].get(i) == x[r])
        return out
class Coarse(B):
    """coarse vertices are the agglomerates, coarse edges join exactly the adjacent ones, alike on all ranks"""
    writes = ("o",); fn = "m_crs"
    def __init__(self, solid): self.solid = solid; self.name = "coarse" + (".solid" if solid else ""); self.subject = "BaseAgglomerateCoarseMap (MapVerts%s, MapEdges), BaseCoarseMap::GetMapC2F" % ("_sv" if solid else "")
    def setup(self, S): gargs(S); S.boolean("solid"); S.int("na"); S.array("actr", I32, lambda v: v["na"]); S.array("arank", I32, lambda v: v["na"]); S.array("ao", I32, lambda v: v["na"] + 1); S.int("nm"); S.array("amem", I32, lambda v: v["nm"]); S.int("no"); S.array("o", I32, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            c = gmesh(rng, 14); fs = [frozenset(c["mem"][c["so"][k]:c["so"][k + 1]]) for k in range(c["ns"])]; vs = [fs[k] for k in c["vset"]]; left = set(range(c["nv"])); drop = rng.choice((0, 0, .2)); A = []; order = list(range(c["nv"])); rng.shuffle(order); want = rng.choice((.3, .6, 1))
            for x in order:
                if x not in left: continue
                left.discard(x)
                if rng.random() < drop: continue
                rk = rng.choice(sorted(vs[x])) if self.solid else min(vs[x]); mem = [x]
                for y in sorted(left, key=lambda _: rng.random()):
                    if len(mem) < 5 and rng.random() < want and vs[y] <= vs[x] and (rk in vs[y] if self.solid else min(vs[y]) == rk): mem.append(y); left.discard(y)
                A.append((x, rk, sorted(mem)))
            ao = [0]
            for a in A: ao.append(ao[-1] + len(a[2]))
            c.update(solid=self.solid, na=len(A), actr=[a[0] for a in A], arank=[a[1] for a in A], ao=ao, nm=ao[-1], amem=[y for a in A for y in a[2]], no=12000, o=[0] * 12000); yield c
    def post(self, S, P):
        v = S.v; agg = {x: a for a in range(v["na"]) for x in v["amem"][v["ao"][a]:v["ao"][a + 1]]}
        return coarse_post(self, v, P, lambda R, ok: (agg, v["actr"], v["arank"]))
def coarse_post(self, v, P, given, tail=None):
    np = v["np"]; out = {"all ranks come to an end, every message is received": P.ret == 0}
    if P.ret: return out
    ok = lambda k, b: out.__setitem__(k, out.get(k, True) and bool(b)); vset, ed, edges = expected(v); R = []
    for r, l in enumerate(self.decode(P, np)):
        q = Rd(l); h = head(q); f = parse(q); q.n(); m = parse(q); vm, em = q.a(), q.a(); nn = [q.n() for _ in range(4)]; c2f = [q.a() for _ in range(q.n())]; ec2f = [q.a() for _ in range(q.n())]; ctr = q.a(); inv = {b: a for a, b in zip(h["gv"], h["vs"])}
        data = ([(q.n(), q.n()) for _ in range(m["nv"])], [q.n() for _ in range(m["ne"])]) if tail else None
        ok("report complete", q.end()); R.append((f, m, vm, em, nn, c2f, ec2f, [inv[i] for i in ctr], inv, data))
    agg, actr, arank = given(R, ok); cset = {a: vset[c] for a, c in enumerate(actr)}; ced = {}
    for p in ed:
        q = frozenset(agg.get(x, -1) for x in p)
        if -1 not in q and len(q) == 2: ced[q] = frozenset.intersection(*[cset[a] for a in q])
    ms, vid = [], []
    for r, (f, m, vm, em, nn, c2f, ec2f, ctr, inv, _) in enumerate(R):
        local(m, r, ok); ms.append(m); ok("sizes of the maps", nn == [f["nv"], f["ne"], m["nv"], m["ne"]] and len(vm) == f["nv"] and len(em) == f["ne"]); ok("the coarse mesh has the classes of the fine mesh", m["dps"] == f["dps"]); cid = {}
        for i in range(f["nv"]):
            a = agg.get(inv[i], -1); ok("vertices in no agglomerate are dropped", (vm[i] == -1) == (a == -1)); ok("the vertex map stays in range", -1 <= vm[i] < m["nv"])
            if a >= 0: cid.setdefault(a, set()).add(vm[i])
        ok("all vertices of an agglomerate go to one coarse vertex", all(len(x) == 1 for x in cid.values())); back = {next(iter(x)): a for a, x in cid.items()}; ok("different agglomerates go to different coarse vertices", len(back) == len(cid)); vid.append([back.get(i, -1) for i in range(m["nv"])])
        for i, x in enumerate(f["E"]):
            a, b = vm[x[1]], vm[x[2]]; inn = -1 in (a, b) or a == b; ok("the edge map follows the vertex map", em[i] == -1 if inn else 0 <= em[i] < m["ne"] and m["E"][em[i]][1:3] == sorted((a, b)))
        for t, mp, nc in ((c2f, vm, m["nv"]), (ec2f, em, m["ne"])): ok("the map from coarse to fine nodes is the inverse", t == [[i for i, x in enumerate(mp) if x == k] for k in range(nc)])
        ok("centers", sorted(ctr) == sorted(c for a, c in enumerate(actr) if arank[a] == r))
    glob(ms, vid, cset, ced, ok)
    if tail: tail(R, vid, agg, actr, arank, ced, ok)
    return out
class Agg(B):
    """agglomerates partition the free vertices into connected sets, alike on all ranks; coarse weights sum up the fine ones"""
    tu = "agg"; writes = ("o",); fn = "a_agg"
    def __init__(self, kind): self.kind = kind; self.name = ("MIS", "SPW")[kind] + ".scalar"; self.subject = ("MISAgglomerator", "SPWAgglomerator")[kind] + " (FormAgglomerates, scalar), H1VData / H1EData::map_data, AgglomerateCoarseMap"
    def setup(self, S):
        gargs(S); S.int("kind"); S.array("vw", I32, lambda v: v["nv"] * v["np"]); S.array("ew", I32, lambda v: v["ne"] * v["np"]); S.boolean("free"); S.array("fv", I8, lambda v: v["nv"]); S.boolean("solid"); S.array("sv", I32, lambda v: v["nv"]); S.boolean("allow"); S.array("alw", I8, lambda v: v["ne"])
        S.int("nf"); S.array("fo", I32, lambda v: v["nf"] + 1); S.int("nfm"); S.array("fmv", I32, lambda v: v["nfm"])
        for x in ("rounds", "thr", "vthr", "opt", "avg", "no"): S.int(x)
        S.array("o", I32, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            c = gmesh(rng, rng.choice((8, 16, 24))); np = c["np"]; c["dummy"] = False; fs = [c["mem"][c["so"][k]:c["so"][k + 1]] for k in range(c["ns"])]; vs = [fs[k] for k in c["vset"]]; ww = rng.choice(([1], [1, 2, 3], [1, 10, 1000], [1, 1, 1, 100000])); l2 = rng.choice((0, 0, 0, .3))
            vw = [rng.choice(ww) if r in vs[i] and rng.random() < l2 else 0 for i in range(c["nv"]) for r in range(np)]; ew = [rng.choice(ww) * c["own"][j * np + r] for j in range(c["ne"]) for r in range(np)]; fv = [int(rng.random() < .8) for _ in range(c["nv"])]; free = rng.random() < .4; sv = [rng.choice(s) for s in vs]; solid = rng.random() < .3
            fo, fm, left = [0], [], [i for i in range(c["nv"]) if not free or fv[i]]
            if rng.random() < .2:
                for _ in range(rng.randint(1, 3)):
                    if not left: break
                    x = rng.choice(left); m = [y for y in left if c["vset"][y] == c["vset"][x] and (not solid or sv[y] == sv[x])][:rng.randint(1, 4)]; left = [y for y in left if y not in m]; fm += m; fo.append(len(fm))
            c.update(kind=self.kind, vw=vw, ew=ew, free=free, fv=fv, solid=solid, sv=sv, allow=rng.random() < .2, alw=[int(rng.random() < .6) for _ in range(c["ne"])], nf=len(fo) - 1, fo=fo, nfm=len(fm), fmv=fm, rounds=rng.choice((1, 2, 3, 3, 4)), thr=rng.choice((1, 25, 25, 200)), vthr=rng.choice((0, 0, 0, 100)), opt=rng.randrange(128), avg=rng.randrange(5), no=14000, o=[0] * 14000); yield c
    def post(self, S, P):
        v = S.v; np = v["np"]; vset, ed, edges = expected(v); fixed = [v["fmv"][v["fo"][k]:v["fo"][k + 1]] for k in range(v["nf"])]; free = {i for i in range(v["nv"]) if not v["free"] or v["fv"][i]}
        def given(R, ok):
            agg, actr, arank = {}, [], []
            for r, (f, m, vm, em, nn, c2f, ec2f, ctr, inv, _) in enumerate(R):
                loc = {b: a for a, b in inv.items()}
                for c in ctr:
                    mem = [inv[i] for i in c2f[vm[loc[c]]]] if vm[loc[c]] >= 0 else []; ok("the center is a member", c in mem); ok("no vertex is in two agglomerates", not any(x in agg for x in mem))
                    for x in mem: agg[x] = len(actr); ok("an agglomerate stays within the ranks of its center, on the rank that agglomerates its vertices", vset[x] <= vset[c] and r == (v["sv"][x] if v["solid"] else min(vset[x])))
                    actr.append(c); arank.append(r); q = {c}; al = {p for j, p in enumerate(ed) if not v["allow"] or v["alw"][j]}
                    if sorted(mem) not in [sorted(x) for x in fixed]:
                        while True:
                            n = {x for p in al if len(p & q) == 1 for x in p if x in mem} | q
                            if n == q: break
                            q = n
                        ok("an agglomerate is connected by allowed edges", q == set(mem))
                        if self.kind and not v["opt"] & 1: ok("at most 2^rounds vertices in an agglomerate", len(mem) <= 2 ** v["rounds"])
            return agg, actr, arank
        def tail(R, vid, agg, actr, arank, ced, ok):
            nb = {x for p in ed for x in p}
            for i in range(v["nv"]):
                if i not in free: ok("fixed vertices are in no agglomerate", i not in agg)
                elif i not in agg: ok("every free vertex is in an agglomerate", self.kind == 1 and (i not in nb and len(vset[i]) == 1 or v["vthr"] > 0 and any(v["vw"][i * np:i * np + np])))
            for x in fixed: ok("given agglomerates are kept", len({agg.get(y, -1) for y in x}) == 1 and sorted(y for y in agg if agg[y] == agg.get(x[0])) == sorted(x))
            W = [[0, 0] for _ in actr]; E = dict.fromkeys(ced, 0)
            for x, a in agg.items(): W[a][0] += sum(v["vw"][x * np:x * np + np]); W[a][1] += len(vset[x])
            for j, p in enumerate(ed):
                w = sum(v["ew"][j * np:j * np + np]); q = frozenset(agg.get(x, -1) for x in p)
                if -1 in q and len(q) == 2: W[max(q)][0] += w
                elif len(q) == 2: E[q] += w
            for r, (f, m, vm, em, nn, c2f, ec2f, ctr, inv, data) in enumerate(R):
                for i in range(m["nv"]): ok("the weight of a coarse vertex is the sum over its vertices and the edges to dropped vertices", list(data[0][i]) == W[vid[r][i]])
                for i, x in enumerate(m["E"]): ok("the weight of a coarse edge is the sum over the edges between its agglomerates", data[1][i] == E.get(frozenset(vid[r][y] for y in x[1:3])))
        return coarse_post(self, v, P, given, tail)
def contracts_P12():
    import c_qry
    return c_qry.mesh_queries() + [Mesh(False), Mesh(True)] + [Data(nt, h) for nt in (0, 1) for h in range(5)] + [Coarse(False), Coarse(True), Agg(0), Agg(1)]
