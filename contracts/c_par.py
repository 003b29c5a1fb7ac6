"""P16: equivalence-class hierarchy and table exchange on several ranks (bounded: np <= 5 ranks over an in-process message passing with seeded schedules, eager and rendezvous sends)."""
import itertools
from engb import Contract, I32, I8
TU = "par"
class B(Contract):
    tu = TU; engine = "bounded"; replay_s = 8; cap = 4000; rety = "i32"
    def decode(self, P, np):
        o = list(P.arr("o")); r, i = [], 0
        for _ in range(np): n = o[i]; r.append(o[i + 1:i + 1 + n]); i += n + 1
        return r
class Rd:
    def __init__(s, l): s.l, s.i = l, 0
    def n(s): s.i += 1; return s.l[s.i - 1]
    def a(s): n = s.n(); s.i += n; return s.l[s.i - n:s.i]
    def end(s): return s.i == len(s.l)
def family(rng, np, ns, lo=0):
    fs = []
    for _ in range(ns):
        k = rng.choice((2, 2, 3, 3, 4, 5)); k = min(k, np - lo)
        if k < 1: continue
        s = sorted(rng.sample(range(lo, np), k)); fs.append(s)
    return fs
def flat(fs):
    so, mem = [0], []
    for s in fs: mem += s; so.append(len(mem))
    return dict(ns=len(fs), so=so, mem=mem)
def uniq(fs):
    o = []
    for s in fs:
        if s not in o: o.append(s)
    return o
CT = {2: "ParallelDofs", 3: "table", 4: "partial-table"}
class Eqc(B):
    """one class per set of ranks, the same on all its members"""
    writes = ("o",); fn = "p_eqc"; subject = "EQCHierarchy (constructors, SetupFromInitialDPs, SetupFromDPs, accessors)"
    def __init__(self, ctor, cut): self.ctor, self.cut = ctor, cut; self.name = f"eqc.{CT[ctor]}" + (".cutunion" if cut else "")
    def setup(self, S):
        for x in ("np", "seed", "ctor"): S.int(x)
        S.boolean("cut"); S.boolean("idle"); S.int("ns"); S.array("so", I32, lambda v: v["ns"] + 1); S.array("mem", I32, lambda v: v["so"][v["ns"]]); S.int("nd"); S.array("dset", I32, lambda v: v["nd"]); S.boolean("sel"); S.array("dsel", I8, lambda v: v["nd"]); S.int("maxd"); S.array("know", I8, lambda v: v["ns"] * v["np"]); S.int("no"); S.array("o", I32, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        while True:
            np = rng.choice((1, 2, 3, 3, 4, 4, 5)); idle = self.ctor == 3 and np > 1 and rng.random() < .5 or self.ctor == 2 and np > 1; lo = 1 if idle else 0
            if self.ctor == 4 and np > 1 and rng.random() < .3: lo = 1
            fs = uniq(family(rng, np, rng.randint(0, 5), lo))
            if self.ctor != 2: fs = [s for s in fs if len(s) > 1]
            else: fs += [[r] for r in range(lo, np) if rng.random() < .7 and [r] not in fs]
            if self.cut and rng.random() < .6 and np - lo > 2: fs = uniq(fs + [list(range(lo, np))])
            nd = rng.randint(0, 9) if fs else 0; c = flat(fs); ds = sorted(rng.randrange(len(fs)) for _ in range(nd)) if rng.random() < .2 else [rng.randrange(len(fs)) for _ in range(nd)]
            kn = []
            for s in fs: ks = rng.sample(s, rng.randint(1, len(s))); kn += [int(r in ks) for r in range(np)]
            c.update(np=np, seed=rng.randrange(1 << 30), ctor=self.ctor, cut=self.cut, idle=idle, nd=nd, dset=ds, sel=rng.random() < .4, dsel=[int(rng.random() < .7) for _ in range(nd)], maxd=rng.choice((-1, -1, rng.randint(0, nd))), know=kn, no=9000, o=[0] * 9000)
            yield c
    def post(self, S, P):
        v = S.v; np = v["np"]; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        fs = [frozenset(v["mem"][v["so"][k]:v["so"][k + 1]]) for k in range(v["ns"])]
        if self.ctor == 2: fs = [fs[d] for i, d in enumerate(v["dset"]) if (not v["sel"] or v["dsel"][i]) and (v["maxd"] < 0 or i < v["maxd"])]
        fam = {f for f in fs if len(f) > 1}; R = [Rd(x) for x in self.decode(P, np)]; seen = {}; cls = []; ids = {}; ok = lambda k, b: out.__setitem__(k, out.get(k, True) and bool(b))
        for r in range(np):
            q = R[r]; n = q.n(); dummy, idle, true = q.n(), q.n(), q.n(); alld = q.a(); dps, loc = [], []
            want_idle = v["idle"] if self.ctor != 4 else (np > 1 and all(0 not in f for f in fam)) if v["ns"] or np > 1 else False
            ok("idle rank and parallel flag agree on all ranks", bool(idle) == bool(want_idle) and bool(true) == (np > (2 if want_idle else 1)) and not dummy)
            for k in range(n):
                d = q.a(); ok("the table of neighbours", q.a() == d); i = q.n(); ok("identifiers are looked up", q.n() == i and q.n() == k); dps.append(d)
                f = frozenset(d) | {r}; ok("neighbours of a class are other ranks in ascending order", d == sorted(set(d)) and r not in d and all(0 <= p < np for p in d))
                ok("the master is the lowest rank", q.n() == min(f)); ok("master flag", bool(q.n()) == (r == min(f))); ok("a class is found by its neighbours", q.n() == k); ids.setdefault(f, set()).add(i); seen.setdefault(f, set()).add(r)
            ok("no class appears twice, smaller classes come first", [(len(d), d) for d in dps] == sorted((len(d), d) for d in dps) and len({tuple(d) for d in dps}) == n)
            ok("list of all neighbours", alld == sorted({p for d in dps for p in d})); fin = lambda d: dps.index(d) if d in dps else -1
            for k in range(n):
                for j in range(n):
                    u, c = sorted(set(dps[k]) | set(dps[j])), sorted(set(dps[k]) & set(dps[j])); val, m, m2, co, le = q.n(), q.n(), q.n(), q.n(), q.n()
                    ok("merged class", m == fin(u) and m2 == m and bool(val) == (m >= 0)); ok("common class", co == fin(c)); ok("order of the classes", bool(le) == (set(dps[k]) <= set(dps[j])))
                    if self.cut: ok("closed under intersection", co >= 0)
                    fk, fj = frozenset(dps[k]) | {r}, frozenset(dps[j]) | {r}
                    if self.cut and fk in fam | {frozenset([r])} and fj in fam and any(fk | fj <= g for g in fam): ok("the union of two classes that lies in a class is a class", m >= 0)
            ok("unknown neighbours give no class", q.n() == -1); ok("report complete", q.end())
            has = any(r in f for f in fs) if self.ctor == 2 else True
            if self.ctor == 2: has = any(r in v["mem"][v["so"][d]:v["so"][d + 1]] for d in v["dset"])
            if self.ctor == 3 and v["idle"] and r == 0: has = False
            ok("the local class comes first", ([] in dps) == has and (not has or dps[0] == []) or self.cut and not has and n == 0)
        for f in fam: ok("every set of ranks is a class on each of its members", seen.get(f, set()) == set(f))
        for f in seen:
            ok("classes are known to all members, under one identifier", seen[f] == set(f) and len(ids[f]) == 1)
            if f not in fam and len(f) > 1:
                if not self.cut: ok("no other classes", False)
                else:                                                                     # generated from the given sets by unions and intersections: it contains with each member a smallest intersection
                    ok("no other classes", any(f <= g for g in fam) and all(frozenset.intersection(*[g for g in fam if p in g]) & f and (frozenset.intersection(*[g for g in fam if p in g]) <= f or len(f) == 1) for p in f))
        one = [next(iter(ids[f])) for f in ids]; ok("different classes have different identifiers", len(set(one)) == len(one))
        return out
HOW = ("ReduceTable.list", "ReduceTable.rows", "ReduceTable.classes", "ScatterEqcData", "ScatterEqcData.in-place", "ScatterEQCData", "ScatterEQCArray", "GatherEQCData.sizes", "GatherEQCData", "PartitionData")
class Exch(B):
    """rows are gathered, reduced and scattered unchanged and in order"""
    writes = ("o",); fn = "p_exch"
    def __init__(self, how): self.how = how; self.name = "exchange." + HOW[how]; self.subject = HOW[how].split(".")[0]
    def setup(self, S):
        for x in ("np", "seed", "how"): S.int(x)
        S.boolean("dbl"); S.int("ns"); S.array("so", I32, lambda v: v["ns"] + 1); S.array("mem", I32, lambda v: v["so"][v["ns"]]); S.int("nr"); S.array("rs", I32, lambda v: v["nr"]); S.array("ro", I32, lambda v: v["nr"] * v["np"] + 1); S.int("nd"); S.array("dat", I32, lambda v: v["nd"]); S.int("no"); S.array("o", I32, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        h = self.how
        while True:
            np = rng.choice((1, 2, 3, 3, 4, 5)); fs = uniq(family(rng, np, rng.randint(0, 5))); fs = [s for s in fs if len(s) > 1]
            if h in (0, 1, 9) or rng.random() < .9: fs += [[r] for r in range(np)]
            rng.shuffle(fs); c = flat(fs); rs = list(range(len(fs))) if h not in (0, 1, 9) else [rng.randrange(len(fs)) for _ in range(rng.randint(0, 8))]
            sz = [[rng.choice((0, 0, 1, 2, 3, 5)) if r in fs[s] else 0 for r in range(np)] for s in rs]
            if h in (4, 5, 6): sz = [[(max(q) if h < 6 else max(1, max(q))) if r in fs[s] else 0 for r in range(np)] for s, q in zip(rs, sz)]      # everybody has the memory
            ro = [0]
            for q in sz:
                for x in q: ro.append(ro[-1] + x)
            c.update(np=np, seed=rng.randrange(1 << 30), how=h, dbl=h not in (3, 4) and rng.random() < .5, nr=len(rs), rs=rs, ro=ro, nd=ro[-1], dat=[rng.randint(0, 99) for _ in range(ro[-1])], no=900, o=[0] * 900)
            yield c
    def post(self, S, P):
        v = S.v; np, h = v["np"], self.how; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        fs = [v["mem"][v["so"][k]:v["so"][k + 1]] for k in range(v["ns"])]; data = lambda k, r: v["dat"][v["ro"][k * np + r]:v["ro"][k * np + r + 1]]; good = "every rank has the data of the owners, in the order of the ranks"
        for r, q in enumerate(map(Rd, self.decode(P, np))):
            n = q.n(); rows, got = [], []
            for _ in range(n): rows.append(q.n()); got.append(q.a())
            if h < 2 and rows != [k for k in range(v["nr"]) if r in fs[v["rs"][k]]]: out[good] = False
            for k, g in zip(rows, got):
                s = [] if k < 0 else fs[v["rs"][k]] if h < 3 else fs[k]; mine = lambda p: [] if k < 0 else data(k, p); m = min(s) if s else r
                if h < 3:
                    a = [mine(p) for p in s] if s else [[]]; want = [1000 + m] if sum(map(len, a)) % 3 != 2 else []
                    if want:
                        for x in a: want += [len(x)] + x
                elif h in (3, 4, 5): want = mine(m)
                elif h == 6: want = (mine(m)[:1] + mine(r)[1:])
                elif h in (7, 8): want = mine(r) if r != m else mine(r) + [x for p in s if p != r for x in mine(p)]
                else: want = [i for i in [z for z in range(v["nr"]) if r in fs[v["rs"][z]]] if i % 5 != 4 and fs[v["rs"][i]] == (s or None)]
                out[good] = out.get(good, True) and g == want
            if h == 7:
                for k, g in zip(rows, got):
                    ix = q.a(); s = [] if k < 0 else fs[k]; m = min(s) if s else r; w = [0, 0 if k < 0 else len(data(k, r))]
                    if s and m == r:
                        for p in s:
                            if p != r: w.append(w[-1] + len(data(k, p)))
                    out["offsets of the received parts"] = out.get("offsets of the received parts", True) and ix == w
            out["report complete"] = out.get("report complete", True) and q.end()
        return out
CH = ("ExchangePairWise", "ExchangePairWise2", "ExchangePairWise_norecbuffer", "Send.table", "ISend.table", "Bcast.table", "Bcast.array", "Send.sparse-matrix", "MyAllReduceDofData", "BuildDPTable", "CreateSubCommunicatorGlobal", "Gather", "AllReduceFA")
class Comm(B):
    """messages arrive complete and unchanged"""
    writes = ("o",); fn = "p_comm"
    def __init__(self, how): self.how = how; self.name = "comm." + CH[how]; self.subject = CH[how].split(".")[0]
    def setup(self, S):
        for x in ("np", "seed", "how", "root", "nt"): S.int(x)
        S.array("ts", I32, lambda v: v["nt"] + 1); S.array("td", I32, lambda v: v["ts"][v["nt"]]); S.int("ns"); S.array("so", I32, lambda v: v["ns"] + 1); S.array("mem", I32, lambda v: v["so"][v["ns"]]); S.int("nd"); S.array("dset", I32, lambda v: v["nd"]); S.array("dv", I32, lambda v: v["nd"] * v["np"]); S.int("no"); S.array("o", I32, lambda v: v["no"])
    def gen_cases(self, tier, rng):
        h = self.how
        while True:
            np = rng.choice((1, 2, 3, 4, 5)); nt = rng.randint(0 if h in (3, 4, 5, 7) else 1, 5); ts = [0]
            for _ in range(nt): ts.append(ts[-1] + rng.choice((0, 1, 2, 4)))
            if h == 11 and not ts[-1]: ts[-1] = 1
            lo = 1 if np > 1 else 0; fs = uniq(family(rng, np, rng.randint(1, 5), lo)); nd = rng.randint(0, 7) if fs else 0
            yield dict(flat(fs), np=np, seed=rng.randrange(1 << 30), how=h, root=rng.randrange(1, 1 << np) if h == 10 else rng.randrange(np), nt=nt, ts=ts, td=[rng.randint(0, 99) for _ in range(ts[-1])], nd=nd, dset=[rng.randrange(len(fs)) for _ in range(nd)], dv=[rng.randint(0, 9) for _ in range(nd * np)], no=400, o=[0] * 400)
    def post(self, S, P):
        v = S.v; np, h, root = v["np"], self.how, v["root"]; out = {"all ranks come to an end, every message is received": P.ret == 0}
        if P.ret: return out
        row = lambda i, f: [x * 8 + f for x in v["td"][v["ts"][i]:v["ts"][i + 1]]]; fs = [v["mem"][v["so"][k]:v["so"][k + 1]] for k in range(v["ns"])]; ser = lambda t: [len(t)] + [y for x in t for y in [len(x)] + x]
        for r, got in enumerate(self.decode(P, np)):
            gl = [d for d in range(v["nd"]) if r in fs[v["dset"][d]]]
            if h < 3: want = ser([row((p * 3 + r) % v["nt"], p) for p in range(np) if p != r])
            elif h in (3, 4, 5): want = ser([row(i, root) for i in range(v["nt"])])
            elif h == 6: want = ser([[x * 8 + root for x in v["td"]]])
            elif h == 7:
                want = [v["nt"], max([0] + [v["ts"][i + 1] - v["ts"][i] for i in range(v["nt"])])]
                for i in range(v["nt"]): x = row(i, root); want += [len(x)] + [z for j, y in enumerate(x) for z in (j, y)]
            elif h == 8:
                want = []
                for d in gl:
                    s = fs[v["dset"][d]]; a = 0
                    for p in s: a = 10 * a + v["dv"][d * np + p]
                    want.append(a if len(s) > 1 else v["dv"][d * np + r])
                want = ser([want])
            elif h == 9: want = ser([[p for p in fs[v["dset"][d]] if p != r] for d in gl])
            elif h == 10: m = [p for p in range(np) if root >> p & 1]; want = [m.index(r), len(m), root] if r in m else [-1] * 3
            elif h == 11: want = ser([[v["td"][p % max(1, v["ts"][v["nt"]])] * 8 + p for p in range(np)] if r == root else []])
            else: want = ser([[v["ts"][i + 1] * np * (np + 1) // 2 for i in range(v["nt"])]])
            out["messages arrive complete and unchanged"] = out.get("messages arrive complete and unchanged", True) and got == want
        return out
def contracts_P16():
    import c_qry
    return c_qry.class_queries() + [Eqc(c, k) for c in CT for k in (False, True)] + [Exch(h) for h in range(len(HOW))] + [Comm(h) for h in range(len(CH))]
