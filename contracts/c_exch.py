"""P11: the copy loops of the parallel vector exchange.  XV(q, d): entry d of the vector after the first q positions of the exchange lists, BV(q): the
value position q of the buffer has afterwards (ghost functions by recursion over the positions, rows of the lists follow each other)."""
from engb import *
import logic as L
from c_gs import OPQ, names, prefetch, rl, rl2
TU = "exch"; BIG = 2**20
class Ex(Contract):
    tu = TU; opaque = OPQ; rety = None; weight = 4; limit = 300; replay_s = 4
    W = (("e_bufg", "BufferG", ("x", "buf")), ("e_applym", "ApplyM", ("x",)), ("e_bufm", "BufferM", ("buf",)), ("e_applyg", "ApplyG", ("x",)))
    def __init__(self, op): self.op = op; self.fn, nm, self.writes = self.W[op]; self.name = f"exchange.{nm}"; self.subject = f"DCCMap<double>::{nm}"
    def models(self, S): return [names, prefetch]
    def setup(self, S):
        S.int("np", 0, BIG); S.int("n", 0, BIG); S.int("ne", 0, BIG)
        S.array("fi", I64, lambda v: v["np"] + 1); S.array("ex", I32, lambda v: v["ne"]); S.array("buf", F64, lambda v: v["ne"]); S.array("x", F64, lambda v: v["n"])
    def pre(self, S):
        v = S.v
        if L.mode == "con": return {"": True}
        np_, n, ne, fi, ex, x, buf = (v[k] for k in ("np", "n", "ne", "fi", "ex", "x", "buf")); c, d, q = z3.Ints("gc gd gq"); XV, BV = rl2("XV"), rl("BV")
        new = {0: z3.RealVal(0), 1: XV(q, d) + buf[q], 2: XV(q, d), 3: buf[q]}[self.op]
        return {"rows follow each other": z3.And(fi[0] == 0, fi[np_] == ne, z3.ForAll([c, d], z3.Implies(z3.And(0 <= c, c <= d, d <= np_), z3.And(0 <= fi[c], fi[c] <= fi[d], fi[d] <= ne)), patterns=[L.MP(fi[c], fi[d])])),
                "entries": z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < ne), z3.And(0 <= ex[q], ex[q] < n)), patterns=[ex[q]]),
                "def XV first": z3.ForAll([d], XV(0, d) == x[d], patterns=[XV(0, d)]),
                "def XV": z3.ForAll([q, d], z3.Implies(z3.And(0 <= q, q < ne), XV(q + 1, d) == z3.If(ex[q] == d, new, XV(q, d))), patterns=[L.MP(XV(q, d), ex[q])]),
                "def XV at the entry": z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < ne), XV(q + 1, ex[q]) == z3.substitute(new, (d, ex[q]))), patterns=[ex[q]]),
                "def BV": z3.ForAll([q], BV(q) == (XV(q, ex[q]) if self.op == 0 else x[ex[q]] if self.op == 2 else buf[q]), patterns=[BV(q)])}
    def invariants(self, S, ctx, terms):
        v = S.v; fi = v["fi"]; out = {}; k = z3.Int("ik"); XV, BV = rl2("XV"), rl("BV")
        rows = {n: (lambda c, n=n: c.ints[n]) for n in ctx.ints}
        for oi, inst in enumerate(ctx.outer):
            if inst is None: continue
            for j, xx in enumerate(inst.ctx.ints.values()): rows[f"o{oi}.{j}"] = lambda c, xx=xx: xx
        pos = {}
        for nm, g in rows.items():
            pos[nm] = g
            for d in (-1, 0, 1):
                pos[f"fi[{nm}{d:+d}]"] = lambda c, g=g, d=d: fi[g(c) + d]
                for n in ctx.ints:
                    if n == nm: continue
                    pos[f"fi[{nm}{d:+d}]+{n}"] = lambda c, g=g, d=d, n=n: fi[g(c) + d] + c.ints[n]
                    out[f"row {n} {nm}{d:+d}"] = lambda c, g=g, d=d, n=n: z3.And(0 <= c.ints[n], fi[g(c) + d] + c.ints[n] <= fi[g(c) + d + 1])
                    out[f"abs {n} {nm}{d:+d}"] = lambda c, g=g, d=d, n=n: z3.And(fi[g(c) + d] <= c.ints[n], c.ints[n] <= fi[g(c) + d + 1])
        for pn, p in pos.items():
            def inv(c, p=p): X = c.mem["x"][0]; t = p(c); return L._all([k], z3.Implies(z3.And(0 <= k, k < v["n"]), X[k] == XV(t, k)), [X[k]])
            def binv(c, p=p): B = c.mem["buf"][0]; t = p(c); return L._all([k], z3.Implies(z3.And(0 <= k, k < v["ne"]), B[k] == z3.If(k < t, BV(k), v["buf"][k])), [B[k]])
            if "x" in self.writes: out[f"vector {pn}"] = inv
            if "buf" in self.writes: out[f"buffer {pn}"] = binv
        return out
    def post(self, S, P):
        v = S.v
        if L.mode == "con":
            x, buf = list(v["x"]), list(v["buf"])
            for q in range(v["ne"]):
                e = v["ex"][q]
                if self.op in (0, 2): buf[q] = x[e]
                if self.op == 0: x[e] = 0
                if self.op == 1: x[e] += buf[q]
                if self.op == 3: x[e] = buf[q]
            return {"every listed entry is exchanged with its place in the buffer, in order": list(P.arr("x")) == x and list(P.arr("buf")) == buf}
        k = z3.Int("pk"); d = {}; X, B = P.arr("x"), P.arr("buf")
        if "x" in self.writes: d["vector"] = L._all([k], z3.Implies(z3.And(0 <= k, k < v["n"]), X[k] == rl2("XV")(v["ne"], k)), [X[k]])
        if "buf" in self.writes: d["buffer"] = L._all([k], z3.Implies(z3.And(0 <= k, k < v["ne"]), B[k] == rl("BV")(k)), [B[k]])
        return d
    def gen_cases(self, tier, rng):
        while True:
            n, np_ = rng.choice((1, 2, 3, 6)), rng.choice((0, 1, 2, 3)); fi = [0]; ex = []
            for _ in range(np_): ex += sorted(rng.sample(range(n), rng.randint(0, n))); fi.append(len(ex))
            yield dict(np=np_, n=n, ne=len(ex), fi=fi, ex=ex, buf=[float(rng.randint(-9, 9)) for _ in ex], x=[float(rng.randint(-9, 9)) for _ in range(n)])
def contracts_exch(): return [Ex(o) for o in range(4)]
