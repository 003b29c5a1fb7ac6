"""P07: level-specific options;  P17: ordering of tuples."""
from engb import *
import logic as L, itertools
TU = "options"
BIG = 2**20
class OB(Contract):
    tu = TU; opaque = models.OPAQUE; rety = "i32"; weight = 2; replay_s = 6
    def __init__(self): self.name = self.nm
def opt(S, d, n, sp):
    S.int(d); S.int(n, 0, BIG); S.array(sp, I32, lambda v: v[n])
def at(v, d, n, sp, l): 
    if L.mode == "con": return v[sp][l] if 0 <= l < v[n] else v[d]
    return z3.If(z3.And(l >= 0, l < v[n]), v[sp][l], v[d])
class Get(OB):
    two = False; src = False; val = False
    def __init__(self, nm, fn, order, writes=()):
        self.name = self.nm = nm; self.fn = fn; self.order = order; self.writes = writes; self.subject = "SpecOpt " + nm
    def setup(self, S):
        for o in self.order:
            if o == "1": opt(S, "d", "n", "sp")
            elif o == "2": opt(S, "d2", "n2", "sp2")
            elif o == "d": S.int("d")
            elif o == "v": S.int("val")
            elif o == "l": S.int("lev", 0, 2**31 - 1)
            elif o == "s": S.array("src", I32, lambda v: 1)
    def pre(self, S): return {}
    def post(self, S, P):
        v = S.v
        w = v["val"] if "v" in self.order else v["d"] if self.order[0] == "d" else at(v, "d", "n", "sp", v["lev"])
        d = {"value at every level": P.ret == w}
        if "s" in self.order: d["source unchanged"] = P.arr("src")[0] == w
        return d
    def gen_cases(self, tier, rng):
        while True:
            c = {}
            for o in self.order:
                if o in "12":
                    s = "" if o == "1" else "2"; n = rng.choice((0, 1, 2, 3, 7))
                    c["d" + s] = rng.randint(-5, 5); c["n" + s] = n; c["sp" + s] = [rng.randint(-5, 5) for _ in range(n)]
                elif o == "d": c["d"] = rng.randint(-5, 5)
                elif o == "v": c["val"] = rng.randint(-5, 5)
                elif o == "l": c["lev"] = rng.choice((0, 1, 2, 3, 6, 7, 8, 100))
                elif o == "s": c["src"] = [77]
            yield c
    def invariants(self, S, ctx, terms):
        """element-wise copies (optionally as 0/1, optionally or-ed in)"""
        out = {}
        srcs = {("spec", x): S.v[x] for x in ("sp", "sp2") if x in S.v}
        ents = {}
        for k, d in ctx._c.entry_mem.items():
            if isinstance(d, dict) and 0 in d and isinstance(d[0], z3.ArrayRef) and d[0].sort().range() == z3.IntSort(): ents[k] = d[0]
        for i, k in enumerate(sorted(ents)): srcs[("ent", i)] = ents[k]
        b = lambda x: z3.If(x != 0, z3.IntVal(1), z3.IntVal(0))
        for m in sorted(ctx.modified):
            if m not in ctx.mem: continue
            for f, A in ctx.mem[m].items():
                A0 = ctx.entry_mem[m][f]
                for nm, src in srcs.items():
                    for n in ctx.ints:
                        def mk(val, n=n, m=m, f=f): return lambda c: L.forall(0, c.ints[n], lambda k: c.mem[m][f][k] == val(k), trig=lambda k: c.mem[m][f][k])
                        out[f"copy {m} {nm} {n}"] = mk(lambda k, s=src: s[k])
                if isinstance(self, Or):
                    v = S.v; ext = lambda k: b(z3.If(k < v["n"], v["sp"][k], v["d"])); oth = lambda k: b(z3.If(k < v["n2"], v["sp2"][k], v["d2"]))
                    res = lambda k: z3.If(z3.Or(ext(k) == 1, oth(k) == 1), z3.IntVal(1), z3.IntVal(0))
                    T = {**{n: (lambda c, n=n: c.ints[n]) for n in ctx.ints}, **{x: (lambda c, x=x: v[x]) for x in ("n", "n2")}, "0": lambda c: z3.IntVal(0)}
                    T["mx"] = lambda c: z3.If(v["n"] < v["n2"], v["n2"], v["n"])
                    for n, g in T.items():
                        for w, f_ in (("own", ext), ("other", oth), ("result", res)):
                            out[f"{w} {m} {n}"] = lambda c, g=g, f_=f_, m=m, f=f: L.forall(0, g(c), lambda k: c.mem[m][f][k] == f_(k), trig=lambda k: c.mem[m][f][k])
                        for n2, g2 in T.items():
                            if n2 != n: out[f"own {m} {n}..{n2}"] = lambda c, g=g, g2=g2, m=m, f=f: L.forall(g(c), g2(c), lambda k: c.mem[m][f][k] == ext(k), trig=lambda k: c.mem[m][f][k])
        return out
class Or(Get):
    def terms(self, S):
        v = S.v
        return {"mx": z3.If(v["n"] < v["n2"], v["n2"], v["n"])}
    def __init__(self): super().__init__("|=", "h_or", "12l")
    def post(self, S, P):
        v = S.v; a, b = at(v, "d", "n", "sp", v["lev"]), at(v, "d2", "n2", "sp2", v["lev"])
        return {"on exactly where one of them is": P.ret == L.ite(L.Or(a != 0, b != 0), 1, 0)}
    def gen_cases(self, tier, rng):
        for c in super().gen_cases(tier, rng):
            for k in ("d", "d2"): c[k] &= 1
            for k in ("sp", "sp2"): c[k] = [x & 1 for x in c[k]]
            yield c
class FromFlags(OB):
    """configured from flags: the given default (or the old one) everywhere, the listed values on the first levels"""
    engine = "bounded"
    def __init__(self, kind): self.kind = kind; self.name = self.nm = "SetFromFlags." + kind; self.fn = "h_f" + kind; self.subject = "SpecOpt::" + ("SetFromFlagsEnum" if kind == "enum" else f"SetFromFlags<{kind}>")
    def setup(self, S):
        for x in ("d", "has", "val", "ns"): S.int(x)
        S.array("sp", I32, lambda v: max(0, v["ns"]) if L.mode == "con" else z3.Int("nsp")); S.int("lev")
        if self.kind == "enum": S.int("ctor", 0, 1)
    def gen_cases(self, tier, rng):
        while True:
            k = self.kind; ns = rng.choice((-1, 0, 1, 2, 5))
            r = (lambda: rng.randint(0, 1)) if "bool" in k else (lambda: rng.randint(0, 5)) if k in ("str", "enum") else (lambda: rng.randint(-9, 9))
            c = {"d": 20 + rng.randint(0, 3) if k == "enum" else r(), "has": rng.randint(0, 1), "val": r(), "ns": ns, "sp": [r() for _ in range(max(ns, 0))], "lev": rng.choice((0, 1, 2, 4, 5, 9))}
            if k == "enum": c["ctor"] = rng.randint(0, 1)
            yield c
    def post(self, S, P):
        v = S.v; l, sp = v["lev"], v["sp"]; k = self.kind
        if k == "enum":
            conv = lambda x, old: 10 + x if x < 4 else old
            df = conv(v["val"], v["d"]) if v["has"] else v["d"]
            return {"value at every level": P.ret == (conv(sp[l], df) if l < len(sp) else df)}
        df = v["val"] if v["has"] else 2 if k == "xbool" else v["d"]
        return {"value at every level": P.ret == (sp[l] if l < len(sp) else df)}
class SEnum(OB):
    engine = "bounded"; nm = "SetEnumOpt"; fn = "h_senum"; subject = "SetEnumOpt"
    def setup(self, S):
        for x in ("cur", "has", "val", "hasdef", "def"): S.int(x)
    def gen_cases(self, tier, rng):
        for t in itertools.product((3, 17), (0, 1), range(6), (0, 1), (5, 12)): yield dict(zip(("cur", "has", "val", "hasdef", "def"), t))
    def post(self, S, P):
        v = S.v
        w = 10 + v["val"] if v["has"] and v["val"] < 4 else v["def"] if v["hasdef"] else v["cur"]
        return {"value": P.ret == w}
class Lt(OB):
    def __init__(self, n): self.n = n; self.name = self.nm = f"tuple{n}.less"; self.fn = f"h_lt{n}"; self.subject = f"operator<(IVec<{n}>, IVec<{n}>)"
    def setup(self, S):
        for x in "ab": S.array(x, I32, lambda v: self.n)
    def pre(self, S): return {}
    def gen_cases(self, tier, rng):
        for a in itertools.product(range(3 if self.n < 4 else 2), repeat=self.n):
            for b in itertools.product(range(3 if self.n < 4 else 2), repeat=self.n): yield {"a": list(a), "b": list(b)}
        while True: yield {"a": [rng.randint(-2, 2) for _ in range(self.n)], "b": [rng.randint(-2, 2) for _ in range(self.n)]}
    def post(self, S, P):
        a, b = S.v["a"], S.v["b"]; w = False if L.mode == "con" else z3.BoolVal(False)
        for i in reversed(range(self.n)): w = L.Or(a[i] < b[i], L.And(a[i] == b[i], w))
        return {"first differing entry decides": L.iff(P.ret != 0, w)}
class Inc(OB):
    nm = "tuple3.add"; fn = "h_inc3"; subject = "operator+=(IVec<3>)"; writes = ("o",); rety = None
    def setup(self, S):
        for x in "abo": S.array(x, I32, lambda v: 3, **({"lo": -2**29, "hi": 2**29} if x != "o" else {}))
    def pre(self, S): return {}
    def gen_cases(self, tier, rng):
        while True: yield {x: [rng.randint(-99, 99) for _ in range(3)] for x in "abo"}
    def post(self, S, P): return {"componentwise sum": L.And(*[P.arr("o")[i] == S.v["a"][i] + S.v["b"][i] for i in range(3)])}
def contracts_P07():
    return [Get("GetOpt", "h_get", "1l"), Get("plain", "h_getd", "dl"), Get("constructed", "h_ctor", "1l"), Get("copied", "h_copy", "1ls", ("src",)), Get("moved", "h_move", "1l"), Get("assigned", "h_asg", "12ls", ("src",)), Get("assigned value", "h_asgd", "2vl"), Or()] + \
           [FromFlags(k) for k in ("int", "dbl", "bool", "xbool", "str", "enum")] + [SEnum()]
def contracts_P17(): return [Lt(n) for n in (2, 3, 4, 5)] + [Inc()]
