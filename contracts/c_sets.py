"""P01 / P02: set algebra on sorted arrays, k-way merges, reductions, permutations."""
from engb import *
import logic as L, itertools
TU = "sets"
BIG = 2**30

def mono(v, nm, n, strict=True):
    a = v[nm]
    return L.forall2(0, v[n], lambda k: k + 1, lambda k: v[n], (lambda k, l: a[k] < a[l]) if strict else (lambda k, l: a[k] <= a[l]), trig=lambda k, l: (a[k], a[l]))

class SB(Contract):
    tu = TU; opaque = models.OPAQUE; rety = "i32"; weight = 5
    def __init__(self): self.name = self.nm
    def ms(self, S, c, nm): return c.mem[S.arr[nm].key][0]

def msets(rng, maxn=9, strict=True, lo=-20, hi=20):
    n = rng.randint(0, maxn)
    w = rng.choice((hi - lo, 14, 12)); lo2 = rng.randint(lo, lo + 5)
    if strict:
        n = min(n, w); return sorted(rng.sample(range(lo2, lo2 + w), n))
    return sorted(rng.randint(lo2, lo2 + w) for _ in range(n))

def subsets(n):
    for m in range(1 << n): yield [k for k in range(n) if m >> k & 1]

class Search(SB):
    """one sorted array (duplicates allowed unless strict), one element"""
    strict = False; out = None
    rety = "i64"
    def setup(self, S):
        S.int("x"); n = S.int("n", 0, BIG); S.array("a", I32, lambda v: v["n"])
        if self.out: self.extra(S)
    def extra(self, S):
        S.int("cap", 1, BIG); S.array("o", I32, lambda v: v["n"] + 1)
    def pre(self, S):
        d = {"sorted": mono(S.v, "a", "n", self.strict)}
        if self.out: d["capacity"] = S.v["cap"] >= S.v["n"]
        return d
    def gen_cases(self, tier, rng):
        for n in range(0, 10):
            a = [3 * k for k in range(n)]
            for x in range(-2, 3 * n + 2):
                for cap in {max(1, n), n + 1, n + 3} if self.out else {0}: yield {"x": x, "n": n, "a": a, "cap": cap}
        while True:
            a = msets(rng, 40, self.strict, -60, 60); n = len(a)
            yield {"x": rng.choice(a + [rng.randint(-80, 80)]), "n": n, "a": a, "cap": max(1, n) + rng.randint(0, 2)}
    def templates(self, S, ctx, terms):
        a, x, n = S.v["a"], S.v["x"], S.v["n"]
        return {"all below differ": lambda c, i: L.forall(0, i, lambda k: a[k] != x, trig=lambda k: a[k]),
                "all above differ": lambda c, i: L.forall(i, n, lambda k: a[k] != x, trig=lambda k: a[k]),
                "below <=": lambda c, i: z3.Implies(i > 0, a[i - 1] <= x), "at <=": lambda c, i: z3.And(i < n, a[i] <= x), "at >": lambda c, i: z3.Or(i >= n, a[i] > x),
                "all below <=": lambda c, i: L.forall(0, i, lambda k: a[k] <= x, trig=lambda k: a[k]),
                "all above >": lambda c, i: L.forall(i, n, lambda k: a[k] > x, trig=lambda k: a[k])}

    def templates2(self, S, ctx, terms):
        if not self.out: return {}
        d = {}
        for (k, f) in Merge.outs(self, S, ctx):
            A0 = ctx.entry_mem[k][f]
            d[f"shifted {k}"] = lambda c, i, t, k=k, f=f, A0=A0: z3.ForAll([z3.Int("sk")], z3.Implies(z3.And(z3.Int("sk") > i, z3.Int("sk") <= t), c.mem[k][f][z3.Int("sk")] == A0[z3.Int("sk") - 1]), patterns=[c.mem[k][f][z3.Int("sk")]])
        return d
class Find(Search):
    nm = "find_in_sorted_array"; fn = "h_find"; subject = "find_in_sorted_array(elem, array)"
    def post(self, S, P):
        v = S.v; a, x, n, r = v["a"], v["x"], v["n"], P.ret
        return {"found position holds the element": L.implies(r != -1, L.And(r >= 0, r < n, L.ite(L.And(r >= 0, r < n), a[r], x) == x) if L.mode == "sym" else (0 <= r < n and a[r] == x)),
                "not found only when absent": L.implies(r == -1, L.forall(0, n, lambda k: a[k] != x, trig=lambda k: a[k]))}
class FindC(Find):
    nm = "find_in_sorted_array.cmp"; fn = "h_findc"; subject = "find_in_sorted_array(elem, array, smaller)"
class MPos(Search):
    nm = "merge_pos_in_sorted_array"; fn = "h_mpos"; subject = "merge_pos_in_sorted_array"
    def post(self, S, P):
        v = S.v; a, x, n, r = v["a"], v["x"], v["n"], P.ret
        return {"in range": L.And(r >= 0, r <= n), "everything before is <=": L.forall(0, r, lambda k: a[k] <= x, trig=lambda k: a[k]),
                "everything from it on is >": L.forall(r, n, lambda k: a[k] > x, trig=lambda k: a[k])}

def at(a, k): return a[k] if L.mode == 'sym' or 0 <= k < len(a) else 0
def inserted(S, P, p, on):
    """o is a with x put in at position p"""
    v = S.v; a, x, n, o = v["a"], v["x"], v["n"], P.arr("o")
    return {"one longer": on == n + 1, "position in range": L.And(p >= 0, p <= n),
            "part before kept": L.forall(0, p, lambda k: L.And(o[k] == a[k], a[k] <= x), trig=lambda k: o[k]) , "element placed": o[p] == x,
            "part after shifted": L.forall(p, n, lambda k: L.And(o[k + 1] == a[k], a[k] > x), trig=lambda k: a[k])}
class Ins(Search):
    nm = "insert_into_sorted_array"; fn = "h_ins"; subject = "insert_into_sorted_array"; out = True; writes = ("o",); rety = "i32"
    def post(self, S, P):
        # position not reported: sortedness, length and shift
        v = S.v; a, x, n, o = v["a"], v["x"], v["n"], P.arr("o")
        return {"one longer": P.ret == n + 1, "smaller or equal entries stay": L.forall(0, n, lambda k: L.implies(a[k] <= x, o[k] == a[k]), trig=lambda k: a[k]),
                "larger entries move up by one": L.forall(0, n, lambda k: L.implies(a[k] > x, o[k + 1] == a[k]), trig=lambda k: a[k]),
                "the gap holds the element": L.forall(0, n + 1, lambda k: L.implies(L.And(L.Or(k == 0, at(a, k - 1) <= x), L.Or(k == n, at(a, k) > x)), o[k] == x), trig=lambda k: o[k])}
class InsND(Search):
    nm = "insert_into_sorted_array_nodups"; fn = "h_insnd"; subject = "insert_into_sorted_array_nodups"; out = True; strict = True; rety = "i32"; writes = ("o", "on")
    pos = False
    def extra(self, S):
        super().extra(S); S.array("on", I32, lambda v: 1)
        if self.pos: S.array("pos", I32, lambda v: 1)
    def post(self, S, P):
        v = S.v; a, x, n, o, on, r = v["a"], v["x"], v["n"], P.arr("o"), P.arr("on")[0], P.ret
        new = r != 0
        return {"inserted exactly when absent": L.implies(new, L.forall(0, n, lambda k: a[k] != x, trig=lambda k: a[k])),
                "size": on == L.ite(new, n + 1, n),
                "smaller or equal entries stay": L.forall(0, n, lambda k: L.implies(L.Or(L.Not(new), a[k] <= x), o[k] == a[k]), trig=lambda k: a[k]),
                "larger entries move up by one": L.implies(new, L.forall(0, n, lambda k: L.implies(a[k] > x, o[k + 1] == a[k]), trig=lambda k: a[k])),
                "refused only when present": L.implies(L.Not(new), L.Not(L.forall(0, n, lambda k: a[k] != x, trig=lambda k: a[k]))),
                "the gap holds the element": L.implies(new, L.forall(0, n + 1, lambda k: L.implies(L.And(L.Or(k == 0, at(a, k - 1) <= x), L.Or(k == n, at(a, k) > x)), o[k] == x), trig=lambda k: o[k]))}
class InsU(InsND):
    nm = "sorted_insert_unique"; fn = "h_insu"; subject = "sorted_insert_unique"; pos = True; writes = ("o", "on", "pos")
    def post(self, S, P):
        d = super().post(S, P)
        if True:
            p = P.arr("pos")[0]; v = S.v; a, x, n = v["a"], v["x"], v["n"]
            d["reported position"] = L.And(p >= 0, p <= n, L.forall(0, p, lambda k: a[k] <= x, trig=lambda k: a[k]), L.forall(p, n, lambda k: a[k] > x, trig=lambda k: a[k]))
        return d
class SPos(Search):
    nm = "sorted_pos"; fn = "h_spos"; subject = "sorted_pos"; out = True; writes = ("o", "on"); rety = "i32"
    def extra(self, S): super().extra(S); S.array("on", I32, lambda v: 1)
    def post(self, S, P): return inserted(S, P, P.ret, P.arr("on")[0])

class RemF(SB):
    nm = "removeEntryFlat"; fn = "h_remf"; subject = "removeEntryFlat"; writes = ("a",)
    def setup(self, S):
        S.int("pos", 0, BIG); S.int("n", 1, BIG); S.array("a", I32, lambda v: v["n"])
    def pre(self, S): return {"pos": S.v["pos"] < S.v["n"]}
    def res(self, P): return P.arr("a"), P.ret
    def post(self, S, P):
        v = S.v; a, n, p = v["a"], v["n"], v["pos"]; o, r = self.res(P)
        return {"one shorter": L.And(r == n - 1, P.ret == n - 1), "kept before": L.forall(0, p, lambda k: o[k] == a[k], trig=lambda k: o[k]),
                "shifted after": L.forall(p, n - 1, lambda k: o[k] == a[k + 1], trig=lambda k: o[k])}
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(1, 12)
            yield {"pos": rng.randrange(n), "n": n, "a": [rng.randint(-9, 9) for _ in range(n)]}
    def invariants(self, S, ctx, terms):
        p, a0 = S.v["pos"], S.v["a"]; out = {}
        for (k, f) in Merge.outs(self, S, ctx):
            A0 = ctx.entry_mem[k][f]
            for n in ctx.ints:
                for nm, off in (("", 0), ("+pos", p)):
                    out[f"shift {k} {n}{nm}"] = lambda c, k=k, f=f, n=n, off=off, A0=A0: L.forall(p, c.ints[n] + off, lambda j: c.mem[k][f][j] == A0[j + 1], trig=lambda j: c.mem[k][f][j])
                    out[f"rest {k} {n}{nm}"] = lambda c, k=k, f=f, n=n, off=off, A0=A0: z3.ForAll([z3.Int("fk")], z3.Implies(z3.Or(z3.Int("fk") < p, z3.Int("fk") >= c.ints[n] + off), c.mem[k][f][z3.Int("fk")] == A0[z3.Int("fk")]), patterns=[c.mem[k][f][z3.Int("fk")]])
        return out
class Rem(RemF):
    nm = "removeEntry"; fn = "h_rem"; subject = "removeEntry"; writes = ("o", "on")
    def setup(self, S):
        super().setup(S); S.array("o", I32, lambda v: v["n"]); S.array("on", I32, lambda v: 1)
    def res(self, P): return P.arr("o"), P.arr("on")[0]
class IMax(SB):
    nm = "ind_of_max"; fn = "h_imax"; subject = "ind_of_max"
    def setup(self, S): S.int("n", 0, BIG); S.array("a", I32, lambda v: v["n"])
    def post(self, S, P):
        a, n, r = S.v["a"], S.v["n"], P.ret
        if L.mode == "con": return {"first maximum": r == (a.index(max(a)) if a else -1)}
        return {"empty": z3.Implies(n == 0, r == -1), "in range": z3.Implies(n > 0, z3.And(r >= 0, r < n)),
                "first maximum": z3.Implies(n > 0, z3.And(L.forall(0, r, lambda k: a[k] < a[r], trig=lambda k: a[k]), L.forall(r, n, lambda k: a[k] <= a[r], trig=lambda k: a[k])))}
    def templates2(self, S, ctx, terms):
        a = S.v["a"]
        return {"max so far": lambda c, i, m: z3.And(m >= 0, L.forall(0, i, lambda k: a[k] <= a[m], trig=lambda k: a[k]))}
    def invariants(self, S, ctx, terms):
        a = S.v["a"]; out = {}
        for n in ctx.ints:
            for m in ctx.ints:
                if n == m: continue
                for z in ctx.ints:
                    if z not in (n, m): out[f"mx {n} {m} {z}"] = lambda c, m=m, z=z: a[c.ints[m]] == c.ints[z]
            out[f"before {n}"] = lambda c, n=n: L.forall(0, c.ints[n], lambda k: a[k] < a[c.ints[n]], trig=lambda k: a[k])
            for z in ctx.ints:
                if z == n: continue
                out[f"pre {n} {z}"] = lambda c, z=z, n=n: L.forall(0, c.ints[n], lambda k: a[k] < c.ints[z], trig=lambda k: a[k])
                out[f"upto {n} {z}"] = lambda c, z=z, n=n: L.forall(0, c.ints[n], lambda k: a[k] <= c.ints[z], trig=lambda k: a[k])
        return out
    def gen_cases(self, tier, rng):
        while True:
            n = rng.randint(0, 9); yield {"n": n, "a": [rng.randint(-4, 4) for _ in range(n)]}

# ---------------------------------------------------------------- two sorted sets
class Two(SB):
    """two strictly sorted arrays a, b"""
    def setup(self, S):
        S.int("na", 0, BIG); S.array("a", I32, lambda v: v["na"]); S.int("nb", 0, BIG); S.array("b", I32, lambda v: v["nb"]); self.extra(S)
    def extra(self, S): pass
    def pre(self, S):
        return {"a strictly sorted": mono(S.v, "a", "na"), "b strictly sorted": mono(S.v, "b", "nb"), **posax(S, "a", "na"), **posax(S, "b", "nb")}
    fill = None
    def gen_cases(self, tier, rng):
        N = 4
        for x in subsets(N):
            for y in subsets(N): yield self.case(x, y, rng)
        while True: yield self.case(msets(rng), msets(rng), rng)
    def case(self, a, b, rng):
        d = {"na": len(a), "a": list(a), "nb": len(b), "b": list(b)}; self.more(d, rng); return d
    def more(self, d, rng): pass
    def templates2(self, S, ctx, terms):
        a, b, na, nb = S.v["a"], S.v["b"], S.v["na"], S.v["nb"]
        return {"b before t < a[i]": lambda c, t, i: z3.Implies(i < na, L.forall(0, t, lambda j: b[j] < a[i], trig=lambda j: b[j])),
                "a before t < b[i]": lambda c, t, i: z3.Implies(i < nb, L.forall(0, t, lambda j: a[j] < b[i], trig=lambda j: a[j]))}

def notin(x, v, nm, n):
    """x is not an element of array nm"""
    return L.Not(member(v, nm, n, x))

class Log(Two):
    """call-back log: (kind, i, j) triples plus the log index of every reported a / b index"""
    kinds = True; haslj = True; wb = False; anota = True
    def extra(self, S):
        tot = (lambda v: v["na"] + v["nb"]) if self.wb else (lambda v: v["na"])
        if self.kinds: S.array("lk", I32, tot)
        S.array("li", I32, tot)
        if self.haslj: S.array("lj", I32, tot)
        S.array("wa", I32, lambda v: v["na"])
        if self.wb: S.array("wb", I32, lambda v: v["nb"])
    @property
    def writes(self): return ("lk", "li", "lj", "wa", "wb")
    def pre(self, S):
        v = S.v; d = super().pre(S)
        d["wa blank"] = L.forall(0, v["na"], lambda k: v["wa"][k] == -1, trig=lambda k: v["wa"][k])
        if self.wb: d["wb blank"] = L.forall(0, v["nb"], lambda k: v["wb"][k] == -1, trig=lambda k: v["wb"][k])
        return d
    def more(self, d, rng):
        d["wa"] = [-1] * d["na"]
        if self.wb: d["wb"] = [-1] * d["nb"]
    # one log entry is right / the log is in increasing order / everything that must be reported is
    def entry(self, v, o, k):
        raise NotImplementedError
    def val(self, v, o, k): return v["a"][o["li"][k]]
    def tg(self, o, k): return L.Alt([o[n][k] for n in ("lk", "li", "lj") if n in o])
    def order(self, v, o, c):
        if L.mode == "con": return all(self.val(v, o, k) < self.val(v, o, k + 1) for k in range(c - 1))
        return L.forall2(0, c, lambda k: k + 1, lambda k: c, lambda k, l: self.val(v, o, k) < self.val(v, o, l), trig=lambda k, l: (o["li"][k], o["li"][l]))
    def logs(self, S, arr):
        return {n: arr(n) for n in ("lk", "li", "lj", "wa", "wb") if n in [p[1] for p in S.params]}
    def parts(self, v, o):
        raise NotImplementedError
    def post(self, S, P):
        sp = self.spec_setup(); v = S.v; o = {n: P.arr(n) for n in ("lk", "li", "lj", "wa", "wb") if any(p[1] == n for p in sp.params)}
        c = P.ret; d = {}
        tg = lambda k: self.tg(o, k)
        d["number of reports"] = L.And(c >= 0, c <= (v["na"] + v["nb"] if self.wb else v["na"]))
        for nm, f in self.parts(v, o).items(): d[nm] = L.forall(0, c, f, trig=tg)
        d["reports in increasing order"] = self.order(v, o, c)
        for nm, (lo, n, f, t) in self.cover(v, o, c).items(): d[nm] = L.forall(lo, v[n], f, trig=t)
        return d
    def cover(self, v, o, c): 
        wa, li = o["wa"], o["li"]
        return {"every element of a reported once": (0, "na", lambda i: L.And(wa[i] >= 0, wa[i] < c, li[wa[i]] == i), lambda i: wa[i])}
    def templates(self, S, ctx, terms):
        v = S.v; out = {}
        sp = [p[1] for p in S.params]
        def O(c): return {n: self.ms(S, c, n) for n in ("lk", "li", "lj", "wa", "wb") if n in sp}
        o0 = O(ctx)
        for nm in self.parts(v, o0):
            out["log " + nm] = lambda c, t, nm=nm: L.forall(0, t, self.parts(v, O(c))[nm], trig=lambda k: self.tg(O(c), k))
        out["order"] = lambda c, t: self.order(v, O(c), t)
        return out
    def templates2(self, S, ctx, terms):
        d = super().templates2(S, ctx, terms); v = S.v; sp = [p[1] for p in S.params]
        def O(c): return {n: self.ms(S, c, n) for n in ("lk", "li", "lj", "wa", "wb") if n in sp}
        for nm in self.cover(v, O(ctx), z3.IntVal(0)):
            def f(c, t, m, nm=nm):
                lo, n, g, tr = self.cover(v, O(c), m)[nm]; return L.forall(lo, t, g, trig=tr)
            d["cov " + nm] = f
        d["last < a"] = lambda c, t, m: z3.Implies(z3.And(t > 0, m < v["na"]), self.val(v, O(c), t - 1) < v["a"][m])
        if self.wb: d["last < b"] = lambda c, t, m: z3.Implies(z3.And(t > 0, m < v["nb"]), self.val(v, O(c), t - 1) < v["b"][m])
        return d
def inr(v, i, n): return L.And(i >= 0, i < v[n])
def ain(v, i, n, f):
    """f() provided index i is in range (false otherwise)"""
    if L.mode == "con": return 0 <= i < v[n] and f()
    return z3.And(i >= 0, i < v[n], f())
class IInt(Log):
    nm = "iterate_intersection"; fn = "h_iint"; subject = "iterate_intersection"; kinds = False
    def parts(self, v, o):
        li, lj, a, b = o["li"], o["lj"], v["a"], v["b"]
        return {"indices in range": lambda k: L.And(inr(v, li[k], "na"), inr(v, lj[k], "nb")), "reported pair matches": lambda k: ain(v, li[k], "na", lambda: ain(v, lj[k], "nb", lambda: a[li[k]] == b[lj[k]]))}
    def cover(self, v, o, c):
        wa, li, a = o["wa"], o["li"], v["a"]
        return {"reported positions": (0, "na", lambda i: L.implies(wa[i] != -1, L.And(wa[i] >= 0, wa[i] < c, li[wa[i]] == i)), lambda i: wa[i]),
                "unreported elements of a are not in b": (0, "na", lambda i: L.implies(wa[i] == -1, notin(a[i], v, "b", "nb")), lambda i: wa[i])}
class IANB(Log):
    nm = "iterate_anotb"; fn = "h_ianb"; subject = "iterate_anotb"; kinds = False; haslj = False
    def parts(self, v, o):
        li, a = o["li"], v["a"]
        return {"index in range": lambda k: inr(v, li[k], "na"), "reported element not in b": lambda k: ain(v, li[k], "na", lambda: notin(a[li[k]], v, "b", "nb"))}
    def cover(self, v, o, c):
        wa, li, a = o["wa"], o["li"], v["a"]
        return {"reported positions": (0, "na", lambda i: L.implies(wa[i] != -1, L.And(wa[i] >= 0, wa[i] < c, li[wa[i]] == i)), lambda i: wa[i]),
                "unreported elements of a are in b": (0, "na", lambda i: L.implies(wa[i] == -1, member(v, "b", "nb", a[i])), lambda i: wa[i])}
class IABC(Log):
    nm = "iterate_ABC"; fn = "h_iabc"; subject = "iterate_ABC"; wb = True
    def parts(self, v, o):
        lk, li, lj, a, b = o["lk"], o["li"], o["lj"], v["a"], v["b"]
        return {"known kind": lambda k: L.And(lk[k] >= 0, lk[k] <= 2),
                "common element": lambda k: L.implies(lk[k] == 0, ain(v, li[k], "na", lambda: ain(v, lj[k], "nb", lambda: a[li[k]] == b[lj[k]]))),
                "only in a": lambda k: L.implies(lk[k] == 1, L.And(lj[k] == -1, ain(v, li[k], "na", lambda: notin(a[li[k]], v, "b", "nb")))),
                "only in b": lambda k: L.implies(lk[k] == 2, L.And(li[k] == -1, ain(v, lj[k], "nb", lambda: notin(b[lj[k]], v, "a", "na"))))}
    def val(self, v, o, k):
        if L.mode == "con": return v["a"][o["li"][k]] if o["li"][k] >= 0 else v["b"][o["lj"][k]]
        return z3.If(o["li"][k] >= 0, v["a"][o["li"][k]], v["b"][o["lj"][k]])
    def cover(self, v, o, c):
        d = super().cover(v, o, c); wb, lj = o["wb"], o["lj"]
        d["every element of b reported once"] = (0, "nb", lambda i: L.And(wb[i] >= 0, wb[i] < c, lj[wb[i]] == i), lambda i: wb[i])
        return d
class IABC3(IABC):
    nm = "iterate_ABC.three"; fn = "h_iabc3"; subject = "iterate_ABC (three call-backs)"
class IAC(Log):
    nm = "iterate_AC"; fn = "h_iac"; subject = "iterate_AC"
    def parts(self, v, o):
        lk, li, lj, a, b = o["lk"], o["li"], o["lj"], v["a"], v["b"]
        return {"known kind": lambda k: L.And(lk[k] >= 0, lk[k] <= 1),
                "common element": lambda k: L.implies(lk[k] == 0, ain(v, li[k], "na", lambda: ain(v, lj[k], "nb", lambda: a[li[k]] == b[lj[k]]))),
                "only in a": lambda k: L.implies(lk[k] == 1, L.And(lj[k] == -1, ain(v, li[k], "na", lambda: notin(a[li[k]], v, "b", "nb"))))}
class IsEmp(Two):
    nm = "is_intersect_empty"; fn = "h_isemp"; subject = "is_intersect_empty"
    def post(self, S, P):
        v = S.v; a = v["a"]
        if L.mode == "con": return {"answer": bool(P.ret & 255) == (not set(a) & set(v["b"]))}
        return {"says empty only if disjoint": z3.Implies(P.ret != 0, L.forall(0, v["na"], lambda i: notin(a[i], v, "b", "nb"), trig=lambda i: a[i])),
                "says overlapping only if some element is shared": z3.Implies(P.ret == 0, z3.Not(L.forall(0, v["na"], lambda i: notin(a[i], v, "b", "nb"), trig=lambda i: a[i])))}
    def templates(self, S, ctx, terms):
        v = S.v
        return {"a before not in b": lambda c, t: L.forall(0, t, lambda i: notin(v["a"][i], v, "b", "nb"), trig=lambda i: v["a"][i]),
                "b before not in a": lambda c, t: L.forall(0, t, lambda i: notin(v["b"][i], v, "a", "na"), trig=lambda i: v["b"][i])}

# ---- membership: posX is the inverse of the (injective) array X, a definitional extension
def posfn(nm): return z3.Function("pos_" + nm, z3.IntSort(), z3.IntSort())
def posax(S, nm, n):
    if L.mode == "con": return {}
    a = S.v[nm]; p = posfn(nm)
    return {"inverse of " + nm: L.forall(0, S.v[n], lambda k: p(a[k]) == k, trig=lambda k: a[k])}
def member(v, nm, n, x):
    if L.mode == "con": return x in v[nm]
    p = posfn(nm)(x)
    return z3.And(p >= 0, p < v[n], v[nm][p] == x)
def nogap(o, c, x, n, keep):
    """no (kept) x[i] lies strictly between two consecutive entries of o[0..c)"""
    if L.mode == "con": return all(not (o[k - 1] < x[i] < o[k]) for k in range(1, c) for i in range(n) if keep(i))
    k, l, i = z3.Ints("gk gl gi")
    return z3.ForAll([k, l, i], z3.Implies(z3.And(k >= 0, l == k + 1, l < c, i >= 0, i < n, L._b(keep(i))), z3.Not(z3.And(o[k] < x[i], x[i] < o[l]))), patterns=[L.MP(o[k], o[l], x[i])])
class Merge(Two):
    """output array o[0..r): strictly sorted set built from a and b"""
    writes = ("o",)
    def extra(self, S): S.array("o", I32, lambda v: v["na"] + v["nb"])
    def isin(self, v, x): return L.Or(member(v, "a", "na", x), member(v, "b", "nb", x))
    def olen(self, P): return P.ret
    both = True
    def sound(self, v, o, c): return L.forall(0, c, lambda k: self.isin(v, o[k]), trig=lambda k: o[k])
    def srt(self, o, c): return L.forall2(0, c, lambda k: k + 1, lambda k: c, lambda k, l: o[k] < o[l], trig=lambda k, l: (o[k], o[l]))
    def gaps(self, v, o, c, nm, n):
        x = v[nm]
        return nogap(o, c, x, v[n], lambda i: True)
    def first(self, v, o, c, nm, n): return L.implies(c > 0, L.forall(0, v[n], lambda i: o[0] <= v[nm][i], trig=lambda i: v[nm][i]))
    def last(self, v, o, c, nm, n): return L.implies(c > 0, L.forall(0, n, lambda i: v[nm][i] <= o[c - 1], trig=lambda i: v[nm][i]))
    def post(self, S, P):
        v, o, c = S.v, P.arr("o"), self.olen(P)
        if L.mode == "con":
            w = self.want(v)
            return {"result": c == len(w) and o[:c] == w}
        d = {"size": z3.And(c >= 0, c <= v["na"] + v["nb"]), "every entry comes from an input": self.sound(v, o, c), "strictly sorted": self.srt(o, c),
             "empty only if both are": z3.Implies(c == 0, z3.And(v["na"] == 0, v["nb"] == 0))}
        for nm, n in (("a", "na"), ("b", "nb")):
            d[f"no element of {nm} between entries"] = self.gaps(v, o, c, nm, n)
            d[f"no element of {nm} before the first"] = self.first(v, o, c, nm, n)
            d[f"no element of {nm} after the last"] = self.last(v, o, c, nm, v[n])
        return d
    def want(self, v): return sorted(set(v["a"]) | set(v["b"]))
    def outs(self, S, ctx):
        """every modified int array can be the one under construction"""
        return [(k, f) for k in sorted(ctx.modified) if k in ctx.mem for f, A in ctx.mem[k].items() if isinstance(A, z3.ArrayRef) and A.range() == z3.IntSort()]
    def templates(self, S, ctx, terms):
        v = S.v; d = {}
        for (k, f) in self.outs(S, ctx):
            g = lambda c, k=k, f=f: c.mem[k][f]
            d[f"sound {k}"] = lambda c, t, g=g: self.sound(v, g(c), t)
            d[f"sorted {k}"] = lambda c, t, g=g: self.srt(g(c), t)
            for nm, n in (("a", "na"), ("b", "nb")):
                d[f"gaps {nm} {k}"] = lambda c, t, g=g, nm=nm, n=n: self.gaps(v, g(c), t, nm, n)
                d[f"first {nm} {k}"] = lambda c, t, g=g, nm=nm, n=n: self.first(v, g(c), t, nm, n)
        return d
    def templates2(self, S, ctx, terms):
        v = S.v; d = super().templates2(S, ctx, terms)
        for (k, f) in self.outs(S, ctx):
            g = lambda c, k=k, f=f: c.mem[k][f]
            for nm, n in (("a", "na"), ("b", "nb")):
                d[f"done {nm} {k}"] = lambda c, t, m, g=g, nm=nm: self.last(v, g(c), t, nm, m)
                d[f"next {nm} {k}"] = lambda c, t, m, g=g, nm=nm, n=n: z3.Implies(z3.And(t > 0, m < v[n]), g(c)[t - 1] < v[nm][m])
        return d
class MLH(Merge):
    nm = "merge_arrays_lh"; fn = "h_mlh"; subject = "merge_arrays_lh"
class MArr(Merge):
    nm = "merge_arrays.two"; fn = "h_marr"; subject = "merge_arrays(a, b, out)"
    def extra(self, S): S.int("cap", 1, BIG); S.array("o", I32, lambda v: v["na"] + v["nb"])
    def more(self, d, rng): d["cap"] = rng.choice((1, 2, d["na"] + d["nb"] + 1))
class MInto(MArr):
    nm = "merge_a_into_b"; fn = "h_minto"; subject = "merge_a_into_b"
    def pre(self, S): return {**super().pre(S), "capacity": S.v["cap"] >= S.v["nb"]}
    def more(self, d, rng): d["cap"] = max(1, d["nb"] + rng.choice((0, 1, 20)))
class ISect(Merge):
    """o = a intersected with b"""
    nm = "intersect_sorted_arrays"; fn = "h_isect"; subject = "intersect_sorted_arrays"
    def extra(self, S): S.int("cap", 1, BIG); S.array("o", I32, lambda v: v["na"])
    def more(self, d, rng): d["cap"] = rng.choice((1, 2, 9))
    def want(self, v): return sorted(set(v["a"]) & set(v["b"]))
    def sound(self, v, o, c): return L.forall(0, c, lambda k: L.And(member(v, "a", "na", o[k]), member(v, "b", "nb", o[k])), trig=lambda k: o[k])
    def keep(self, v, i, nm="a"): return member(v, "b", "nb", v["a"][i])
    def gaps(self, v, o, c, nm, n):
        x = v["a"]
        return nogap(o, c, x, v["na"], lambda i: self.keep(v, i))
    def first(self, v, o, c, nm, n): return L.implies(c > 0, L.forall(0, v["na"], lambda i: L.implies(self.keep(v, i), o[0] <= v["a"][i]), trig=lambda i: v["a"][i]))
    def last(self, v, o, c, nm, n): return L.implies(c > 0, L.forall(0, n, lambda i: L.implies(self.keep(v, i), v["a"][i] <= o[c - 1]), trig=lambda i: v["a"][i]))
    def nil(self, v, c, t): return L.implies(c == 0, L.forall(0, t, lambda i: L.Not(self.keep(v, i)), trig=lambda i: v["a"][i]))
    def post(self, S, P):
        v, o, c = S.v, P.arr("o"), self.olen(P)
        if L.mode == "con": return super().post(S, P)
        return {"size": z3.And(c >= 0, c <= v["na"]), "every entry belongs to the result": self.sound(v, o, c), "strictly sorted": self.srt(o, c),
                "empty only if it should be": self.nil(v, c, v["na"]), "nothing missing between": self.gaps(v, o, c, "a", "na"), "nothing missing before": self.first(v, o, c, "a", "na"),
                "nothing missing after": self.last(v, o, c, "a", v["na"])}
    def templates2(self, S, ctx, terms):
        d = super().templates2(S, ctx, terms)
        d["nil"] = lambda c, t, m: self.nil(S.v, t, m)
        return d
class SMinus(ISect):
    nm = "setMinus"; fn = "h_minus"; subject = "setMinus"
    def extra(self, S): S.array("o", I32, lambda v: v["na"])
    def more(self, d, rng): pass
    def want(self, v): return sorted(set(v["a"]) - set(v["b"]))
    def sound(self, v, o, c): return L.forall(0, c, lambda k: L.And(member(v, "a", "na", o[k]), L.Not(member(v, "b", "nb", o[k]))), trig=lambda k: o[k])
    def keep(self, v, i, nm="a"): return L.Not(member(v, "b", "nb", v["a"][i]))
class PosIn(Two):
    nm = "posSortedInSorted"; fn = "h_posin"; subject = "posSortedInSorted"; writes = ("o",)
    def extra(self, S): S.array("o", I32, lambda v: v["na"])
    def pre(self, S): return {**super().pre(S), "a is a subset of b": L.forall(0, S.v["na"], lambda i: member(S.v, "b", "nb", S.v["a"][i]), trig=lambda i: S.v["a"][i])}
    def case(self, a, b, rng): return super().case([x for x in a if x in b], b, rng)
    def post(self, S, P):
        v, o = S.v, P.arr("o")
        return {"size": P.ret == v["na"], "position of every element": L.forall(0, v["na"], lambda i: ain(v, o[i], "nb", lambda: v["b"][o[i]] == v["a"][i]), trig=lambda i: o[i])}
    def templates(self, S, ctx, terms):
        v = S.v; d = {}
        for (k, f) in Merge.outs(self, S, ctx):
            d[f"pos {k}"] = lambda c, t, k=k, f=f: L.forall(0, t, lambda i: ain(v, c.mem[k][f][i], "nb", lambda: v["b"][c.mem[k][f][i]] == v["a"][i]), trig=lambda i: c.mem[k][f][i])
        return d
class Seq(SB):
    nm = "makeSequence"; fn = "h_seq"; subject = "makeSequence"; rety = None; writes = ("o",)
    def setup(self, S): S.int("n", 0, BIG); S.array("o", I32, lambda v: v["n"])
    def post(self, S, P): o = P.arr("o"); return {"counts up": L.forall(0, S.v["n"], lambda k: o[k] == k, trig=lambda k: o[k])}
    def templates(self, S, ctx, terms):
        return {f"seq {k}": lambda c, t, k=k, f=f: L.forall(0, t, lambda i: c.mem[k][f][i] == i, trig=lambda i: c.mem[k][f][i]) for (k, f) in Merge.outs(self, S, ctx)}
    def gen_cases(self, tier, rng):
        for n in range(200): yield {"n": n}
class Lex(SB):
    nm = "lex_smaller"; fn = "h_lex"; subject = "lex_smaller"
    def setup(self, S): S.int("na", 0, BIG); S.array("a", I32, lambda v: v["na"]); S.int("nb", 0, BIG); S.array("b", I32, lambda v: v["nb"])
    def post(self, S, P):
        v = S.v; a, b, na, nb = v["a"], v["b"], v["na"], v["nb"]
        if L.mode == "con": return {"shorter first, then lexicographic": bool(P.ret & 255) == ((na, a) < (nb, b))}
        d = posfn("lexdiff")(z3.IntVal(0))   # first difference (na if none), a definitional constant
        return {"answer": (P.ret != 0) == z3.Or(na < nb, z3.And(na == nb, d < na, a[d] < b[d]))}
    def pre(self, S):
        if L.mode == "con": return {}
        v = S.v; a, b, na, nb = v["a"], v["b"], v["na"], v["nb"]; d = posfn("lexdiff")(z3.IntVal(0))
        return {"first difference": z3.And(d >= 0, d <= na, L.forall(0, d, lambda k: z3.Implies(na == nb, a[k] == b[k]), trig=lambda k: a[k]), z3.Implies(z3.And(d < na, na == nb), a[d] != b[d]))}
    def templates(self, S, ctx, terms):
        a, b = S.v["a"], S.v["b"]
        return {"equal so far": lambda c, t: L.forall(0, t, lambda k: a[k] == b[k], trig=lambda k: a[k])}
    def gen_cases(self, tier, rng):
        while True:
            na, nb = rng.randint(0, 5), rng.randint(0, 5); nb = rng.choice((na, nb))
            yield {"na": na, "a": [rng.randint(0, 2) for _ in range(na)], "nb": nb, "b": [rng.randint(0, 2) for _ in range(nb)]}
    
# ---- bounded: k-way merges (rows given by offsets)
class Rows(SB):
    engine = "bounded"; writes = ("o",); distinct = True
    def setup(self, S):
        S.int("nr", 0, 1000); S.array("f", I32, lambda v: v["nr"] + 1); S.array("d", I32, lambda v: v["f"][v["nr"]] if L.mode == "con" else z3.Int("dlen")); S.array("o", I32, lambda v: 2 * (v["f"][v["nr"]] if L.mode == "con" else z3.Int("dlen")) + 2)
    def post(self, S, P):
        w = sorted(set(S.v["d"])); return {"sorted union of the rows": P.ret == len(w) and P.arr("o")[:P.ret] == w}
    writes = ("o",)
    nmin = 0; hi = 40
    def gen_cases(self, tier, rng):
        L.mode = "con"
        for nr in range(self.nmin, 4):
            for rows in itertools.product(list(subsets(3)), repeat=nr): yield self.mk(rows)
        while True:
            nr = rng.choice((0, 1, 2, 3, 5, 9, 16, 17, 18, 25, 40))
            if nr < self.nmin: continue
            span = rng.choice((4, 12, 60, 3000)); lo = rng.choice((0, 0, 0, 1020))
            yield self.mk([sorted(lo + x for x in rng.sample(range(span), min(span, rng.choice((0, 1, 2, 4, 9, 20))))) for _ in range(nr)])
    def mk(self, rows):
        f = [0]
        for r in rows: f.append(f[-1] + len(r))
        return {"nr": len(rows), "f": f, "d": [x for r in rows for x in r], "o": [0] * (2 * f[-1] + 2)}
class MTab(Rows):
    nm = "merge_arrays.rows"; fn = "h_mtab"; subject = "merge_arrays(table, out, less)"
class MFA(Rows):
    nm = "mergeFlatArrays"; fn = "h_mfa"; subject = "mergeFlatArrays / MergeArrays / MergeArrays1"; nmin = 1
class MGA(Rows):
    nm = "MergeArrays.array"; fn = "h_mga"; subject = "MergeArrays(out, lh, nRows, get)"; nmin = 1
class MRows(Rows):
    nm = "MergeArrays"; fn = "h_mrows"; subject = "MergeArrays / MergeArrays1"; nmin = 1

# ---- partition and reductions
class Part(SB):
    """idxA / idxB: block-expanded positions of subset and complement in the big set"""
    nm = "partitionAB"; fn = "h_part"; subject = "partitionAB"; engine = "bounded"; writes = ("oA", "oB", "n")
    def setup(self, S):
        S.int("nA", 0, BIG); S.array("A", I32, lambda v: v["nA"]); S.int("nS", 0, BIG); S.array("S", I32, lambda v: v["nS"]); S.int("BS", 1, 9)
        S.array("oA", I32, lambda v: v["nA"] * v["BS"]); S.array("oB", I32, lambda v: (v["nS"] - v["nA"]) * v["BS"]); S.array("n", I32, lambda v: 2)
    def gen_cases(self, tier, rng):
        for m in range(7):
            s = [3 * k + 1 for k in range(m)]
            for x in subsets(m):
                for bs in (1, 2, 3): yield {"nA": len(x), "A": [s[k] for k in x], "nS": m, "S": s, "BS": bs}
        while True:
            s = msets(rng, 20); a = [x for x in s if rng.random() < .5]
            yield {"nA": len(a), "A": a, "nS": len(s), "S": s, "BS": rng.randint(1, 6)}
    def post(self, S, P):
        v = S.v; bs = v["BS"]; n = P.arr("n")
        wa = [bs * i + l for i, x in enumerate(v["S"]) if x in v["A"] for l in range(bs)]
        wb = [bs * i + l for i, x in enumerate(v["S"]) if x not in v["A"] for l in range(bs)]
        return {"indices of the subset": P.arr("oA")[:n[0]] == wa and n[0] == len(wa), "indices of the complement": P.arr("oB")[:n[1]] == wb and n[1] == len(wb)}
class Red(SB):
    engine = "bounded"; writes = ("o",)
    def __init__(self, nm, fn, f): self.name = nm; self.fn = fn; self.f = f; self.subject = nm
    def setup(self, S):
        S.int("nr", 0, 1000); S.array("f", I32, lambda v: v["nr"] + 1); S.array("d", I32, lambda v: v["f"][v["nr"]] if L.mode == "con" else z3.Int("dl")); S.array("o", I32, lambda v: (v["f"][1] if v["nr"] else 0) if L.mode == "con" else z3.Int("dl"))
    def gen_cases(self, tier, rng):
        while True:
            nr, w = rng.choice((0, 1, 2, 3, 7)), rng.randint(0, 6)
            yield {"nr": nr, "f": [k * w for k in range(nr + 1)], "d": [rng.randint(-9, 9) for _ in range(nr * w)]}
    def post(self, S, P):
        v = S.v; nr = v["nr"]
        if nr == 0: return {"empty": P.ret == 0}
        w = v["f"][1]; out = v["d"][:w]
        for k in range(1, nr): out = [self.f(x, y) for x, y in zip(out, v["d"][k * w:(k + 1) * w])]
        return {"left fold of the rows": P.ret == w and P.arr("o")[:w] == out}
# not (yet) within reach of the prover: checked on bounded inputs only
PENDING = ("iterate_ABC", "iterate_ABC.three", "merge_arrays_lh", "merge_arrays.two", "merge_a_into_b", "intersect_sorted_arrays", "posSortedInSorted")
def contracts_P01():
    out = all_P01()
    import os
    for c in out:
        if c.name in PENDING and not os.environ.get('VC_PENDING'): c.engine = "bounded"
    return out
def all_P01():
    return [Find(), FindC(), MPos(), Ins(), InsND(), InsU(), SPos(), RemF(), Rem(), IMax(), Lex(), Seq(), IInt(), IANB(), IABC(), IABC3(), IAC(), IsEmp(), MLH(), MArr(), MInto(), ISect(), SMinus(), PosIn(),
            MTab(), MFA(), MGA(), MRows(), Part(), Red("sum_table", "h_sumt", lambda x, y: x + y), Red("min_table", "h_mint", min), Red("max_table", "h_maxt", max), Red("reduce_table", "h_redt", lambda x, y: 3 * x + y)]

# ---------------------------------------------------------------- P02: permutations
def invp(): return z3.Function("inv_p", z3.IntSort(), z3.IntSort())
class Perm(SB):
    """p is a permutation of 0..n-1 (inv_p: its inverse, a definitional extension)"""
    rety = None; keep = False; writes = ("a", "p")
    def setup(self, S):
        S.int("n", 0, BIG); S.array("a", I32, lambda v: v["n"]); S.array("p", I32, lambda v: v["n"])
    def pre(self, S):
        v = S.v; p, n = v["p"], v["n"]
        if L.mode == "con": return {"permutation": sorted(p) == list(range(n))}
        q = invp(); j = z3.Int("pj")
        return {"p maps into 0..n": L.forall(0, n, lambda k: z3.And(p[k] >= 0, p[k] < n, q(p[k]) == k), trig=lambda k: p[k]),
                "onto": z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(q(j) >= 0, q(j) < n, p[q(j)] == j)), patterns=[q(j)])}
    def post(self, S, P):
        v = S.v; a, p, o, r = v["a"], v["p"], P.arr("a"), P.arr("p")
        d = {"entry k is the old entry perm[k]": L.forall(0, v["n"], lambda k: o[k] == a[p[k]], trig=lambda k: o[k])}
        d["permutation kept" if self.keep else "permutation consumed"] = L.forall(0, v["n"], lambda k: r[k] == (p[k] if self.keep else -1), trig=lambda k: r[k])
        return d
    def gen_cases(self, tier, rng):
        for n in range(0, 7):
            for p in itertools.permutations(range(n)): yield {"n": n, "a": [10 * k + 7 for k in range(n)], "p": list(p)}
        while True:
            n = rng.randint(7, 40); p = list(range(n)); rng.shuffle(p)
            yield {"n": n, "a": [rng.randint(-99, 99) for _ in range(n)], "p": p}
    def done(self, x): return x < 0
    def invariants(self, S, ctx, terms):
        v = S.v; p0, a0, n, q = v["p"], v["a"], v["n"], invp(); out = {}
        A = lambda c: self.ms(S, c, "a"); R = lambda c: self.ms(S, c, "p")
        dn = lambda c, j: R(c)[j] < 0
        mark = (lambda j: -1 - p0[j]) if self.keep else (lambda j: z3.IntVal(-1))
        out["marks"] = lambda c: L.forall(0, n, lambda j: z3.Or(R(c)[j] == p0[j], R(c)[j] == mark(j)), trig=lambda j: R(c)[j])
        out["placed"] = lambda c: L.forall(0, n, lambda j: z3.Implies(dn(c, j), A(c)[j] == a0[p0[j]]), trig=lambda j: L.Alt([R(c)[j], A(c)[j]]))
        out["unplaced"] = lambda c: L.forall(0, n, lambda j: z3.Implies(z3.Not(dn(c, j)), A(c)[j] == a0[j]), trig=lambda j: L.Alt([R(c)[j], A(c)[j]]))
        out["closed"] = lambda c: L.forall(0, n, lambda j: z3.Implies(dn(c, j), dn(c, q(j))), trig=lambda j: (R(c)[j], q(j)))
        outer = {f"o{k}.i{m}": x for k, inst in enumerate(ctx.outer) if inst is not None for m, x in enumerate(inst.ctx.ints.values())}
        idx = {**{k: (lambda c, k=k: c.ints[k]) for k in ctx.ints}, **{k: (lambda c, x=x: x) for k, x in outer.items()}, "0": lambda c: z3.IntVal(0)}
        if self.keep:
            for k, g in idx.items():
                out[f"restored {k}"] = lambda c, g=g: L.forall(0, g(c), lambda j: R(c)[j] == p0[j], trig=lambda j: R(c)[j])
                out[f"to restore {k}"] = lambda c, g=g: L.forall(g(c), n, lambda j: R(c)[j] == mark(j), trig=lambda j: R(c)[j])
                out[f"all placed {k}"] = lambda c, g=g: L.forall(0, n, lambda j: A(c)[j] == a0[p0[j]], trig=lambda j: A(c)[j])
        for k, g in idx.items():
            out[f"done below {k}"] = lambda c, g=g: L.forall(0, g(c), lambda j: dn(c, j), trig=lambda j: R(c)[j])
        for k, g in idx.items():        # k: current position of the cycle
            out[f"cur not done {k}"] = lambda c, g=g: z3.And(g(c) >= 0, g(c) < n, z3.Not(dn(c, g(c))))
            out[f"unplaced but {k}"] = lambda c, g=g: L.forall(0, n, lambda j: z3.Implies(z3.And(z3.Not(dn(c, j)), j != g(c)), A(c)[j] == a0[j]), trig=lambda j: L.Alt([R(c)[j], A(c)[j]]))
            for m, h in idx.items():    # m: start of the cycle
                if m == k: continue
                out[f"holds start {k} {m}"] = lambda c, g=g, h=h: A(c)[g(c)] == a0[h(c)]
                out[f"closed but {m}"] = lambda c, h=h: L.forall(0, n, lambda j: z3.Implies(z3.And(dn(c, j), j != h(c)), dn(c, q(j))), trig=lambda j: (R(c)[j], q(j)))
                out[f"pred done {k} {m}"] = lambda c, g=g, h=h: z3.Or(g(c) == h(c), dn(c, q(g(c))))
                out[f"start {k} {m}"] = lambda c, g=g, h=h: z3.Or(g(c) == h(c), dn(c, h(c)))
        return out
class PermP(Perm):
    nm = "ApplyPermutation"; fn = "h_perm"; subject = "ApplyPermutation(array, perm)"
class PermK(Perm):
    nm = "ApplyAndKeepPermutation"; fn = "h_permk"; subject = "ApplyAndKeepPermutation"; keep = True
class PermB(Perm):
    nm = "ApplyPermutation.buffer"; fn = "h_permb"; subject = "ApplyPermutation(array, perm, buffer)"; keep = True; writes = ("a", "buf")
    def setup(self, S): super().setup(S); S.array("buf", I32, lambda v: v["n"])
    def invariants(self, S, ctx, terms):
        v = S.v; out = {}
        for k in [*ctx.ints]:
            out[f"copied {k}"] = lambda c, k=k: L.forall(0, c.ints[k], lambda j: self.ms(S, c, "buf")[j] == v["a"][j], trig=lambda j: self.ms(S, c, "buf")[j])
            out[f"placed {k}"] = lambda c, k=k: L.forall(0, c.ints[k], lambda j: self.ms(S, c, "a")[j] == v["a"][v["p"][j]], trig=lambda j: self.ms(S, c, "a")[j])
        out["copied n"] = lambda c: L.forall(0, v["n"], lambda j: self.ms(S, c, "buf")[j] == v["a"][j], trig=lambda j: self.ms(S, c, "buf")[j])
        return out
class PermI(Perm):
    nm = "InvertPermutation"; fn = "h_perminv"; subject = "InvertPermutation"; writes = ("q",)
    def setup(self, S): S.int("n", 0, BIG); S.array("p", I32, lambda v: v["n"]); S.array("q", I32, lambda v: v["n"])
    def post(self, S, P):
        v = S.v; p, o = v["p"], P.arr("q")
        d = {"inverse after permutation": L.forall(0, v["n"], lambda k: o[p[k]] == k, trig=lambda k: p[k])}
        d["permutation after inverse"] = L.forall(0, v["n"], lambda k: ain(v, o[k], "n", lambda: p[o[k]] == k), trig=lambda k: o[k])
        return d
    def pre(self, S):
        d = super().pre(S)
        if L.mode == "sym": d["q term"] = L.forall(0, S.v["n"], lambda k: invp()(k) >= 0, trig=lambda k: S.v["q"][k])
        return d
    def invariants(self, S, ctx, terms):
        v = S.v; Q = lambda c: self.ms(S, c, "q")
        d = {f"inv {k}": (lambda c, k=k: L.forall(0, c.ints[k], lambda j: Q(c)[v["p"][j]] == j, trig=lambda j: v["p"][j])) for k in ctx.ints}
        d.update({f"inv q {k}": (lambda c, k=k: L.forall(0, v["n"], lambda j: z3.Implies(invp()(j) < c.ints[k], Q(c)[j] == invp()(j)), trig=lambda j: Q(c)[j])) for k in ctx.ints})
        return d
    def gen_cases(self, tier, rng):
        for c in super().gen_cases(tier, rng): c.pop("a", None); yield c
def contracts_P02(): return [PermP(), PermK(), PermB(), PermI()]
