"""Exact rational functions in named real symbols: the value domain of the straight-line (unroll) engine.
An identity num == 0 is decided by normal form, so an accepted identity holds for all real inputs."""
from fractions import Fraction
import random

class P:
    """polynomial: {monomial: coeff}; monomial = sorted tuple of variable names (with repetition)"""
    __slots__ = ("d",)
    def __init__(self, d): self.d = d
    @staticmethod
    def c(x):
        x = Fraction(x)
        return P({(): x}) if x else P({})
    @staticmethod
    def v(n): return P({(n,): Fraction(1)})
    def __add__(a, b):
        if len(a.d) < len(b.d): a, b = b, a
        d = dict(a.d)
        for m, c in b.d.items():
            x = d.get(m, 0) + c
            if x: d[m] = x
            else: d.pop(m, None)
        return P(d)
    def __neg__(a): return P({m: -c for m, c in a.d.items()})
    def __sub__(a, b): return a + (-b)
    def __mul__(a, b):
        if not a.d or not b.d: return P({})
        if len(a.d) == 1 and () in a.d:
            k = a.d[()]
            return b if k == 1 else P({m: c * k for m, c in b.d.items()})
        if len(b.d) == 1 and () in b.d:
            k = b.d[()]
            return a if k == 1 else P({m: c * k for m, c in a.d.items()})
        d = {}
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                m = tuple(sorted(m1 + m2))
                x = d.get(m, 0) + c1 * c2
                if x: d[m] = x
                else: d.pop(m, None)
        if len(d) > 400000: raise OverflowError("polynomial too large")
        return P(d)
    def const(self):
        if not self.d: return Fraction(0)
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None
    def vars(self): return {v for m in self.d for v in m}
    def ev(self, env):
        t = Fraction(0) if all(isinstance(x, (int, Fraction)) for x in env.values()) else 0.0
        for m, c in self.d.items():
            x = c if isinstance(t, Fraction) else float(c)
            for v in m: x = x * env[v]
            t = t + x
        return t
    def subs(self, var, val):
        """replace var by polynomial val"""
        r = P({})
        pw = [P.c(1)]
        acc = {}
        for m, c in self.d.items():
            k = m.count(var)
            if k == 0: acc.setdefault(0, {})[m] = c
            else: acc.setdefault(k, {})[tuple(x for x in m if x != var)] = c
        for k, d in acc.items():
            while len(pw) <= k: pw.append(pw[-1] * val)
            r = r + P(d) * pw[k]
        return r
    def __str__(self):
        if not self.d: return "0"
        return " + ".join((f"{c}*" if c != 1 or not m else "") + "*".join(m) if m else str(c) for m, c in list(self.d.items())[:12]) + (" + ..." if len(self.d) > 12 else "")

ONE = P.c(1)

class R:
    """num/den; algebraic symbols (square roots) are reduced by Field.rules"""
    __slots__ = ("n", "d", "f")
    def __init__(self, n, d=ONE, f=None): self.n, self.d, self.f = n, d, f
    def _o(self, b):
        if isinstance(b, R): return b
        if isinstance(b, (int, Fraction)): return R(P.c(b), ONE, self.f)
        if isinstance(b, float): return R(P.c(Fraction(b)), ONE, self.f)
        raise TypeError(type(b))
    def __add__(a, b):
        b = a._o(b)
        if not b.n.d: return a
        if not a.n.d: return b
        if a.d.d == b.d.d: return R(a.n + b.n, a.d, a.f)
        if a.d.const() is not None: a, b = b, a
        if b.d.const() is not None:
            k = b.d.const()
            return R(a.n + a.d * b.n * P.c(1 / k), a.d, a.f)
        return R(a.n * b.d + b.n * a.d, a.d * b.d, a.f)
    __radd__ = __add__
    def __neg__(a): return R(-a.n, a.d, a.f)
    def __sub__(a, b): return a + (-a._o(b))
    def __rsub__(a, b): return a._o(b) - a
    def __mul__(a, b):
        b = a._o(b)
        if a.n.d == b.d.d and len(a.n.d) > 0 and b.d.const() is None: return R(b.n, a.d, a.f)
        if b.n.d == a.d.d and len(b.n.d) > 0 and a.d.const() is None: return R(a.n, b.d, a.f)
        r = R(a.f.red(a.n * b.n), a.d if b.d is ONE else b.d if a.d is ONE else a.f.red(a.d * b.d), a.f)
        return r._simp()
    __rmul__ = __mul__
    def _simp(r):
        if not r.n.d: return R(r.n, ONE, r.f)
        if len(r.d.d) == 1 and r.d is not ONE:
            # monomial denominator: cancel common factors
            (m, c), = r.d.d.items()
            n = r.n
            if m:
                from collections import Counter
                com = Counter(m)
                for mm in n.d:
                    com &= Counter(mm)
                    if not com: break
                if com:
                    def rm(t):
                        k = Counter(com); out = []
                        for v in t:
                            if k[v]: k[v] -= 1
                            else: out.append(v)
                        return tuple(out)
                    n = P({rm(mm): cc for mm, cc in n.d.items()}); m = rm(m)
            return R(P({mm: cc / c for mm, cc in n.d.items()}), P({m: Fraction(1)}) if m else ONE, r.f)
        if r.d.const() is None and r.n.d.keys() == r.d.d.keys():
            k = None
            for mm in r.n.d:
                q = r.n.d[mm] / r.d.d[mm]
                if k is None: k = q
                elif k != q: return r
            return R(P.c(k), ONE, r.f)
        return r
    def __truediv__(a, b):
        b = a._o(b)
        if not b.n.d: raise ZeroDivisionError
        a.f.divs.append(b.n)
        return a * R(b.d, b.n, b.f)._simp()
    def __rtruediv__(a, b): return a._o(b) / a
    def const(self):
        n, d = self.n.const(), self.d.const()
        return n / d if n is not None and d is not None else None
    def ev(self, env): return self.n.ev(env) / self.d.ev(env)
    def __str__(self): return f"({self.n})/({self.d})" if self.d is not ONE else str(self.n)

class Cond:
    """sign condition on a polynomial (value p = num*den sign-equivalent)"""
    def __init__(self, f, r, pred):
        self.f, self.r, self.pred = f, r, pred
    def negate(self):
        return Cond(self.f, self.r, {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[self.pred])
    def assume(self, ex, st, val):
        c = self if val else self.negate()
        p = c.r.n if c.r.d is ONE else c.f.red(c.r.n * c.r.d)
        k = p.const()
        S = {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "gt": {1}, "le": {-1, 0}, "ge": {0, 1}}[c.pred]
        if k is not None:
            return (0 if k == 0 else 1 if k > 0 else -1) in S
        # drop monomial factors known to be positive
        common = None
        for m in p.d:
            c_ = {}
            for v in m: c_[v] = c_.get(v, 0) + 1
            common = {v: min(k_, c_.get(v, 0)) for v, k_ in common.items()} if common is not None else c_
        common = {v: k_ for v, k_ in (common or {}).items() if k_ and v in c.f.pos}
        if common:
            nd = {}
            for m, x in p.d.items():
                l_ = list(m)
                for v, k_ in common.items():
                    for _ in range(k_): l_.remove(v)
                nd[tuple(l_)] = x
            p = P(nd)
        # canonical: leading coeff 1
        lead = p.d[min(p.d, key=lambda m: (len(m), m))]
        if lead < 0: S = {-s for s in S}
        q = P({m: x / lead for m, x in p.d.items()})
        key = tuple(sorted(q.d.items()))
        sg = dict(st.ghost.get("signs", {}))
        old = sg.get(key, ({-1, 0, 1}, q))[0]
        new = (old & S) & c.f.signs_of(q)
        if not new: return False
        sg[key] = (new, q); st.ghost["signs"] = sg
        return True

class Field:
    """the real domain handed to Exec"""
    def __init__(self):
        self.rules = {}     # symbol s -> polynomial p with s^2 == p
        self.pos = set()    # symbols known > 0
        self.divs = []
        self.n = 0
        self.frozen = {}
    def sym(self, name, positive=False):
        if positive: self.pos.add(name)
        return R(P.v(name), ONE, self)
    def const(self, d):
        if isinstance(d, float) and (d != d or d in (float("inf"), float("-inf"))):
            return self.fresh("nonfinite")
        return R(P.c(Fraction(d)), ONE, self)
    def fresh(self, n):
        self.n += 1; return self.sym(f"{n}~{self.n}")
    def toreal(self, x):
        from execu import Unsupported
        raise Unsupported("symbolic int to real")
    def toint(self, x):
        from execu import Unsupported
        c = x.const()
        if c is None: raise Unsupported("real to int")
        return int(c)
    def red(self, p):
        if not self.rules: return p
        while True:
            hit = False
            for m in p.d:
                for i in range(len(m) - 1):
                    if m[i] == m[i + 1] and m[i] in self.rules: hit = True; break
                if hit: break
            if not hit: return p
            acc = P({}); keep = {}
            for m, c in p.d.items():
                for i in range(len(m) - 1):
                    if m[i] == m[i + 1] and m[i] in self.rules:
                        acc = acc + P({m[:i] + m[i + 2:]: c}) * self.rules[m[i]]; break
                else: keep[m] = c
            p = P(keep) + acc
    def signs_of(self, p):
        if all(v in self.pos for v in p.vars()):
            cs = [c for c in p.d.values()]
            if all(c > 0 for c in cs): return {1}
            if all(c < 0 for c in cs): return {-1}
        return {-1, 0, 1}
    def sqrt(self, ex, st, x):
        c = x.const()
        if c is not None:
            import math
            a, b = math.isqrt(c.numerator) if c >= 0 else -1, math.isqrt(c.denominator)
            if a >= 0 and a * a == c.numerator and b * b == c.denominator: return self.const(Fraction(a, b))
        # perfect square monomial of positive symbols
        def root(p):
            if len(p.d) != 1: return None
            (m, c), = p.d.items()
            r = self.const(c)
            import math
            if c < 0: return None
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a != c.numerator or b * b != c.denominator: return None
            out = []
            i = 0
            while i < len(m):
                if i + 1 < len(m) and m[i] == m[i + 1] and m[i] in self.pos: out.append(m[i]); i += 2
                else: return None
            return P({tuple(out): Fraction(a, b)})
        rn, rd = root(x.n), root(x.d)
        if rn is not None and rd is not None: return R(rn, rd, self)._simp()
        k = (tuple(sorted(x.n.d.items())), tuple(sorted(x.d.d.items())))
        if k in self.frozen: return self.frozen[k]
        # s = sqrt(n*d)/d  with s'^2 = n*d
        self.n += 1
        nm = f"sqrt~{self.n}"
        self.rules[nm] = self.red(x.n * x.d)
        r = R(P.v(nm), x.d, self)
        self.frozen[k] = r
        return r
    def abs(self, x):
        from execu import Unsupported
        c = x.const()
        if c is not None: return self.const(abs(c))
        s = self.signs_of(x.n if x.d is ONE else x.n * x.d)
        if s == {1}: return x
        if s == {-1}: return -x
        # |x| = a with a^2 = x^2 (sign information is dropped: sound for identities)
        self.n += 1
        nm = f"abs~{self.n}"
        k = ("abs", tuple(sorted(x.n.d.items())), tuple(sorted(x.d.d.items())))
        if k in self.frozen: return self.frozen[k]
        self.rules[nm] = self.red(x.n * x.n)
        r = R(P.v(nm), x.d, self)
        self.frozen[k] = r
        return r
    def cmp(self, pred, a, b):
        if pred == "ord": return True
        if pred == "uno": return False
        if pred in ("true", "false"): return pred == "true"
        p = pred[1:] if len(pred) == 3 else pred
        d = a - b
        c = d.const()
        if c is not None:
            return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[p]
        return Cond(self, d, p)
    def ite(self, c, a, b):
        from execu import Unsupported
        if isinstance(c, bool): return a if c else b
        raise Unsupported("real ite")
    # ---- decision
    def zero_facts(self, st):
        return [q for S, q in st.ghost.get("signs", {}).values() if S == {0}]
    def is_zero(self, r, st=None):
        """True: identically zero (under the path's equalities)"""
        p = self.red(r.n)
        if not p.d: return True
        if st is not None:
            zs = self.zero_facts(st)
            subs = []
            for q in zs:
                for s, v in subs: q = self.red(q.subs(s, v))
                # a variable occurring linearly with constant coefficient
                for m, c in q.d.items():
                    if len(m) == 1 and sum(1 for mm in q.d if m[0] in mm) == 1 and m[0] not in self.rules:
                        rest = P({mm: -cc / c for mm, cc in q.d.items() if mm != m})
                        subs.append((m[0], rest)); break
            for s, v in subs: p = self.red(p.subs(s, v))
            if not p.d: return True
        return False
