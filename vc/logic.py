"""One specification text, two readings: z3 terms (proof) and Python values (replay on the compiled code)."""
import z3
mode = "sym"
_n = 0
def _isz(x): return isinstance(x, z3.ExprRef)
_keep = []
def MP(*ts):
    """multi-pattern (z3py does not keep the terms alive)"""
    p = z3.MultiPattern(*ts); _keep.append((ts, p)); return p
class Alt(tuple):
    """alternative triggers (any of them fires the quantifier)"""
def pats(t):
    if isinstance(t, Alt): return [p for x in t for p in pats(x)]
    if isinstance(t, (list, tuple)): return [MP(*t)]
    return [t]
def _all(ks, body, ps):
    try: return z3.ForAll(ks, body, patterns=ps)
    except z3.Z3Exception: return z3.ForAll(ks, body)      # no usable trigger (the term contains a conditional)
def forall(lo, hi, f, trig=None):
    if mode == "con": return all(f(k) for k in range(lo, hi))
    global _n; _n += 1
    k = z3.Int(f"q{_n}")
    body = z3.Implies(z3.And(lo <= k, k < hi), f(k))
    if trig is not None:
        return _all([k], body, pats(trig(k)))
    return z3.ForAll([k], body)
def forall2(lo1, hi1, lo2, hi2, f, trig=None):
    if mode == "con": return all(f(k, l) for k in range(lo1, hi1) for l in range(lo2(k) if callable(lo2) else lo2, hi2(k) if callable(hi2) else hi2))
    global _n; _n += 1
    k, l = z3.Int(f"q{_n}"), z3.Int(f"r{_n}")
    L = lo2(k) if callable(lo2) else lo2
    H = hi2(k) if callable(hi2) else hi2
    body = z3.Implies(z3.And(lo1 <= k, k < hi1, L <= l, l < H), f(k, l))
    if trig is not None: return _all([k, l], body, pats(trig(k, l)))
    return z3.ForAll([k, l], body)
def exists(lo, hi, f, trig=None):
    if mode == "con": return any(f(k) for k in range(lo, hi))
    global _n; _n += 1
    k = z3.Int(f"e{_n}")
    kw = {"patterns": [trig(k)]} if trig else {}
    return z3.Exists([k], z3.And(lo <= k, k < hi, f(k)), **kw)
def _b(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def And(*a):
    if mode == "con": return all(a)
    return z3.And(*[_b(x) for x in a])
def Or(*a):
    if mode == "con": return any(a)
    return z3.Or(*[_b(x) for x in a])
def Not(a): return (not a) if mode == "con" else z3.Not(_b(a))
def implies(a, b):
    if mode == "con": return (not a) or b
    return z3.Implies(_b(a), _b(b))
def iff(a, b):
    if mode == "con": return bool(a) == bool(b)
    return _b(a) == _b(b)
def ite(c, a, b):
    if mode == "con": return a if c else b
    return z3.If(c, a, b)
