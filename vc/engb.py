"""Deductive engine for code with loops over arrays: cut points at loop headers, candidate invariants filtered by Houdini,
every remaining obligation discharged by z3 (second opinion: cvc5)."""
import re, json, os, sys, time, multiprocessing as mp, itertools, traceback
import z3
import irparse, execu, logic as L, build, models
from execu import Exec, State, Obj, Ptr, Lin, Unsupported, InvMark, zi, ZERO
from core import ContractBase, ConS, ConP, call_native

z3.set_param("smt.auto_config", False); z3.set_param("warning", False)
I8, I32, I64, F64 = irparse.INT(8), irparse.INT(32), irparse.INT(64), irparse.DOUBLE
MAXI = 2**31 - 1

def new_state():
    st = State()
    st.env, st.mem, st.path, st.active, st.cnt, st.ghost, st.notes = {}, {}, [], [], {}, {}, None
    return st

class Setup:
    """symbolic pre-state of one harness call"""
    def __init__(self):
        self.st, self.args, self.facts, self.v, self.arr = new_state(), [], [], {}, {}
        self.params, self.lens, self.rngs = [], {}, {}
    def int(self, name, lo=None, hi=None, ty=I32):
        x = z3.Int(name); self.v[name] = x
        lo = -(2**31) if lo is None else lo
        hi = MAXI if hi is None else hi
        self.facts += [x >= lo, x <= hi]
        self.params.append(("val", name, "i64" if ty.n == 64 else "i32")); self.rngs[name] = (lo, hi)
        self.args.append(x); return x
    def const(self, name, val):
        self.v[name] = val; self.args.append(val); self.params.append(("val", name, "i32")); return val
    def boolean(self, name):
        x = z3.Bool(name); self.v[name] = x; self.params.append(("val", name, "bool")); self.args.append(x); return x
    def real(self, name):
        x = z3.Real(name); self.v[name] = x; self.args.append(x); self.params.append(("val", name, "f64")); return x
    def array(self, name, ety, length, param=True, lo=None, hi=None):
        if callable(length): self.lens[name] = length; length = length(self.v)
        if param: self.params.append(("arr", name, "f64" if ety.k == "double" else f"i{ety.n}"))
        o = Obj(name, "arr", stride={"int": ety.n // 8 if ety.k == "int" else 0, "double": 8, "ptr": 8}[ety.k], fields={0: ety}, length=length)
        sort = z3.IntSort() if ety.k == "int" else z3.RealSort()
        A = z3.Array(name, z3.IntSort(), sort)
        self.st.mem[o.key] = {0: A}
        self.arr[name] = o; self.v[name] = A
        if ety.k == "int" and ety.n == 32:
            k = z3.Int("rk_" + name)
            lo_, hi_ = -(2**31) if lo is None else lo, MAXI if hi is None else hi
            self.facts.append(z3.ForAll([k], z3.And(A[k] >= lo_, A[k] <= hi_), patterns=[A[k]]))
        if param: self.args.append(Ptr(o))
        return A
    def cells(self, name, cells, param=True, zero=False):
        o = Obj(name, "cells"); self.st.mem[o.key] = cells; o.zero = zero
        if param: self.args.append(Ptr(o))
        return o
    def records(self, name, stride, fields, length, param=True):
        """array of structs: fields {offset: (type, fieldname)}"""
        if callable(length): self.lens[name] = length; length = length(self.v)
        if param:
            t0 = next(iter(fields.values()))[0]; self.params.append(("arr", name, "f64" if t0.k == "double" else f"i{t0.n}"))
        o = Obj(name, "arr", stride=stride, fields={k: t for k, (t, _) in fields.items()}, length=length)
        d = {}
        for k, (t, fn) in fields.items():
            d[k] = z3.Array(f"{name}.{fn}", z3.IntSort(), z3.IntSort() if t.k == "int" else z3.RealSort())
            self.v[f"{name}.{fn}"] = d[k]
        self.st.mem[o.key] = d; self.arr[name] = o
        if param: self.args.append(Ptr(o))
        return d

class Post:
    def __init__(self, setup, st, ret):
        self.s, self.st, self.ret = setup, st, ret
    def arr(self, name, f=0): return self.st.mem[self.s.arr[name].key][f]

# ---------------------------------------------------------------- generic candidates
class AMap:
    """dictionary seen through renamed keys"""
    def __init__(self, d, ren): self.d, self.ren = d, ren
    def __getitem__(self, k): return self.d[self.ren.get(k, k)]
    def __contains__(self, k): return self.ren.get(k, k) in self.d
    def get(self, k, df=None): return self[k] if k in self else df
class View:
    """a loop context with register-independent names: i0, i1, .. for integers, m0, m1, .. for anonymous objects"""
    def __init__(self, c, names=None):
        if names is None:
            names = ({f"i{k}": n for k, n in enumerate(c.ints)}, {})
            anon = [k for k in sorted(c.modified) if re.search(r"\d+#|@", str(k))]
            names[1].update({f"m{j}": k for j, k in enumerate(anon)})
        self._n = names; ri, rm = names
        inv = {v: k for k, v in rm.items()}
        self.ints = {a: c.ints[n] for a, n in ri.items()}
        self.entry_ints = {a: c.entry_ints[n] for a, n in ri.items()}
        self.reals, self.bools = c.reals, c.bools
        self.mem, self.entry_mem = AMap(c.mem, rm), AMap(c.entry_mem, rm)
        self.modified = {inv.get(k, k) for k in c.modified}
        self.outer, self.header, self.st, self._c = c.outer, c.header, c.st, c

def generic_inv(contract, S):
    def inv(ex, header, ctx0):
        out = {}
        ctx = View(ctx0)
        ints = dict(ctx.ints)
        terms = {}
        for n, x in S.v.items():
            if isinstance(x, z3.ArithRef) and x.sort() == z3.IntSort(): terms[n] = x
        terms["0"] = z3.IntVal(0)
        for n, x in contract.terms(S).items(): terms[n] = x
        for oi, inst in enumerate(ctx.outer):
            if inst is None: continue
            for k, x in enumerate(inst.ctx.ints.values()): terms[f"o{oi}.i{k}"] = x
        def add(key, f): out[key] = f
        for n in ints:
            ent = ctx.entry_ints[n]
            add(f"{n}>=entry", lambda c, n=n, e=ent: c.ints[n] >= e)
            add(f"{n}<=entry", lambda c, n=n, e=ent: c.ints[n] <= e)
            for t, x in terms.items():
                add(f"{n}<={t}", lambda c, n=n, x=x: c.ints[n] <= x)
                add(f"{n}<{t}", lambda c, n=n, x=x: c.ints[n] < x)
                add(f"{n}>={t}", lambda c, n=n, x=x: c.ints[n] >= x)
            for m in ints:
                if m == n: continue
                if m > n:
                    em = ctx.entry_ints[m]
                    add(f"{n}-{m}=entry", lambda c, n=n, m=m, e=ent, em=em: c.ints[n] - e == c.ints[m] - em)
                    add(f"{n}+{m}=entry", lambda c, n=n, m=m, e=ent, em=em: c.ints[n] + c.ints[m] == e + em)
                add(f"{n}<={m}", lambda c, n=n, m=m: c.ints[n] <= c.ints[m])
        if len(ints) <= 4:
            for n in ints:
                for m, k in itertools.combinations([x for x in ints if x != n], 2):
                    add(f"{n}<={m}+{k}", lambda c, n=n, m=m, k=k: c.ints[n] <= c.ints[m] + c.ints[k])
                for m in ints:
                    if m == n: continue
                    for t, x in terms.items():
                        if t in ("0",): continue
                        add(f"{n}<={m}+{t}", lambda c, n=n, m=m, x=x: c.ints[n] <= c.ints[m] + x)
        # frames for modified arrays
        seen = {}
        for key in sorted(ctx.modified):
            if key not in ctx.mem: continue
            for f, A in ctx.mem[key].items():
                A0 = ctx.entry_mem[key][f]
                idx = {**{("p", n): None for n in ints}, **{("t", n): x for n, x in terms.items()}}
                for (kind, n), x in idx.items():
                    g = (lambda c, n=n: c.ints[n]) if kind == "p" else (lambda c, x=x: x)
                    for side in ("<", ">=", ">"):
                        def fr(c, key=key, f=f, A0=A0, g=g, side=side):
                            k = z3.Int("fk"); B = c.mem[key][f]; v = g(c)
                            cond = {"<": k < v, ">=": k >= v, ">": k > v}[side]
                            return L._all([k], z3.Implies(cond, B[k] == A0[k]), [B[k]])
                        add(f"frame {key}.{f} {side} {n}", fr)
        for k, fn in contract.templates(S, ctx, terms).items():
            # one-index templates: instantiated at every integer variable v, v-1, v+1
            for n in ints:
                for d in (-1, 0, 1):
                    out[f"tmpl {k} @{n}{d:+d}"] = lambda c, fn=fn, n=n, d=d: fn(c, c.ints[n] + d if d else c.ints[n])
            for n, x in terms.items():
                out[f"tmpl {k} @{n}"] = lambda c, fn=fn, x=x: fn(c, x)
        for k, fn in contract.templates2(S, ctx, terms).items():
            for n in ints:
                for m in ints:
                    if n != m: out[f"tmpl2 {k} @{n},{m}"] = lambda c, fn=fn, n=n, m=m: fn(c, c.ints[n], c.ints[m])
                for m, x in terms.items():
                    out[f"tmpl2 {k} @{n},T{m}"] = lambda c, fn=fn, n=n, x=x: fn(c, c.ints[n], x)
                    out[f"tmpl2 {k} @T{m},{n}"] = lambda c, fn=fn, n=n, x=x: fn(c, x, c.ints[n])
        for k, fn in contract.invariants(S, ctx, terms).items(): add("user " + k, fn)
        return {k: (lambda c, fn=fn, nm=ctx._n: fn(View(c, nm))) for k, fn in out.items()}
    return inv

# ---------------------------------------------------------------- solving
RL_CAND = int(os.environ.get("VC_RL", "400000"))
NLA = os.environ.get("VC_NLA", "1") == "1"
RELEV = int(os.environ.get("VC_RELEV", "2"))
def mk_solver(rl, mbqi=False, seed=0, nla=False):
    s = z3.SimpleSolver() if os.environ.get("VC_SIMPLE", "1") == "1" else z3.Solver()
    s.set("timeout", 60000)
    if NLA and not nla: s.set("smt.arith.nl.nra", False, "smt.arith.nl.tangents", False, "smt.arith.nl.order", False, "smt.arith.nl.branching", False, "smt.arith.nl.grobner", os.environ.get("VC_GRB", "0") == "1", "smt.arith.nl.horner", False)
    s.set("smt.relevancy", RELEV); s.set("smt.mbqi", mbqi); s.set("rlimit", rl); s.set("random_seed", seed)
    return s

def pmap(jobs, nproc=None):
    """run the closures in forked workers (results in order); a job whose worker dies yields ('err', ..)"""
    import pickle, select, struct
    nproc = nproc or int(os.environ.get("VC_PROCS", "8"))
    def one(j):
        try: return j()
        except z3.Z3Exception as e: return ("err", str(e))
    if len(jobs) <= 1 or nproc == 1: return [one(j) for j in jobs]
    qr, qw = os.pipe()
    res = [("err", "worker died")] * len(jobs)
    kids = {}
    for _ in range(min(nproc, len(jobs))):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(qw); os.close(r)
                for f in kids: os.close(f)
                while True:
                    b = os.read(qr, 4)
                    if len(b) < 4: break
                    i = struct.unpack("<I", b)[0]
                    d = pickle.dumps((i, one(jobs[i])))
                    d = struct.pack("<I", len(d)) + d
                    while d: d = d[os.write(w, d):]
            except BaseException: pass
            os._exit(0)
        os.close(w); kids[r] = [pid, b""]
    os.close(qr)
    todo = list(range(len(jobs)))
    data = b"".join(struct.pack("<I", i) for i in todo)
    os.set_blocking(qw, False)
    pos = 0; wopen = True
    while kids:
        rl, wl, _ = select.select(list(kids), [qw] if wopen else [], [])
        if wl:
            try: pos += os.write(qw, data[pos:pos + 2048])
            except BlockingIOError: pass
            except BrokenPipeError: pos = len(data)
            if pos >= len(data): os.close(qw); wopen = False
        for r in rl:
            b = os.read(r, 1 << 16)
            if not b:
                os.close(r); os.waitpid(kids.pop(r)[0], 0); continue
            buf = kids[r][1] + b
            while len(buf) >= 4:
                n = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + n: break
                i, x = pickle.loads(buf[4:4 + n]); res[i] = x; buf = buf[4 + n:]
            kids[r][1] = buf
    if wopen: os.close(qw)
    return res

class Proof:
    def __init__(self, name): 
        self.name, self.obls, self.failed, self.invs, self.time, self.notes = name, [], [], {}, 0, []
        self.trusted, self.externals = set(), set()
    def pack(self):
        return {"obls": self.obls, "time": self.time, "reach": self.reach, "inductive": self.inductive, "trusted": sorted(map(str, self.trusted)), "externals": sorted(map(str, self.externals))}

def facts(ex, path, alive, cache):
    out = list(ex.base_facts)
    for p in path:
        if isinstance(p, InvMark):
            k = (p.inst.n)
            if k not in cache:
                cache[k] = {key: fn(p.inst.ctx) for key, fn in p.inst.cands.items()}
            al = alive[p.inst.header]
            out += [b for key, b in cache[k].items() if key in al]
        else: out.append(p)
    return out

def quantifier_free(f):
    return not has_quant(f)
def has_quant(f):
    todo, seen = [f], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): return True
        todo += e.children()
    return False

def houdini(ex, verbose=False):
    """largest inductive subset of the candidates.  Stage 1: candidates that only relate integers; stage 2: all of them.
    'saturated' answers drop a candidate, resource-outs are retried with fewer premises / more resources first."""
    full = {}
    for inst in ex.instances:
        ks = set(inst.cands)
        full[inst.header] = full.get(inst.header, set()) | ks      # a candidate absent from an instance is vacuous there
    rep = {}
    for inst in ex.instances: rep.setdefault(inst.header, inst)
    light = {h: {k for k in ks if ISLIGHT(k)} for h, ks in full.items()}
    alive = {h: set(x) for h, x in light.items()}
    rounds = _houdini(ex, alive, verbose, "ints")
    for h in alive: alive[h] |= full[h] - light[h]
    cache = {}
    rounds += _houdini(ex, alive, verbose, "all")
    return alive, cache, rounds
def ISLIGHT(k): return not k.startswith(("frame ", "tmpl", "user "))

def _houdini(ex, alive, verbose, tag, quick=False):
    cache = {}
    events = [("entry", *e) for e in ex.entries] + [("back", *e) for e in ex.backs]
    rounds = 0
    goalcache = {}
    def goal(ei, key):
        if (ei, key) not in goalcache:
            _, inst, path, ctx = events[ei]
            g = inst.cands[key](ctx)
            goalcache[(ei, key)] = z3.simplify(g) if not z3.is_quantifier(g) else g
        return goalcache[(ei, key)]
    # candidate goals only depend on alive through the premises: recheck an event when one of its premises changed
    dirty = {ei: None for ei in range(len(events))}      # None: all keys
    rl = RL_CAND * (10 if quick else 1)
    retries = 0
    while dirty:
        rounds += 1
        jobs, meta = [], []
        for ei in sorted(dirty):
            kind, inst, path, ctx = events[ei]
            keys = sorted(k for k in (alive[inst.header] if dirty[ei] is None else dirty[ei] & alive[inst.header]) if k in inst.cands)
            if not keys: continue
            fs = facts(ex, path, alive, cache)
            step = max(2, min(24, len(keys) // 8 + 1))
            for i in range(0, len(keys), step):
                part = keys[i:i + step]
                gs = [goal(ei, k) for k in part]
                def job(fs=fs, part=part, gs=gs, rl=rl):
                    s = mk_solver(rl)
                    s.add(*fs)
                    bad, unk = [], []
                    for k, g in zip(part, gs):
                        if z3.is_true(g): continue
                        s.push(); s.set("rlimit", rl); s.add(z3.Not(g))
                        r = s.check()
                        if r == z3.unknown and "incomplete" not in s.reason_unknown(): unk.append(k)
                        elif r != z3.unsat: bad.append(k)
                        s.pop()
                    return bad, unk
                jobs.append(job); meta.append(ei)
        res = pmap(jobs)
        removed, unknown = {}, {}
        for ei, r in zip(meta, res):
            h = events[ei][1].header
            if r[0] == "err": raise Unsupported("solver error " + r[1])
            for k in r[0]:
                if k in alive[h]: alive[h].discard(k); removed.setdefault(h, set()).add(k)
            for k in r[1]: unknown.setdefault(ei, set()).add(k)
        if verbose: print("houdini", tag, rounds, "events", len(dirty), "removed", {h: len(x) for h, x in removed.items()}, "unknown", {e: len(x) for e, x in unknown.items()}, "alive", {h: len(a) for h, a in alive.items()})
        dirty = {}
        for ei, (kind, inst, path, ctx) in enumerate(events):
            if any(isinstance(p, InvMark) and p.inst.header in removed for p in path): dirty[ei] = None
        for ei, ks in unknown.items():
            if ei not in dirty: dirty[ei] = ks
        if not removed and unknown:
            retries += 1; rl *= 4
            if retries > 2:
                dirty = {}
                gone = set()
                for ei, ks in unknown.items():
                    h = events[ei][1].header
                    if verbose: print("  giving up on", sorted(ks)[:6])
                    alive[h] -= ks; gone.add(h)
                for ei, (kind, inst, path, ctx) in enumerate(events):
                    if any(isinstance(p, InvMark) and p.inst.header in gone for p in path): dirty[ei] = None
                rl = RL_CAND * 4
    return rounds

def check_goal(fs, goal, budget=1, quick=False):
    """('unsat'|'sat'|'unknown', backend, seconds, model)"""
    t = time.time()
    last = "unknown"
    g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
    if z3.is_true(g): return "unsat", "z3-simplify", 0.0, None
    for mbqi, rl, seed in ((False, 3000000, 0), (True, 6000000, 0), (False, 12000000, 7)):
        s = mk_solver(int(rl * budget), mbqi, seed, nla=seed > 0); s.add(*fs); s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat: return "unsat", "z3", time.time() - t, None
        if quick: return "unknown", "z3", time.time() - t, None
        if r == z3.sat: return "sat", "z3", time.time() - t, str(s.model())[:3000]
    r = cvc5_check(fs, goal)
    if r == "unsat": return "unsat", "cvc5", time.time() - t, None
    return last, "z3+cvc5", time.time() - t, None

def cvc5_check(fs, goal, tl=20000):
    import subprocess
    s = z3.Solver(); s.add(*fs); s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        r = subprocess.run(["cvc5", f"--tlimit={tl}", "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=tl / 1000 + 10)
        out = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return out if out in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"

HINTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "hints")
def hintfile(contract): return f"{HINTS}/{re.sub(r'[^A-Za-z0-9_.-]', '_', contract.tu + '.' + contract.name)}.json"
def load_hints(contract):
    if os.environ.get("VC_NOHINTS"): return None
    try: return json.load(open(hintfile(contract)))
    except OSError: return None

def minimize(ex, alive, goals, ords):
    """part of the invariants that the obligations (and, transitively, the invariants themselves) depend on"""
    need = {h: set() for h in alive}
    cache = {}
    def core(path, goal, extra=None):
        s = z3.Solver(); s.set("smt.mbqi", False); s.set("rlimit", 40000000); s.set("smt.core.minimize", True)
        s.add(*ex.base_facts); names = {}
        for p in path:
            if isinstance(p, InvMark):
                i = p.inst
                for key, fn in i.cands.items():
                    if key not in alive[i.header]: continue
                    if (i.n, key) not in cache: cache[(i.n, key)] = fn(i.ctx)
                    nm = f"h!{i.n}!{key}"
                    names[nm] = (i.header, key); s.assert_and_track(cache[(i.n, key)], nm)
            else: s.add(p)
        s.add(z3.Not(goal))
        r = s.check()
        if r != z3.unsat: return None
        return {names[str(x)] for x in s.unsat_core() if str(x) in names}
    def batch(items):
        res = pmap([(lambda p=p, g=g: core(p, g)) for p, g in items])
        new = set()
        for r in res:
            if r is None or (isinstance(r, tuple) and r and r[0] == "err"): return None
            new |= r
        return new
    todo = batch(goals)
    if todo is None: return None
    done = set()
    while todo - done:
        cur = todo - done; done |= cur
        items = []
        for inst, path, ctx in ex.entries + ex.backs:
            for h, key in cur:
                if h == inst.header and key in inst.cands: items.append((path, inst.cands[key](ctx)))
        new = batch(items)
        if new is None: return None
        todo |= new
    for h, k in done: need[h].add(k)
    return need

def prove(contract, verbose=False):
    """run engine B on one contract; returns Proof"""
    t0 = time.time()
    S = Setup()
    contract.setup(S)
    L.mode = "sym"
    pre = contract.pre(S)
    ir = build.reduce_ir(contract.tu, contract.entries(), contract.unroll_ir, opaque=contract.opaque)
    mod = irparse.parse_cached(ir)
    ex = Exec(mod, contract.fn, mode="cut", models=[*contract.models(S), *models.DEFAULT], invariants=generic_inv(contract, S),
              bounds_check=True, ovf=contract.overflow)
    ex.base_facts = S.facts + list(pre.values() if isinstance(pre, dict) else pre)
    contract.configure(ex, S)
    ex.run(S.args, S.st)
    if verbose: print(contract.name, "paths: entries", len(ex.entries), "backs", len(ex.backs), "rets", len(ex.rets), "throws", len(ex.throws), "obls", len(ex.obls), f"{time.time()-t0:.1f}s")
    # ---- the obligations
    goals = []
    for o in ex.obls: goals.append((f"{contract.name}: {o.kind}: {o.name}", o.kind, o.path, o.goal))
    for i, (st, ret) in enumerate(ex.rets):
        for nm, g in contract.post(S, Post(S, st, ret)).items():
            goals.append((f"{contract.name}: postcondition {nm} (return path {i})", "post", st.path, L._b(g)))
        for nm, o in S.arr.items():
            if nm in contract.writes or nm not in [p[1] for p in S.params]: continue
            for f, A in st.mem[o.key].items():
                if not A.eq(S.st.mem[o.key][f]):
                    k = z3.Int("frk"); ln = o.length
                    goals.append((f"{contract.name}: frame: {nm} unchanged (return path {i})", "frame", st.path, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(ln)), A[k] == S.st.mem[o.key][f][k]))))
    for i, st in enumerate(ex.throws):
        g = contract.throws(S, st)
        if g is not None: goals.append((f"{contract.name}: exception only when allowed ({i})", "throw", st.path, L._b(g)))
    ords = {}
    for inst in ex.instances: ords.setdefault(inst.header, f"L{len(ords)}")
    def attempt(alive, cache, rounds, quick):
        pr = Proof(contract.name)
        pr.invs = {h: sorted(a) for h, a in alive.items()}
        jobs = []
        for name, kind, path, goal in goals:
            fs = facts(ex, path, alive, cache)
            jobs.append(lambda fs=fs, goal=goal: check_goal(fs, goal, quick=quick))
        res = pmap(jobs)
        if quick and any(r[0] != "unsat" for r in res): return None
        reach = []
        for i, (st, ret) in enumerate(ex.rets):
            fs = facts(ex, st.path, alive, cache)
            reach.append(lambda fs=fs: (lambda s: (s.add(*fs), str(s.check()))[1])(mk_solver(2000000)))
        rr = pmap(reach)
        pr.reach = sum(1 for r in rr if r != "unsat")
        for (nm, kind, _, _), r in zip(goals, res):
            if r[0] == "err": r = ("unknown", r[1], 0, None)
            pr.obls.append((nm, kind) + tuple(r))
        # entry/back obligations of the surviving invariants count as discharged obligations
        pr.inductive = sum(len(alive[e[0].header]) for e in ex.entries + ex.backs)
        pr.rounds, pr.nret, pr.nthrow = rounds, len(ex.rets), len(ex.throws)
        pr.trusted, pr.externals = ex.trusted_calls, ex.externals
        pr.time = time.time() - t0
        return pr
    hints = load_hints(contract) if not os.environ.get("VC_MKHINTS") else None
    if hints is not None and ex.instances:
        alive = {}
        for inst in ex.instances:
            ks = set(inst.cands) & set(hints.get(ords[inst.header], ()))
            alive[inst.header] = alive.get(inst.header, set()) | ks
        r = _houdini(ex, alive, verbose, "hints", quick=True)
        pr = attempt(alive, {}, r, True)
        if verbose: print("hinted invariants", "suffice" if pr else "do not suffice", f"{time.time()-t0:.1f}s")
        if pr: return pr
    alive, cache, rounds = houdini(ex, verbose)
    pr = attempt(alive, cache, rounds, False)
    if os.environ.get("VC_MKHINTS") and ex.instances and all(o[2] == "unsat" for o in pr.obls):
        need = minimize(ex, alive, [(p, g) for _, _, p, g in goals], ords)
        if verbose: print("needed invariants", need and {h: len(x) for h, x in need.items()})
        if need is not None:
            os.makedirs(HINTS, exist_ok=True)
            json.dump({ords[h]: sorted(k) for h, k in need.items()}, open(hintfile(contract), "w"), indent=0)
    return pr

class Contract(ContractBase):
    """base class of engine-B contracts"""
    overflow = True
    writes = ()               # arrays the function may change (everything else is framed)
    def setup(self, S): raise NotImplementedError
    def pre(self, S): return {}
    def post(self, S, P): return {}
    def terms(self, S): return {}
    def invariants(self, S, ctx, terms): return {}
    def models(self, S): return []
    def templates(self, S, ctx, terms): return {}
    def templates2(self, S, ctx, terms): return {}
    def configure(self, ex, S): pass
    def throws(self, S, st): return False
    # ---- replay
    _ps = None
    def spec_setup(self):
        if self._ps is None:
            m = L.mode; L.mode = "sym"
            s = Setup(); self.setup(s); self._ps = s
            L.mode = m
        return self._ps
    def gen_cases(self, tier, rng): raise NotImplementedError
    def cases(self, tier, rng):
        s = self.spec_setup()
        for case in self.gen_cases(tier, rng):
            for kind, name, ct in s.params:
                if kind == "arr" and name not in case:
                    n = s.lens[name](case)
                    case[name] = [rng.choice((-7, 3, 99)) + k for k in range(max(n, 0))]
                if kind == "val" and name not in case: case[name] = s.v[name]
            yield case
    def con_pre(self, case):
        p = self.pre(ConS(case))
        return all(p.values() if isinstance(p, dict) else p)
    def con_check(self, case):
        s = self.spec_setup()
        ret, outs, ok = call_native(self.tu, self.fn, s.params, case, self.rety)
        if not ok: return "wrote outside its arguments"
        try: res = self.post(ConS(case), ConP(outs, ret))
        except IndexError: return "result refers to an index outside the arrays"
        for nm, g in res.items():
            if not g: return f"postcondition '{nm}' is false (returned {ret}, outputs { {k: v[:24] for k, v in outs.items()} })"
        for nm, kind in ((n, k) for k, n, _ in s.params):
            if kind == "arr" and nm not in self.writes and outs[nm] != case[nm]: return f"changed its input array {nm}"
        return None
