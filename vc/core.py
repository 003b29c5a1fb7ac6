"""Contracts common to both engines, and their replay on the compiled code."""
import os, sys, ctypes, time, random, json, signal, itertools, multiprocessing as mp, mmap, pickle, math
from fractions import Fraction
import logic as L, build

GUARD = 8
SOFT = ("overflow",)     # obligation kinds whose failure only leaves machine arithmetic treated as mathematical
CT = {"i8": ctypes.c_int8, "i32": ctypes.c_int32, "i64": ctypes.c_int64, "f64": ctypes.c_double, "bool": ctypes.c_bool}
CANARY = {"i8": 77, "i32": -1234567, "i64": -123456789123, "f64": -1.2345678e77}

class Lib:
    _libs = {}
    @classmethod
    def get(cls, tu):
        if tu not in cls._libs:
            cls._libs[tu] = ctypes.CDLL(build.native(tu), mode=os.RTLD_LAZY | os.RTLD_LOCAL)
        return cls._libs[tu]

class ContractBase:
    """what both engines and the driver need to know about a contract"""
    engine = "B"
    tu = fn = name = None
    subject = None            # the real function(s) under contract
    unroll_ir = True
    opaque = ()
    limit = 250               # seconds for the proof
    replay_s = 12             # seconds of replay (quick)
    weight = 1
    rety = None
    maxfails = 3
    group = None
    def entries(self): return list(self.group) if self.group else [self.fn]
    def signature(self, case): return ""

class ConS:
    """concrete counterpart of Setup: v[name] -> value (lists are copies of the inputs)"""
    def __init__(self, v): self.v = v
class ConP:
    def __init__(self, out, ret): self._o, self.ret = out, ret
    def arr(self, name, f=0): return self._o[name]

def call_native(tu, fn, params, case, rety):
    """params: list of (kind, name, ct[, ...]); case: name -> value.  returns (ret, outs, frame_ok)"""
    f = getattr(Lib.get(tu), fn)
    args, bufs = [], {}
    for kind, name, ct in params:
        if kind == "arr":
            val = case[name]; n = len(val)
            B = (CT[ct] * (n + 2 * GUARD))()
            for i in range(GUARD): B[i] = CANARY[ct]; B[n + GUARD + i] = CANARY[ct]
            for i, x in enumerate(val): B[GUARD + i] = float(x) if ct == "f64" else int(x)
            bufs[name] = (B, n, ct)
            args.append(ctypes.cast(ctypes.byref(B, GUARD * ctypes.sizeof(CT[ct])), ctypes.c_void_p))
        else:
            args.append(CT[ct](float(case[name]) if ct == "f64" else bool(case[name]) if ct == "bool" else int(case[name])))
    f.restype = CT[rety] if rety else None
    r = f(*args)
    outs, ok = {}, True
    for name, (B, n, ct) in bufs.items():
        l = B[:]
        for i in range(GUARD):
            if l[i] != CANARY[ct] or l[n + GUARD + i] != CANARY[ct]: ok = False
        outs[name] = l[GUARD:GUARD + n]
    return r, outs, ok

class Replay:
    """run a contract's cases on the compiled code in a child process; crash / hang / wrong result = failing input"""
    def __init__(self, contract, seed, tier, budget_s, cases=None, skip=None):
        self.c, self.seed, self.tier, self.budget, self.cases, self.skip = contract, seed, tier, budget_s, cases, skip
    def run(self):
        shm = mmap.mmap(-1, 1 << 22)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1)
                if not os.environ.get("VC_DEBUG"): os.dup2(dn, 2)
                res = self.child(shm)
                os.write(w, pickle.dumps(res))
            except BaseException as e:
                import traceback
                try: os.write(w, pickle.dumps({"error": traceback.format_exc()[-3000:], "n": 0, "fails": []}))
                except BaseException: pass
                code = 3
            os._exit(code)
        os.close(w)
        data = b""; last = None; tlast = time.time()
        import select
        hang = False
        while True:
            rl, _, _ = select.select([r], [], [], 1.0)
            if rl:
                b = os.read(r, 1 << 16)
                if not b: break
                data += b
            cur = shm[:8]
            if cur != last: last, tlast = cur, time.time()
            elif time.time() - tlast > 90:
                hang = True; os.kill(pid, signal.SIGKILL); break
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if data and not hang:
            try: return pickle.loads(data)
            except Exception: pass
        n = int.from_bytes(shm[:8], "little"); ln = int.from_bytes(shm[8:16], "little")
        case = pickle.loads(shm[16:16 + ln]) if ln else None
        why = "no progress for 90 s" if hang else f"process died (status {status})"
        if case is None: return {"error": why + " before the first case", "n": 0, "fails": []}
        k = self.skip(case, why) if self.skip else None
        if k: return {"n": n, "fails": [], "known": [k["id"]]}
        return {"n": n, "fails": [{"contract": self.c.name, "input": case, "why": why}]}
    def child(self, shm):
        c = self.c
        if hasattr(c, "prepare_native"): c.prepare_native()
        rng = random.Random(self.seed * 1000003 + sum(map(ord, c.name)))
        t0 = time.time(); n = 0; fails = []; skipped = 0; known = set(); seen = set()
        L.mode = "con"
        for case in (self.cases if self.cases is not None else c.cases(self.tier, rng)):
            if n % 64 == 0 and time.time() - t0 > self.budget: break
            if not c.con_pre(case): skipped += 1; continue
            n += 1
            p = pickle.dumps(case)
            if len(seen) < 2000000: seen.add(hash(p))
            if len(p) < (1 << 22) - 16:
                shm[8:16] = len(p).to_bytes(8, "little"); shm[16:16 + len(p)] = p
            shm[:8] = n.to_bytes(8, "little")
            bad = c.con_check(case)
            if bad:
                k = self.skip(case, bad) if self.skip else None
                if k: known.add(k["id"]); continue
                fails.append({"contract": c.name, "input": case, "why": bad})
                if len(fails) >= getattr(c, "maxfails", 3): break
        return {"n": n, "fails": fails, "skipped": skipped, "known": sorted(known), "distinct": len(seen), "t": time.time() - t0}
