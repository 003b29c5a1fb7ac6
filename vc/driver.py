import os, sys, time, json, re, pickle, select, signal, traceback, random
import build, core, logic as L
from execu import Unsupported
HERE = build.HERE

def load_known():
    p = HERE + "/KNOWN_FINDINGS.json"
    return json.load(open(p)) if os.path.exists(p) else []

def known_match(known, prop, contract, text):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and re.fullmatch(k["contract"], contract) and re.search(k["match"], text): return k
    return None

class Task:
    def __init__(self, name, fn, limit): self.name, self.fn, self.limit = name, fn, limit

def run_tasks(tasks, nproc, deadline, onres):
    """fork-based scheduler (children may fork themselves); results are pickled through pipes"""
    todo = list(tasks); live = {}
    def start(t):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r); os.setpgid(0, 0)
            for fd in list(live): os.close(fd)
            try: res = t.fn()
            except build.BuildError as e: res = ("build", str(e)[-3000:])
            except Unsupported as e: res = ("unsupported", str(e)[:2000])
            except BaseException: res = ("crash", traceback.format_exc()[-3000:])
            data = pickle.dumps(res)
            try:
                with os.fdopen(w, "wb") as f: f.write(data)
            finally: os._exit(0)
        os.close(w); live[r] = [t, pid, time.time(), b""]
    while todo or live:
        while todo and len(live) < nproc:
            if time.time() > deadline: t = todo.pop(0); onres(t, ("timeout", "not started: check budget used up")); continue
            start(todo.pop(0))
        if not live: continue
        rl, _, _ = select.select(list(live), [], [], 0.5)
        for r in rl:
            b = os.read(r, 1 << 20); e = live[r]
            if b: e[3] += b
            else:
                os.close(r); os.waitpid(e[1], 0); del live[r]
                try: onres(e[0], pickle.loads(e[3]))
                except Exception: onres(e[0], ("crash", "no result"))
        now = time.time()
        for r, e in list(live.items()):
            if now - e[2] > e[0].limit or now > deadline + 5:
                try: os.killpg(e[1], signal.SIGKILL)
                except OSError: pass
                os.close(r); os.waitpid(e[1], 0); del live[r]
                onres(e[0], ("timeout", f"stopped after {now - e[2]:.0f} s"))

def prove(c):
    if c.engine == "A":
        import enga; return enga.prove(c)
    import engb; return engb.prove(c)

def main(a):
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import registry
    P = registry.PROPS[prop]
    known = load_known()
    build.workdir()
    cs = P.contracts()
    if a.only: cs = [c for c in cs if re.search(a.only, c.name)]
    names = [c.name for c in cs]; assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    if a.replay: return replay_file(a, prop, cs)
    deadline = t0 + (780 if tier == "quick" else 7000)
    # ---- build
    buildres = {}
    def bres(t, r): buildres[t.name] = r
    tus = sorted({c.tu for c in cs})
    tasks = []
    def bt(tu):
        groups = {tuple(c.entries()): c for c in cs if c.tu == tu and c.engine != "bounded" and getattr(c, "shared", True)}
        def f():
            build.frontend(tu); build.native(tu)
            return ("ok", None)
        return f
    for tu in tus: tasks.append(Task(tu, bt(tu), 300))
    run_tasks(tasks, 8, deadline, bres)
    for tu in tus:
        if buildres[tu][0] != "ok":
            print(f"BUILD-PROBLEM {tu}: harness does not compile against the current sources\n" + str(buildres[tu][1])[-1500:])
    gt = {}
    for c in cs:
        if c.engine != "bounded" and buildres[c.tu][0] == "ok": gt[(c.tu, tuple(c.entries()), c.unroll_ir, tuple(c.opaque))] = c
    run_tasks([Task(k, (lambda c=c: (build.reduce_ir(c.tu, c.entries(), c.unroll_ir, opaque=c.opaque), ("ok", None))[1]), 300) for k, c in gt.items()], 8, deadline, lambda t, r: buildres.__setitem__(t.name, r))
    # parsed once here, inherited by the forked tasks
    import irparse
    for k, c in gt.items():
        if buildres.get(k, ("?",))[0] == "ok": irparse.parse_cached(build.reduce_ir(c.tu, c.entries(), c.unroll_ir, opaque=c.opaque))
    # ---- proofs and replays
    proofs, reps = {}, {}
    ptasks, rtasks = [], []
    for c in cs:
        if buildres[c.tu][0] != "ok":
            proofs[c.name] = ("build", ""); reps[c.name] = None; continue
        if c.engine != "bounded" and not a.noproof:
            ptasks.append(Task(("p", c), (lambda c=c: ("ok", prove(c).pack())), c.limit if tier == "quick" else 4 * c.limit))
        if not a.noreplay:
            bud = c.replay_s if tier == "quick" else 12 * c.replay_s
            def skip(case, why, c=c): return known_match(known, prop, c.name, why + " | " + str(c.signature(case))) 
            rtasks.append(Task(("r", c), (lambda c=c, bud=bud, skip=skip: ("ok", core.Replay(c, seed, tier, bud, skip=skip).run())), bud + 200))
    def pres(t, r):
        k, c = t.name
        (proofs if k == "p" else reps)[c.name] = r
        if a.v: print(f"  [{time.time()-t0:6.1f}] {k} {c.name}: {r[0]} " + (str(r[1])[:300] if r[0] != "ok" else (f"{len(r[1]['obls'])} obligations, bad {[o[0] for o in r[1]['obls'] if o[2] != 'unsat' and o[1] not in core.SOFT][:3]} {r[1]['time']:.1f}s" if k == "p" else f"n={r[1].get('n')} fails={[f['why'] for f in r[1]['fails']][:2]} {str(r[1].get('error',''))[-300:]}")), flush=True)
    order = sorted(ptasks, key=lambda t: -t.name[1].weight)
    os.environ.setdefault("VC_PROCS", "2" if len(order) > 6 else "4" if len(order) > 2 else "8")
    run_tasks(order + rtasks, 8, deadline, pres)
    # ---- verdicts
    outdir = f"{HERE}/replays/{prop}"
    viol, kn, und = [], [], []
    tot = dis = ovf = ovfd = 0; backs = {}; solver_s = 0.0; inv = 0; fu = set(); softs = []; trusted = set(); bounded = []
    kinds = {}
    for c in cs:
        pr, rp = proofs.get(c.name), reps.get(c.name)
        bad = []
        if pr and pr[0] == "ok":
            p = pr[1]; fu.add(c.name)
            trusted |= set(p["trusted"]); inv += p["inductive"]; solver_s += p["time"]
            for nm, kind, stt, back, secs, det in p["obls"]:
                if kind in core.SOFT:
                    ovf += 1; ovfd += stt == "unsat"
                    if stt != "unsat": softs.append(nm)
                    continue
                tot += 1; kinds[kind] = kinds.get(kind, 0) + 1
                if stt == "unsat": dis += 1; backs[back] = backs.get(back, 0) + 1
                else: bad.append((nm, kind, stt, det))
            if p["reach"] == 0: bad.append((f"{c.name}: some return is reachable (vacuity)", "vacuity", "unknown", None)); tot += 1
            if not p["obls"]: bad.append((f"{c.name}: generated no obligation (vacuity)", "vacuity", "unknown", None)); tot += 1
        elif pr: und.append((c.name, pr[0], str(pr[1])[-400:]))
        if c.engine == "bounded": bounded.append(c.name)
        fails = []
        if rp and rp[0] == "ok":
            r = rp[1]
            if r.get("error"): und.append((c.name, "replay", r["error"][-400:]))
            for k in r.get("known", []): kn.append((k, c.name))
            fails = r["fails"]
        elif rp: und.append((c.name, "replay " + rp[0], str(rp[1])[-300:]))
        # known findings may also show up as failed obligations
        bad2 = []
        for b in bad:
            k = known_match(known, prop, c.name, b[0])
            if k: kn.append((k["id"], c.name))
            else: bad2.append(b)
        if fails or bad2: viol.append((c, fails, bad2))
    # ---- report
    seen = set()
    for kid, cn in kn:
        k = next(x for x in known if x["id"] == kid)
        if kid not in seen: print(f"KNOWN-FINDING: property={prop} {k['what']}"); seen.add(kid)
    for n, w, d in und: print(f"UNDECIDED {prop} {n}: {w} {d.strip().splitlines()[-1][:200] if d.strip() else ''}")
    lines = []
    hard = [v for v in viol if v[1]]
    for c, fails, bad in hard + [v for v in viol if not v[1]]:
        os.makedirs(outdir, exist_ok=True)
        path = f"{outdir}/{re.sub('[^A-Za-z0-9_.]+', '_', c.name)}.json"
        rec = {"property": prop, "contract": c.name, "function": c.subject or c.fn, "failed_obligations": [{"name": b[0], "kind": b[1], "solver_answer": b[2], "solver_output": b[3]} for b in bad[:20]],
               "failing_inputs": fails, "how_to_replay": f"python3 check.py {prop} --replay {path}"}
        with open(path, "w") as f: json.dump(rec, f, indent=1, default=str)
        if fails:
            print(f"{c.name}: {fails[0]['why']}  input {json.dumps(fails[0]['input'], default=str)[:400]}")
            lines.append(f"VIOLATION property={prop} replay={path}")
        else:
            print(f"{c.name}: obligation not discharged: {bad[0][0]} ({bad[0][2]})" + (f" {str(bad[0][3])[:300]}" if bad[0][3] else ""))
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    # a real failing input outranks obligations that merely could not be discharged
    for l in (lines[:len(hard)] if hard else lines): print(l)
    nrep = sum(r[1].get("n", 0) for r in reps.values() if r and r[0] == "ok")
    ndist = sum(r[1].get("distinct", 0) for r in reps.values() if r and r[0] == "ok")
    wall = time.time() - t0
    samples = [{"contract": n, "cases": r[1].get("n", 0)} for n, r in list(reps.items())[:200] if r and r[0] == "ok"]
    assum = list(P.assumptions) + ["doubles are treated as exact real numbers in proofs (replay uses the machine's doubles)", "termination is not proved; a replay that hangs counts as a violation"]
    if softs: assum.append(f"{len(softs)} machine-overflow obligations not discharged (integers treated as mathematical there): " + "; ".join(sorted(set(softs))[:12]))
    if und: assum.append("undecided on this run: " + "; ".join(f"{n} ({w})" for n, w, d in und))
    level = P.level
    cov = {"functions_under_contract": sorted(fu), "obligations": tot, "discharged": dis, "obligation_kinds": kinds, "discharged_by": backs, "inductive_invariant_obligations": inv,
           "overflow_obligations": ovf, "overflow_discharged": ovfd, "solver_and_vcgen_s": round(solver_s, 2),
           "checker_cmd": f"python3 /verif/check.py {prop} --tier {tier}",
           "trusted_base": sorted(["vc/irparse.py + vc/execu.py (verification-condition generator over LLVM IR)", "clang 18 front end and opt-18 standard passes (inline, sroa, instcombine, simplifycfg, gvn)", "z3 4.8/5.x and cvc5, vc/poly.py normal form",
                                   "harness argument copying in contracts/*.cpp"] + [f"assumed contract: {t}" for t in trusted]),
           "bounded_contracts": bounded, "evaluations": nrep, "distinct_nontrivial": ndist,
           "rule": "replay: the same contracts evaluated on the compiled code; small shapes enumerated, then seeded random inputs; a case counts when it satisfies the contract's precondition and counts as distinct once per contract",
           "samples": samples, "explanation": P.note, "undecided": [list(u) for u in und]}
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov, "assumptions": assum, "wall_s": round(wall, 2), "violations": len(viol)}
    if not a.only:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{prop}.json", "w") as f: json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {dis}/{tot} obligations discharged over {len(fu)} contracts (+{inv} inductive), {nrep} replayed cases, {len(viol)} violations, {len(und)} undecided, {wall:.1f} s")
    if viol: return 1
    if cs and not nrep and not tot: return 2
    return 0

def replay_file(a, prop, cs):
    rec = json.load(open(a.replay))
    c = next(x for x in cs if x.name == rec["contract"])
    rc = 0
    for f in rec["failing_inputs"]:
        r = core.Replay(c, 1, "quick", 60, cases=[f["input"]]).run()
        print(json.dumps(r, default=str)[:2000]); rc |= bool(r["fails"])
    if not rec["failing_inputs"]:
        p = prove(c)
        for o in p.obls:
            if o[2] != "unsat" and o[1] not in core.SOFT: print(o[0], o[2]); rc = 1
    return 1 if rc else 0
