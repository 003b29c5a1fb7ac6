#!/usr/bin/env python3
"""(re)generate /verif/hints: minimal inductive invariants found by the full search.  Development tool; the checks only read them
(and re-establish every hinted invariant on every run)."""
import sys, os, re, signal, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/vc", HERE + "/contracts"]
os.environ["VC_MKHINTS"] = os.environ["VC_PENDING"] = "1"
import registry, engb
pid, rx, lim = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else ""), int(sys.argv[3] if len(sys.argv) > 3 else 900)
for c in registry.PROPS[pid].contracts():
    if c.engine != "B" or not re.search(rx, c.name): continue
    if os.path.exists(engb.hintfile(c)) and not os.environ.get("FORCE"): continue
    sys.stdout.flush()
    pid_ = os.fork()
    if pid_ == 0:
        os.setpgid(0, 0); t = time.time()
        try:
            pr = engb.prove(c)
            bad = [(o[0][len(c.name) + 2:], o[2]) for o in pr.obls if o[2] != "unsat"]
            print(f"{c.name}: {len(pr.obls)} obligations, bad {bad[:6]} {time.time()-t:.0f}s", flush=True)
        except BaseException as e: print(f"{c.name}: {type(e).__name__} {e}"[:300], flush=True)
        os._exit(0)
    t = time.time()
    while time.time() - t < lim:
        p, _ = os.waitpid(pid_, os.WNOHANG)
        if p: break
        time.sleep(.2)
    else:
        os.killpg(pid_, signal.SIGKILL); os.waitpid(pid_, 0); print(f"{c.name}: timeout", flush=True)
