"""Writes properties.jsonl and MANIFEST.json from one table, so that the two (and contracts/registry.py) stay in step.  python3 props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/contracts", HERE + "/vc"]
A, EL, H1 = "src/base/utils/utils_arrays_tables.hpp", "src/elasticity/elasticity_energy.hpp", "src/h1/h1_energy.hpp"
PROPS, NA = [], []
TECH = "contracts on the real functions, verification conditions generated from the LLVM IR of /repo's current source and discharged by z3/cvc5/polynomial normalisation; counterexamples replayed on the compiled code"
TECHB = TECH + "; functions out of the generator's reach: the same contracts checked on bounded inputs"
def prop(id, title, statement, quant, why, files, mech, state=(), obs=(), over=("inputs",), level="proof", note="", tech=TECH, hook=None):
    assert len(title) <= 80, title
    PROPS.append(dict(rec={"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": quant}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state], "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(obs), "hook_needed": hook}}, level=level, note=note, tech=tech))
def na(id, reason): NA.append({"property": id, "reason": reason})
exec(open(HERE + "/props_table.py").read())

def main():
    import registry
    ids = [p["rec"]["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
    claimed = [p for p in PROPS if p["rec"]["id"] in registry.PROPS]
    nas = {n["property"] for n in NA}
    assert nas | {p["rec"]["id"] for p in claimed} >= set(ids) and not nas & {p["rec"]["id"] for p in claimed}, "every property is claimed or not applicable"
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS: f.write(json.dumps(p["rec"]) + "\n")
    checks = []
    for p in claimed:
        i = p["rec"]["id"]; lvl = registry.PROPS[i].level
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": p["tech"], "level": lvl, "level_note": p["note"]})
    man = {"version": 1, "setup_cmd": "python3 tools_ok.py", "hooks": {"guard": "NGSAMG_VERIF (reserved; no hook is needed)", "enable": "nothing to enable: no source change is guarded", "source_commits": []},
           "checks": checks, "not_applicable": NA, "notes": "see DESIGN.md"}
    with open(HERE + "/MANIFEST.json", "w") as f: json.dump(man, f, indent=1); f.write("\n")
    print(len(PROPS), "properties,", len(checks), "claimed,", len(NA), "not applicable")
main()
