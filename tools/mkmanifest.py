import json
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C31 C33".split()
NA = {
 "C29": "a liveness property (eventual completion under fairness); function contracts state partial correctness, and its safety half (wake-up exactly once, no lost signal) is C16",
 "C30": "computational unpredictability is not a contract a deductive verifier can express or discharge",
 "C32": "a real-time property of timers and the operating system's clock; contracts have no notion of elapsed time",
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
note = ("Deductive: every path of the functions under contract is turned into verification conditions from /repo's current source, "
        "discharged by z3/cvc5 with no bound on inputs or iterations (loop invariants inferred and proved inductive); failed obligations are replayed natively. "
        "Trusted: the verifier, go/ssa, the solvers and the contracts of external functions listed in the evidence file.")
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. No hooks are needed in /repo. known_findings.txt lists the repaired defects."}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "contract-based deductive verification of the real Go source (SSA to SMT verification conditions)",
            "level": "proof", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: contracts for this part are under construction")})
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
