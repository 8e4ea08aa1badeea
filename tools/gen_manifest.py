"""Writes MANIFEST.json. CLAIMS: property -> (technique, level note)."""
import json, subprocess
chain = ("the program's real entry point runs in a simulated Solana runtime against an executable reference specification; "
         "assurance is bounded by the generated histories and by the fidelity of the simulated runtime (account ownership, signer, writability, rent and CPI rules) and of the delegation and magic program models")
stateful = "stateful property-based testing: generated operation histories against a reference specification of every instruction"
CLAIMS = {}
for p in "C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C24 C25 C26".split():
    CLAIMS[p] = (stateful, chain)
exec(open('/verif/tools/claims_extra.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
commits = [l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines() if 'verif-hooks' in l]
m = {"version": 1, "setup_cmd": "./setup",
     "hooks": {"guard": "cargo feature verif-hooks of ephemeral-vrf-api", "enable": "the harness crates under /verif/h depend on /repo/api with features = [\"verif-hooks\"]", "source_commits": commits},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}", "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT.get(p, "no check built yet")})
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
