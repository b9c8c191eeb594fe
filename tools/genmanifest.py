# Writes /verif/MANIFEST.json from the table below.
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(R + '/tools/claimed.json'))
props = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks = []
for pid in props:
    if pid not in CLAIMED: continue
    c = CLAIMED[pid]
    checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid}", thorough_cmd=f"./check.sh {pid} thorough",
        technique=c['technique'], level=c['level'], level_note=c['note']))
m = dict(version=1, setup_cmd="./check.sh --build",
    hooks=dict(guard="cfg(ecc_verif)", enable="/verif/ecc/build.rs emits cfg(ecc_verif) when it compiles /repo/expander_compiler/src/lib.rs",
        source_commits=["@HOOK@"]),
    checks=checks,
    not_applicable=[dict(property=p, reason="check under construction; no claim made yet") for p in props if p not in CLAIMED])
hooks = subprocess.check_output(['git','-C','/repo','log','--format=%H %s'],text=True).splitlines()
m['hooks']['source_commits'] = [l.split()[0] for l in hooks if l.split(' ',1)[1].startswith('verif hook')]
json.dump(m, open(R + '/MANIFEST.json','w'), indent=1)
