#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the checks registered in the tool.
import json,subprocess,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
ids=set(subprocess.check_output(['bin/vx','-list'],text=True).split())
X="symbolic execution of the emitted x86-64 code and C runtime with an SMT solver (bit-vectors)"
G="symbolic execution of the compiler's Go SSA with an SMT solver (bit-vectors)"
B=X+" and of the compiler's Go SSA"
tech={}
exec(open('tools/tech.py').read()) if os.path.exists('tools/tech.py') else None
NA={}
if os.path.exists('tools/na.json'): NA=json.load(open('tools/na.json'))
checks=[];na=[]
for l in open('properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i in ids and i not in NA:
        checks.append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
          "technique":tech.get(i,X),"level":"model_checking",
          "level_note":"bounded: every value of the symbolic inputs within the bounds listed in evidence and DESIGN.md is decided by the solver; nothing is claimed outside them; counterexamples are replayed on the real build before being reported"})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
