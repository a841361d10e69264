"""Writes properties.jsonl and MANIFEST.json from tools/props.py (claimed and not-applicable properties)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE=('Decided for all values of the quantified inputs by abstract interpretation of the LLVM IR that clang 18 produces from the current sources (no execution, no solver). '
      'Arithmetic is exact real arithmetic: rounding is not modelled. Trusted: clang front end, the engine in /verif/engine, the oracle formulas in the check. ')
rows=[]; checks=[]; na=[]
for p in PROPS:
    assert len(p['title'])<=80,p['id']
    rows.append({'id':p['id'],'title':p['title'],'statement':p['statement'],
      'quantifier':{'over':p['over'],'text':p['q']},'why_tests_cant':p['why'],
      'anchors':{'files':p['files'],'mechanism':[{'name':n,'where':w} for n,w in p['mech']],'hook_needed':None}})
    for f in p['files']: assert os.path.exists('/repo/'+f),f
    if 'na' in p: na.append({'property':p['id'],'reason':p['na']}); continue
    checks.append({'property':p['id'],'quick_cmd':f'python3 checks/{p["id"]}.py quick','thorough_cmd':f'python3 checks/{p["id"]}.py thorough',
      'technique':p['tech'],'level':'other','level_note':p.get('note') or NOTE+p.get('bounds','')})
open(os.path.join(V,'properties.jsonl'),'w').write(''.join(json.dumps(r)+'\n' for r in rows))
json.dump({'version':1,'setup_cmd':'python3 -c "import sys; sys.path.insert(0, \'.\'); from engine import harness" && clang++-18 --version',
  'checks':checks,'not_applicable':na},open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not applicable')
