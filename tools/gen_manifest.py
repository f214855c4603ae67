import json
V='/verif'
props=json.load(open(V+'/contracts/props.json'))
checks=[];na=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    c=props.get(i)
    if not c or c.get('not_applicable'):
        na.append({"property":i,"reason":(c or {}).get('not_applicable','no check yet')}); continue
    lev=c.get('level') or ('proof' if c.get('units') or c.get('kani') else 'exploration')
    tech=[]
    if c.get('units'): tech.append('Verus contracts on functions extracted from the current sources')
    if c.get('kani'): tech.append('Kani proofs on the compiled functions')
    tech.append('contract replay on the real crate (bounded)')
    checks.append({"property":i,"quick_cmd":f"bin/check {i} --tier quick","thorough_cmd":f"bin/check {i} --tier thorough","evidence_file":f"evidence/{i}.json",
      "technique":"contract-based deductive verification: "+'; '.join(tech) if lev=='proof' else "contract-based: "+'; '.join(tech),"level":lev,"level_note":c['note']})
m={"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":na,
"notes":"Each check extracts the functions from /repo's current sources (kx), has Verus (or Kani) discharge their contracts, and evaluates the same contracts on the real crate (replay). See DESIGN.md."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
