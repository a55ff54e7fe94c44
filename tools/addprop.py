"""addprop.py FILE.json: {prop: {...}, technique, note, design} -> properties.jsonl, MANIFEST.json, DESIGN.md"""
import json, sys
d = json.load(open(sys.argv[1])); e = d["prop"]; pid = e["id"]
f='/verif/properties.jsonl'
ls=[l for l in open(f) if f'"id": "{pid}"' not in l]; ls.append(json.dumps(e)+"\n"); open(f,'w').writelines(sorted(ls, key=lambda l: json.loads(l)["id"]))
m=json.load(open('/verif/MANIFEST.json'))
m['checks']=[c for c in m['checks'] if c['property']!=pid]
m['checks'].append({'property':pid,'quick_cmd':f'VERIF_TIER=quick ./check {pid}','thorough_cmd':f'VERIF_TIER=thorough ./check {pid}','evidence_file':f'evidence/{pid}.json','technique':'property-based testing (Hypothesis): '+d["technique"],'level':'exploration','level_note':"Generated-case search, no proof: everything outside the generated bounds is unexplored. "+d["note"]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
s=open('/verif/DESIGN.md').read()
if f"| {pid} |" not in s.split("None is listed")[0]:
    s=s.replace("\nNone is listed as not applicable.\n", d["design"]+"\n\nNone is listed as not applicable.\n",1)
open('/verif/DESIGN.md','w').write(s)
