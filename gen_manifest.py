#!/usr/bin/env python3
"""writes MANIFEST.json from props.json and properties.jsonl"""
import json
props=json.load(open('props.json'))
ids=[json.loads(l)['id'] for l in open('properties.jsonl')]
checks=[];na=[]
for i in ids:
    if i in props and not props[i].get('wip'):
        p=props[i]
        checks.append({"property":i,"quick_cmd":"python3 check.py %s"%i,
          "thorough_cmd":"VERIF_TIER=thorough python3 check.py %s --tier thorough"%i,
          "technique":"deductive verification: contracts on the Go source, translated mechanically by govc and discharged by Verus/Z3",
          "level":"proof",
          "level_note":p.get('level_note',"every obligation generated from /repo's current source (units %s) is discharged by Verus; the accompanying harness is a bounded cross-check and the search for failing inputs, never counted as proof"%', '.join(p['units']))})
    else:
        na.append({"property":i,"reason":props.get(i,{}).get('na','contracts for this property are still being written')})
json.dump({"version":1,"setup_cmd":"python3 setup.py","checks":checks,"not_applicable":na},open('MANIFEST.json','w'),indent=1)
