#!/usr/bin/env python3
# regenerates MANIFEST.json from properties.jsonl and na.json (development helper)
import json,os
here=os.path.dirname(os.path.realpath(__file__))
props=[json.loads(l) for l in open(here+'/properties.jsonl') if l.strip()]
na=json.load(open(here+'/na.json'))
nai={x['property'] for x in na}
notes=json.load(open(here+'/notes.json'))
ch=[]
for p in props:
    if p['id'] in nai: continue
    ch.append({"property":p['id'],"quick_cmd":"./check.sh %s quick"%p['id'],"thorough_cmd":"./check.sh %s thorough"%p['id'],
      "technique":"contract-based deductive verification: govc generates verification conditions from /repo's Go source (typed SSA) against the contracts in /verif/govc/c_*.go and discharges them with z3/cvc5; refuted obligations are replayed on the compiled code",
      "level":"proof","level_note":notes.get(p['id'],notes['default'])})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":ch,"not_applicable":na},open(here+'/MANIFEST.json','w'),indent=1)
