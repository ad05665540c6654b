#!/usr/bin/env python3
# Rewrites MANIFEST.json from the contracts that exist: a property is claimed iff a
# contract clause is tagged with it.
import json,re,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tags={}
for f in glob.glob(here+'/contracts/**/*.go',recursive=True):
    for l in open(f):
        m=re.match(r'\s*//@\s*(ensures|nopanic|check)\[([^\]]*)\]',l)
        if m:
            for t in m.group(2).split(','):
                tags[t.strip()]=tags.get(t.strip(),0)+1
notes=json.load(open(here+'/tools/notes.json'))
props=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    if tags.get(p):
        checks.append({"property":p,"quick_cmd":"./check.sh "+p,"thorough_cmd":"./check.sh "+p,"technique":"contract-based deductive verification of the Go source (govc: contracts + go/ssa weakest preconditions, discharged by z3/cvc5); concrete replay of the real code for failing inputs","level":"proof","level_note":notes.get(p,notes["_default"])})
    else:
        na.append({"property":p,"reason":notes.get("na_"+p,"no contract for this property yet")})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,"notes":"One check per property: govc regenerates every verification condition from /repo's working tree on every run; a bounded harness of the real code runs alongside (labelled bounded, never counted as proved) and supplies failing inputs."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),[x['property'] for x in na])
