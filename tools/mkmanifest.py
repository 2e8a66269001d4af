import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA=json.load(open(V+'/tools/na.json')) if os.path.exists(V+'/tools/na.json') else {}
NOTE=json.load(open(V+'/tools/level_notes.json')) if os.path.exists(V+'/tools/level_notes.json') else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(V+'/checks/%s.py'%i) and i not in NA:
        checks.append(dict(property=i,quick_cmd='./check %s quick'%i,thorough_cmd='./check %s thorough'%i,evidence_file='evidence/%s.json'%i,
          technique='symbolic execution of the LLVM IR of the real code (all inputs symbolic), SMT decision by z3/cvc5, counterexamples replayed on the compiled code',
          level='other',level_note=NOTE.get(i,'Solver verdict over every input within the stated bounds; see DESIGN.md.')))
    else: na.append(dict(property=i,reason=NA.get(i,'No check built yet.')))
json.dump(dict(version=1,setup_cmd='true',checks=checks,not_applicable=na,notes='See DESIGN.md. Checks regenerate their encodings from /repo/include on every run.'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
