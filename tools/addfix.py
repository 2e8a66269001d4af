#!/usr/bin/env python3
"""addfix.py ID PROPERTY COMMIT TEXT: record a repaired defect in known_findings.json"""
import json,sys
k=json.load(open('/verif/known_findings.json')); i,p,c,w=sys.argv[1:5]
k['findings']=[f for f in k['findings'] if f['id']!=i]+[dict(id=i,property=p,status='fixed',what='fixed: property=%s %s %s'%(p,c,w))]
open('/verif/known_findings.json','w').write(json.dumps(k,indent=1)+'\n')
