#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json, os
M='include/ccmath/math/'; I='include/ccmath/internal/'; X='include/ccmath/ext/'
G=I+'math/generic/func/'; R=I+'math/runtime/func/'; S=I+'support/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe or [],'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'props_text.py')).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P:
        assert len(q['title'])<=80,q['id']
        f.write(json.dumps(q)+'\n')
print(len(P),'properties')
