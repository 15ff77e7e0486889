import json,os
def load():
    return [json.loads(l) for l in open('/verif/properties.jsonl')]
def P(id,title,statement,over,text,why,files,mech,**kw):
    ps=[p for p in load() if p['id']!=id]
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    a.update(kw)
    assert len(title)<=80,(id,len(title))
    ps.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
    ps.sort(key=lambda p:p['id'])
    with open('/verif/properties.jsonl','w') as f:
        for p in ps: f.write(json.dumps(p)+'\n')
    for fn in files:
        assert os.path.exists('/repo/'+fn), fn
