import json,sys
def P(id,title,statement,over,qtext,why,files,mech,note=None,na=None,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if na: d['na']=na
    else: d['note']=note
    d.update(kw)
    json.dump(d,open(f'/verif/meta/{id}.json','w'),indent=1)
