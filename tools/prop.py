import json
ENUM={'schedules','crash_points','inputs','programs','histories','configurations','fault_sequences'}
def norm(o):
    r=[]
    for x in o:
        y = x if x in ENUM else 'histories' if 'sequence' in x or 'session' in x or 'order' in x else 'configurations' if any(k in x for k in ('assembl','config','mesh','decomp')) else 'inputs'
        if y not in r: r.append(y)
    return r
def P(id,title,statement,over,text,why,files,mech,state,obs,**chk):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=norm(over),text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=state,meaning=state,where=files[0])],observe_at=[obs]))
    assert len(title)<=80,(id,len(title))
    if chk: d["_check"]=chk
    json.dump(d,open("/verif/props/%s.json"%id,"w"),indent=1)
