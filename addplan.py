import json,sys
# usage: addplan.py ID confs(1,0) asan rel [thorough asan] [rel] [fuzz]
p=json.load(open('plan.json'))
i=sys.argv[1]; confs=[int(c) for c in sys.argv[2].split(',')]; a,r=int(sys.argv[3]),int(sys.argv[4])
fuzz=int(sys.argv[5]) if len(sys.argv)>5 else 300
old=p.get(i,{})
old.update({"src":i.lower()+".cc","confs":confs,"batch":old.get("batch",50),
 "quick":{"runs":{"asan":a,"rel":r},"wall":120},
 "thorough":{"runs":{"asan":a*20,"rel":r*20},"wall":900,"fuzz":fuzz}})
p[i]=old
json.dump(dict(sorted(p.items())),open('plan.json','w'),indent=1)
