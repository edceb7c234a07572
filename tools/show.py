#!/usr/bin/env python3
# show.py ID [UPTO] [FROM]: the trace of a scenario of the last lab.py run
import json,sys,os
out=os.environ.get("LABOUT","/tmp/lab")
i=int(sys.argv[1]); up=int(sys.argv[2]) if len(sys.argv)>2 else 10**9; fr=int(sys.argv[3]) if len(sys.argv)>3 else 0
for l in open(out+"/tr.jsonl"):
    t=json.loads(l)
    if t["id"]==i:
        c=dict(t["cfg"]); d={}
        for x in c.pop("decl"): d.setdefault(x[0]+":"+x[1],0)
        print(t["fam"],sorted(d),c)
        for j,e in enumerate(t["ev"],1):
            if fr<=j<=up:
                print(j,json.dumps({k:v for k,v in e.items() if v not in ("",0,False,[],None) or k=="k"})[:360])
