import sys,time,os
sys.path.insert(0,'/verif/tools')
sys.setrecursionlimit(100000)
import modb, pickle
if len(sys.argv)<3:
    modb._cache["ix"]=pickle.load(open('/tmp/ix.pkl','rb')); modb._cache["fns"]=pickle.load(open('/tmp/fns.pkl','rb'))
import provers, obligations
r=obligations.Result(); os.makedirs('/tmp/vv',exist_ok=True)
t=time.time()
provers.modb(sys.argv[1])(r,'/tmp/vv',lambda:600)
print(r.discharged,[(n,m[:600]) for n,m in r.failed],[(a,b[:300]) for a,b in r.undecided],[c for c in r.canaries if not c["ok"]],len(r.canaries),r.solver,len(r.functions), time.time()-t)
