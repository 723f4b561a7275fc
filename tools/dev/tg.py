import sys
sys.path.insert(0,'/verif/tools')
import modb, pickle
from rs import *
if len(sys.argv)>2:
    pass
modb._cache["ix"]=pickle.load(open('/tmp/ix.pkl','rb')); modb._cache["fns"]=pickle.load(open('/tmp/fns.pkl','rb'))
import targets
g=getattr(targets,sys.argv[1])()
print(g.why); print(getattr(g,'undecided',None))
open('/tmp/%s.rs'%sys.argv[1],'w').write(g.text())
