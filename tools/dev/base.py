import sys,json
sys.path.insert(0,'/verif/tools'); sys.setrecursionlimit(100000)
from verus_gen import *
em=build(Index(load_ast())); us=emit(em)
ent=sorted(em.entities)
enums=sorted(json.load(open('/verif/replay/schema.json'))['enums'])
import targets
M={n:sorted(getattr(targets,n)().obligations()) for n in targets.ALL}
json.dump({"modb":M,"kinds":{"entities":ent,"names":sorted(u.name for u in us),"enums":enums},"units":{u.name:u.obligations() for u in us}},open('/verif/tools/baseline.json','w'),indent=0)
print(len(ent), len(us))
print({k:len(v) for k,v in M.items()})
print(sum(len(u.obligations()) for u in us))
