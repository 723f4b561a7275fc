import sys,pickle,time,re
sys.path.insert(0,'/verif/tools')
import sym,symex,symstd,modb,mir
from rs import *
ix=pickle.load(open('/tmp/ix.pkl','rb'))
fns=pickle.load(open('/tmp/fns.pkl','rb'))
def world():
    w=sym.World(ix,fns)
    w.mut_structs=modb.mutable_structs(ix)
    w.under_contract=lambda f: False
    return w
def find(pat):
    return [f for n,f in fns.items() if re.search(pat,n) and f.ret is not None]
if __name__=='__main__':
    w=world()
    pat=sys.argv[1]
    show=len(sys.argv)>2
    for f in find(pat):
        if '{closure' in f.name or 'promoted' in f.name: continue
        env={}
        for k,ty in f.params:
            for s in symex.find_impl(mir.strip(mir.parse_type(ty)) if 'closure@' not in ty else None):
                env[s]=T('Id')
        n=len(w.out); t0=time.time()
        keep=dict(w.vty_of)
        try:
            g=w.generics(f)
            for x in g: env[x]=T(x)
            w.abstract|=set(g)
            i=modb.emit(w,f,env,'f%d'%w.n)
            print('OK ',f.name[-70:], [a for a in i.parts])
            if show: print(''.join(w.out[n:]))
        except Unsupported as u:
            print('NO ',f.name[-70:],'::',str(u)[:150])
            w.vty_of=keep
        except Exception as u:
            import traceback
            print('EXC',f.name[-70:],'::',repr(u)[:150]); traceback.print_exc(limit=-3)
            w.vty_of=keep
